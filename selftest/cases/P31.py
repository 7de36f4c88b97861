N = 'structure/network.py'
K = 'hooks.py'
T = 'tools.py'
SAVE = "            f.create_dataset('parameters', compression='gzip', data=self.get('parameters'))\n"
DESC = "            f['description'] = json.dumps(description).encode()\n"
LOAD = "            net.handler.set_from_numpy(net.buffer.parameters, f['parameters'][()])\n"
HAND = "        net.set_handler(create_from_description(description['handler']))\n"
INIT = "        if description['initializers']:\n            net.initialize(create_from_description(description['initializers']))\n"
GRAD = "        net.set_gradient_modifiers(create_from_description(description['gradient_modifiers']))\n"
WGT = "        net.set_weight_modifiers(create_from_description(description['weight_modifiers']))\n"
OUT = "        net.output_name = description.get('output_name')\n"
CASES = [
    ('f16', 'bad', [(N, SAVE, SAVE.replace("compression='gzip'", "compression='gzip', dtype='f2'"))]),
    ('scaleoffset', 'bad', [(N, SAVE, SAVE.replace("compression='gzip'", "scaleoffset=4"))]),
    ('gradients', 'bad', [(N, SAVE, SAVE.replace("get('parameters')", "get('gradients')"))]),
    ('setitem', 'ok', [(N, SAVE, "            f['parameters'] = self.get('parameters')\n")]),
    ('direct', 'ok', [(N, SAVE, SAVE.replace("self.get('parameters')", "self.handler.get_numpy_copy(self.buffer.parameters)"))]),
    ('var', 'ok', [(N, SAVE, "            params = self.get('parameters')\n" + SAVE.replace("self.get('parameters')", "params"))]),
    ('rounded', 'bad', [(N, SAVE, SAVE.replace("self.get('parameters')", "self.get('parameters').round(6)"))]),
    ('astype', 'bad', [(N, SAVE, SAVE.replace("self.get('parameters')", "self.get('parameters').astype('float32')"))]),
    ('renamed', 'bad', [(N, SAVE, SAVE.replace("'parameters', comp", "'params', comp"))]),
    ('renamed-both', 'bad', [(N, SAVE, SAVE.replace("'parameters', comp", "'params', comp")), (N, LOAD, LOAD.replace("f['parameters']", "f['weights']"))]),
    ('param-if', 'bad', [(N, SAVE, "            if comment:\n    " + SAVE)]),
    ('sort-keys', 'bad', [(N, DESC, DESC.replace("dumps(description)", "dumps(description, sort_keys=True)"))]),
    ('indent', 'ok', [(N, DESC, DESC.replace("dumps(description)", "dumps(description, indent=2)"))]),
    ('arch-only', 'bad', [(N, DESC, DESC.replace("dumps(description)", "dumps(description['architecture'])"))]),
    ('append', 'bad', [(N, "h5py.File(filename, 'w')", "h5py.File(filename, 'a')")]),
    ('open-leak', 'bad', [(N, "        with h5py.File(filename, 'r') as f:\n            description = json.loads(f['description'][()].decode())\n            net = create_from_description(description)\n" + LOAD, "        f = h5py.File(filename, 'r')\n        description = json.loads(f['description'][()].decode())\n        net = create_from_description(description)\n" + LOAD[4:] + "        f.close()\n")]),
    ('open-finally', 'ok', [(N, "        with h5py.File(filename, 'r') as f:\n            description = json.loads(f['description'][()].decode())\n            net = create_from_description(description)\n" + LOAD, "        f = h5py.File(filename, 'r')\n        try:\n            description = json.loads(f['description'][()].decode())\n            net = create_from_description(description)\n" + LOAD + "        finally:\n            f.close()\n")]),
    ('no-params', 'bad', [(N, LOAD, "")]),
    ('load-slice', 'ok', [(N, LOAD, LOAD.replace("[()]", "[:]"))]),
    ('load-part', 'bad', [(N, LOAD, LOAD.replace("[()]", "[:-1]"))]),
    ('load-gradients', 'bad', [(N, LOAD, LOAD.replace("buffer.parameters", "buffer.gradients"))]),
    ('load-after', 'ok', [(N, LOAD, "            params = f['parameters'][()]\n"), (N, "        return net\n\n    def __init__", "        net.handler.set_from_numpy(net.buffer.parameters, params)\n        return net\n\n    def __init__")]),
    ('if-in', 'ok', [(N, LOAD, "            if 'parameters' in f:\n    " + LOAD)]),
    ('if-initialised', 'bad', [(N, LOAD, "            if description['initializers']:\n    " + LOAD)]),
    ('from-arch', 'bad', [(N, "            net = create_from_description(description)\n", "            net = Network.from_architecture(description['architecture'])\n")]),
    ('new-from', 'ok', [(N, "            net = create_from_description(description)\n", "            net = cls.__new_from_description__(description)\n")]),
    ('no-handler', 'bad', [(N, HAND, "")]),
    ('no-init', 'bad', [(N, INIT, "")]),
    ('init-always', 'ok', [(N, INIT, "        net.initialize(create_from_description(description['initializers']))\n")]),
    ('no-grad', 'bad', [(N, GRAD, "")]),
    ('swapped', 'bad', [(N, GRAD, GRAD.replace("'gradient_modifiers'", "'weight_modifiers'"))]),
    ('twice', 'bad', [(N, GRAD, GRAD.replace("set_gradient", "set_weight"))]),
    ('grad-if', 'ok', [(N, GRAD, "        if description['gradient_modifiers']:\n    " + GRAD)]),
    ('grad-if-wrong', 'bad', [(N, GRAD, "        if description['weight_modifiers']:\n    " + GRAD)]),
    ('no-out', 'bad', [(N, OUT, "")]),
    ('out-idx', 'ok', [(N, OUT, "        net.output_name = description['output_name']\n")]),
    ('out-if', 'ok', [(N, OUT, "        if 'output_name' in description:\n            net.output_name = description['output_name']\n")]),
    ('out-undescribed', 'ok', [(N, "from_hdf5", "from_hdf5")]),
    ('local', 'ok', [(N, WGT, "        mods = description['weight_modifiers']\n        net.set_weight_modifiers(create_from_description(mods))\n")]),
    ('raw-arch-copy', 'ok', [(N, "from_architecture(description['architecture'])", "from_architecture(dict(description['architecture']))")]),
    ('savebest-other', 'bad', [(K, "                net.save_as_hdf5(self.filename)\n", "                net.save_as_hdf5(self.log_name)\n")]),
    ('savebest-load', 'bad', [(K, "return Network.from_hdf5(self.filename) if self.filename is not None else self.parameters", "return Network.from_hdf5(self.filename) if self.filename is not None else self.best_parameters")]),
    ('savebest-if', 'ok', [(K, "return Network.from_hdf5(self.filename) if self.filename is not None else self.parameters", "if self.filename is None:\n            return self.parameters\n        return Network.from_hdf5(self.filename)")]),
    ('savenet-nothing', 'bad', [(K, "    def load_network(self):\n        return Network", "    def load_network(self):\n        Network")]),
    ('logs-open', 'bad', [(K, "        with h5py.File(self.filename, 'w') as f:\n            f.attrs.create('info', get_brainstorm_info())\n            f.attrs.create('format', b'Logs file v1.0')\n            SaveLogs._save_recursively(f, logs)", "        f = h5py.File(self.filename, 'w')\n        f.attrs.create('info', get_brainstorm_info())\n        f.attrs.create('format', b'Logs file v1.0')\n        SaveLogs._save_recursively(f, logs)\n        f.close()")]),
]
