N = 'structure/network.py'
B = 'structure/buffers.py'
V = 'structure/view_references.py'
A = 'structure/architecture.py'
H = 'handlers/numpy_handler.py'
K = 'hooks.py'
S = 'scorers.py'
GET = "return self.handler.get_numpy_copy(b)"
ASS = "assert type(arr) == self.array_type\n        "
CTX = "                c = self.handler.zeros((hub.context_size, self.batch_size, hub.size))\n                context_start_idx = self.time_size - hub.context_size\n                context_stop_idx = self.time_size\n                self.handler.copy_to(buf[context_start_idx:context_stop_idx], c)\n                context.append(c)\n"
CASES = [
    ('get-view', 'bad', [(N, GET, "return b")]),
    ('get-asarray', 'bad', [(N, GET, "return np.asarray(b)")]),
    ('get-flat', 'bad', [(N, GET, "return b if isinstance(b, np.ndarray) else self.handler.get_numpy_copy(b)")]),
    ('get-np-array', 'ok', [(N, GET, "return np.array(self.handler.get_numpy_copy(b))")]),
    ('get-var', 'ok', [(N, GET, "copied = self.handler.get_numpy_copy(b)\n        return copied")]),
    ('handler-self', 'bad', [(H, ASS + "return arr.copy()", ASS + "return arr")]),
    ('handler-as', 'bad', [(H, ASS + "return arr.copy()", ASS + "return np.ascontiguousarray(arr)")]),
    ('handler-array', 'ok', [(H, ASS + "return arr.copy()", ASS + "return np.array(arr)")]),
    ('handler-nocopy', 'bad', [(H, ASS + "return arr.copy()", ASS + "return np.array(arr, copy=False)")]),
    ('ctx-view', 'bad', [(B, CTX, "                context.append(buf[self.time_size - hub.context_size:self.time_size])\n")]),
    ('ctx-reshape', 'bad', [(B, "                context.append(c)\n", "                context.append(buf[context_start_idx:context_stop_idx].reshape(c.shape))\n")]),
    ('best-view', 'bad', [(K, "params = net.get('parameters')", "params = net.buffer.parameters")]),
    ('best-handler', 'ok', [(K, "params = net.get('parameters')", "params = net.handler.get_numpy_copy(net.buffer.parameters)")]),
    ('best-reshape', 'bad', [(K, "params = net.get('parameters')", "params = net.buffer['parameters'].reshape(-1)")]),
    ('log-array', 'bad', [(K, "            log[key]['avg'] = v.mean()\n            log[key]['max'] = v.max()\n            if len", "            log[key]['avg'] = v.mean()\n            log[key]['raw'] = net.buffer[self.layer_name].parameters[key]\n            log[key]['max'] = v.max()\n            if len")]),
    ('stop-kept', 'bad', [(K, "if not net.handler.is_fully_finite(net.buffer.parameters):", "self.last = net.buffer.parameters\n            if not net.handler.is_fully_finite(self.last):")]),
    ('mod-same', 'bad', [(V, "copied_mod = deepcopy(modifier)", "copied_mod = modifier")]),
    ('mod-copy', 'bad', [(V, "from copy import deepcopy", "from copy import copy"), (V, "copied_mod = deepcopy(modifier)", "copied_mod = copy(modifier)")]),
    ('mod-single', 'bad', [(V, "l.append(copy_modifier_for(mod, layer_name, view_name))", "mod.layer_name = layer_name\n                    mod.view_name = view_name\n                    l.append(mod)")]),
    ('mod-first', 'bad', [(V, "copied_mod = deepcopy(modifier)", "copied_mod = modifier if not hasattr(modifier, 'layer_name') else deepcopy(modifier)")]),
    ('mod-inline', 'ok', [(V, "l.append(copy_modifier_for(mod, layer_name, view_name))", "c = deepcopy(mod)\n                    c.layer_name = layer_name\n                    c.view_name = view_name\n                    l.append(c)")]),
    ('refs-same', 'bad', [(N, "references = dict(refs)", "references = refs")]),
    ('refs-comp', 'ok', [(N, "references = dict(refs)", "references = {k: v for k, v in refs.items()}")]),
    ('refs-copy', 'ok', [(N, "references = dict(refs)", "references = refs.copy()")]),
    ('data-pop', 'bad', [(N, "                self.handler.copy_to(data[name], buf)", "                self.handler.copy_to(data.pop(name), buf)")]),
    ('arch-pop', 'bad', [(A, "    kwarg_ignore = {'@type', '@outgoing_connections'}\n", "    kwarg_ignore = {'@type', '@outgoing_connections'}\n    layer.setdefault('@outgoing_connections', [])\n")]),
    ('ctx-consumed', 'bad', [(B, "        for c, buf in zip(context, self.buffers):\n", "        context.reverse()\n        for c, buf in zip(context, self.buffers):\n")]),
    ('score-kept', 'bad', [(S, "scores[name].append((net._buffer_manager.batch_size, loss))", "scores[name].append((net._buffer_manager.batch_size, net.buffer[name].outputs.loss))")]),
    ('descr-pop', 'bad', [('describable.py', "            name = description['@type']\n", "            name = description['@type']\n            description['@created'] = True\n")]),
    ('retype-pop', 'bad', [('describable.py', "        for member, descr in description.items():\n            if member == '@type':\n                continue\n", "        description.pop('@type')\n        for member, descr in description.items():\n")]),
    ('default-pop', 'bad', [(V, "    resolved = empty_dict_from(structure)\n", "    resolved = empty_dict_from(structure)\n    default = references.pop('default', None)\n")]),
    ('logs-own', 'bad', [(K, "        self.logs_to_check = [logs_to_check] if isinstance(logs_to_check, string_types) else logs_to_check\n", "        self.logs_to_check = [logs_to_check] if isinstance(logs_to_check, string_types) else logs_to_check\n        if check_training_loss and not isinstance(logs_to_check, (tuple, string_types)):\n            logs_to_check.append('rolling_training.total_loss')\n")]),
]
