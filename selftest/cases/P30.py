D = 'describable.py'
K = 'hooks.py'
I = 'initializers.py'
M = 'value_modifiers.py'
T = 'training/trainer.py'
S = 'training/steppers.py'
R = 'randomness.py'
H = 'handlers/numpy_handler.py'
B = 'handlers/base_handler.py'
G = 'handlers/debug_handler.py'
IGN = "            if member in ignorelist:\n                continue\n"
DEF = "            if member in defaultlist and defaultlist[member] == value:\n                continue\n"
UND = "        for member, init_val in cls.__get_all_undescribed__().items():\n            instance.__dict__[member] = deepcopy(init_val)\n"
DEV = "        for member, default_val in cls.__get_all_default_values__().items():\n            instance.__dict__[member] = deepcopy(default_val)\n"
DES = "        for member, descr in description.items():\n            if member == '@type':\n                continue\n            instance.__dict__[member] = create_from_description(descr)\n"
INI = "        cls.__init_from_description__(instance, description)\n"
SUPB = "        super(SaveBestNetwork, self).__init_from_description__(description)\n"
CASES = [
    ('best-noinit', 'bad', [(K, "        self.best_so_far = np.inf if self.criterion == 'min' else -np.inf\n\n    def __call__", "        pass\n\n    def __call__")]),
    ('best-swapped', 'bad', [(K, SUPB + "        self.best_so_far = np.inf if self.criterion == 'min' else -np.inf", SUPB + "        self.best_so_far = np.inf if self.criterion == 'max' else -np.inf")]),
    ('best-helper', 'ok', [(K, SUPB + "        self.best_so_far = np.inf if self.criterion == 'min' else -np.inf", SUPB + "        self._reset()\n\n    def _reset(self):\n        self.best_so_far = np.inf if self.criterion == 'min' else -np.inf")]),
    ('best-if', 'ok', [(K, SUPB + "        self.best_so_far = np.inf if self.criterion == 'min' else -np.inf", SUPB + "        if self.criterion == 'min':\n            self.best_so_far = np.inf\n        else:\n            self.best_so_far = -np.inf")]),
    ('best-described', 'bad', [(K, "'best_so_far': None, 'best_t': None}", "'best_so_far': None}")]),
    ('best-und-t', 'bad', [(K, "'parameters': None, 'best_parameters'", "'best_parameters'")]),
    ('iter-described', 'bad', [(K, "    __undescribed__ = {'iter'}\n\n    def __init__(self, iter_name, name=None, timescale='epoch', interval=1, verbose=None):\n        super(MonitorLoss", "    def __init__(self, iter_name, name=None, timescale='epoch', interval=1, verbose=None):\n        super(MonitorLoss")]),
    ('momentum-und', 'bad', [(S, "    __undescribed__ = {'velocity'}\n    __default", "    __undescribed__ = {'velocity', 'momentum'}\n    __default")]),
    ('velocity-described', 'bad', [(S, "    __undescribed__ = {'velocity'}\n    __default", "    __default")]),
    ('net-described', 'bad', [(S, "    __undescribed__ = {'net'}\n", "")]),
    ('lr-und', 'bad', [(S, "    __undescribed__ = {'update'}", "    __undescribed__ = {'update', 'learning_rate'}")]),
    ('mask-list', 'bad', [(M, "        self.mask = np.array(self.mask)\n", "")]),
    ('mask-asarray', 'ok', [(M, "        self.mask = np.array(self.mask)\n", "        self.mask = np.asarray(self.mask)\n")]),
    ('mask-device', 'bad', [(M, "    __undescribed__ = {'device_mask'}\n", "")]),
    ('freeze-device', 'bad', [(M, "    __undescribed__ = {'weights', 'device_weights'}\n", "    __undescribed__ = {'weights'}\n")]),
    ('clip-und', 'bad', [(M, "        super(ClipValues, self).__init__()\n", "        super(ClipValues, self).__init__()\n        self.span = high - low\n"), (M, "class ClipValues(ValueModifier):\n", "class ClipValues(ValueModifier):\n    __undescribed__ = {'high'}\n")]),
    ('seedable-noinit', 'bad', [(R, "        Seedable.__init__(self)\n", "        pass\n")]),
    ('seedable-rnd', 'ok', [(R, "        Seedable.__init__(self)\n", "        self.rnd = RandomState(None)\n")]),
    ('uniform-nosuper', 'bad', [(I, "        super(Uniform, self).__init_from_description__(description)\n", "")]),
    ('uniform-base', 'ok', [(I, "        super(Uniform, self).__init_from_description__(description)\n", "        Seedable.__init_from_description__(self, description)\n"), (I, "from brainstorm.randomness import Seedable\n", "from brainstorm.randomness import Seedable\n")]),
    ('scale-und', 'bad', [(I, "    __default_values__ = {'scale': None}\n", "    __undescribed__ = {'scale'}\n")]),
    ('array-und', 'bad', [(I, "        return self.array.tolist()", "        return []")]),
    ('np-dtype', 'bad', [(H, "return {'@type': self.__class__.__name__, 'dtype': str(np.dtype(self.dtype))}", "return {'@type': self.__class__.__name__}"), (H, "self.__init__(np.dtype(description['dtype']))", "self.__init__(np.dtype('float32'))")]),
    ('np-reads', 'bad', [(H, "'dtype': str(np.dtype(self.dtype))", "'type': str(np.dtype(self.dtype))")]),
    ('np-notype', 'bad', [(H, "return {'@type': self.__class__.__name__, 'dtype'", "return {'dtype'")]),
    ('np-dict', 'ok', [(H, "return {'@type': self.__class__.__name__, 'dtype': str(np.dtype(self.dtype))}", "d = dict()\n        d['@type'] = self.__class__.__name__\n        d['dtype'] = np.dtype(self.dtype).name\n        return d")]),
    ('handler-noinit', 'bad', [(H, "self.__init__(np.dtype(description['dtype']))", "self.dtype = np.dtype(description['dtype'])")]),
    ('debug-noinit', 'bad', [(G, "        self.__init__(self.handler)\n", "        pass\n")]),
    ('ignore-gone', 'bad', [(D, IGN, "")]),
    ('default-gone', 'bad', [(D, DEF, DEF.replace(" and defaultlist[member] == value", ""))]),
    ('default-ne', 'bad', [(D, "defaultlist[member] == value", "defaultlist[member] != value")]),
    ('one-if', 'ok', [(D, IGN + DEF, "            if member in ignorelist or (member in defaultlist and defaultlist[member] == value):\n                continue\n")]),
    ('private-skipped', 'bad', [(D, IGN, "            if member in ignorelist or member.startswith('_'):\n                continue\n")]),
    ('falsy-skipped', 'bad', [(D, IGN, IGN + "            if not value:\n                continue\n")]),
    ('raw-member', 'bad', [(D, "description[member] = get_description(value)", "description[member] = value")]),
    ('no-type', 'bad', [(D, "        description['@type'] = self.__class__.__name__\n", "")]),
    ('shared-undescribed', 'bad', [(D, "instance.__dict__[member] = deepcopy(init_val)", "instance.__dict__[member] = init_val")]),
    ('shared-default', 'bad', [(D, "instance.__dict__[member] = deepcopy(default_val)", "instance.__dict__[member] = default_val")]),
    ('setattr', 'ok', [(D, "instance.__dict__[member] = deepcopy(init_val)", "setattr(instance, member, deepcopy(init_val))")]),
    ('no-defaults', 'bad', [(D, DEV, "")]),
    ('no-undescribed', 'bad', [(D, UND, "")]),
    ('defaults-last', 'bad', [(D, DEV, ""), (D, DES, DES + DEV)]),
    ('defaults-first', 'ok', [(D, UND + DEV, DEV + UND)]),
    ('init-first', 'bad', [(D, DES + INI, INI + DES)]),
    ('no-init', 'bad', [(D, INI, "")]),
    ('init-method', 'ok', [(D, INI, "        instance.__init_from_description__(description)\n")]),
    ('raw-described', 'bad', [(D, "instance.__dict__[member] = create_from_description(descr)", "instance.__dict__[member] = descr")]),
    ('known-only', 'bad', [(D, "            if member == '@type':\n                continue\n", "            if member == '@type' or member not in cls.__get_all_default_values__():\n                continue\n")]),
    ('mro-forward', 'bad', [(D, "for c in reversed(cls.__mro__):", "for c in cls.__mro__:")]),
    ('mro-slice', 'ok', [(D, "for c in reversed(cls.__mro__):", "for c in cls.__mro__[::-1]:")]),
    ('und-set-lost', 'bad', [(D, "                ignore.update({k: None for k in c_ignore})", "                pass")]),
    ('und-dict-lost', 'bad', [(D, "                ignore.update(c_ignore)", "                ignore.update({k: None for k in c_ignore})")]),
    ('und-loop', 'ok', [(D, "                ignore.update({k: None for k in c_ignore})", "                for k in c_ignore:\n                    ignore[k] = None")]),
    ('list-raw', 'bad', [(D, "                result.append(get_description(v))", "                result.append(v)")]),
    ('dict-raw', 'bad', [(D, "                result[k] = get_description(this[k])", "                result[k] = this[k]")]),
    ('list-comp', 'ok', [(D, "            for i, v in enumerate(this):\n                result.append(get_description(v))", "            i = 0\n            result = [get_description(v) for v in this]")]),
    ('create-raw', 'bad', [(D, "return [create_from_description(d) for d in description]", "return description")]),
    ('create-dict-raw', 'bad', [(D, "return {k: create_from_description(v) for k, v in description.items()}", "return description")]),
    ('create-skip', 'bad', [(D, "return [create_from_description(d) for d in description]", "return [create_from_description(d) for d in description if d]")]),
    ('create-loop', 'ok', [(D, "return [create_from_description(d) for d in description]", "out = []\n        for d in description:\n            out.append(create_from_description(d))\n        return out")]),
    ('hooks-order', 'bad', [(T, "sorted(self.hooks.items(), key=get_priority)", "sorted(self.hooks.items())")]),
    ('hooks-unsorted', 'bad', [(T, "sorted(self.hooks.items(), key=get_priority)", "list(self.hooks.items())")]),
    ('hooks-reverse', 'bad', [(T, "sorted(self.hooks.items(), key=get_priority)", "sorted(self.hooks.items(), key=get_priority, reverse=True)")]),
    ('hooks-name', 'bad', [(T, "            mon.__name__ = name\n", "")]),
    ('hooks-lambda', 'ok', [(T, "sorted(self.hooks.items(), key=get_priority)", "sorted(self.hooks.items(), key=lambda kv: getattr(kv[1], 'priority', 0))")]),
    ('trainer-epoch', 'bad', [(T, "'current_epoch_nr': 0,", "'current_epoch_nr': 1,")]),
    ('trainer-epochs', 'bad', [(T, "'current_epoch_nr': 0, ", "")]),
    ('interval-lost', 'bad', [(K, "    __undescribed__ = {'__name__', 'run_verbosity'}", "    __undescribed__ = {'__name__', 'run_verbosity', 'interval'}")]),
    ('priority-lost', 'bad', [(K, "    __undescribed__ = {'__name__', 'run_verbosity'}", "    __undescribed__ = {'__name__', 'run_verbosity', 'priority'}")]),
    ('verbosity-described', 'bad', [(K, "    __undescribed__ = {'__name__', 'run_verbosity'}", "    __undescribed__ = {'__name__'}")]),
    ('same-name', 'bad', [('scorers.py', "class Hamming(Scorer):", "class Gaussian(Scorer):")]),
    ('lambda-kept', 'bad', [(K, "        self.max_epochs = max_epochs\n", "        self.max_epochs = max_epochs\n        self.test = lambda e: e >= self.max_epochs\n")]),
    ('set-kept', 'bad', [(K, "        self.max_epochs = max_epochs\n", "        self.max_epochs = max_epochs\n        self.seen = set()\n")]),
    ('name-none', 'bad', [(K, "        super(Hook, self).__init_from_description__(description)\n        self.__name__ = self.__class__.__name__", "        super(Hook, self).__init_from_description__(description)")]),
]
