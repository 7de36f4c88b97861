R = 'randomness.py'
D = 'data_iterators.py'
I = 'initializers.py'
N = 'structure/network.py'
H = 'handlers/numpy_handler.py'
T = 'tools.py'
L = 'structure/layout.py'
A = 'structure/architecture.py'
B = 'layers/base_layer.py'
SHUF = "            self.rnd.shuffle(indices)\n        for idx in indices:\n            batch_slice"
NOISE = "for key, std in self.std_dict.items():"
SETSEED = "        if seed is not None:\n            initializer.rnd.set_seed(seed)\n"
INITRND = "init_rnd = self.rnd.create_random_state(seed)"
RNDIF = "        if seed is None:\n            seed = global_rnd.generate_seed()\n        super(RandomState"
CASES = [
    ('rs-not', 'bad', [(R, RNDIF, "        if not seed:\n            seed = global_rnd.generate_seed()\n        super(RandomState")]),
    ('rs-or', 'bad', [(R, RNDIF, "        seed = seed or global_rnd.generate_seed()\n        super(RandomState")]),
    ('rs-eq0', 'bad', [(R, RNDIF, "        if seed is None or seed == 0:\n            seed = global_rnd.generate_seed()\n        super(RandomState")]),
    ('rs-ifexp', 'ok', [(R, RNDIF, "        seed = global_rnd.generate_seed() if seed is None else seed\n        super(RandomState")]),
    ('rs-notnone', 'ok', [(R, RNDIF, "        if seed is not None:\n            pass\n        else:\n            seed = global_rnd.generate_seed()\n        super(RandomState")]),
    ('rs-nprandom', 'bad', [(R, "            seed = global_rnd.generate_seed()\n", "            seed = np.random.randint(*RandomState.seed_range)\n")]),
    ('rs-super-none', 'bad', [(R, "super(RandomState, self).__init__(seed)\n        self._seed", "super(RandomState, self).__init__()\n        self._seed")]),
    ('rs-noseed-kept', 'bad', [(R, "super(RandomState, self).seed(seed)\n        self._seed = seed", "super(RandomState, self).seed(seed)")]),
    ('rs-reset', 'bad', [(R, "        self.seed(self._seed)", "        self.seed(self.generate_seed())")]),
    ('rs-reset-get', 'ok', [(R, "        self.seed(self._seed)", "        self.set_seed(self.get_seed())")]),
    ('rs-gen-global', 'bad', [(R, "return self.randint(*RandomState.seed_range)", "return np.random.randint(*RandomState.seed_range)")]),
    ('rs-gen-other', 'bad', [(R, "return self.randint(*RandomState.seed_range)", "return global_rnd.randint(*RandomState.seed_range)")]),
    ('rs-gen-two', 'ok', [(R, "return self.randint(*RandomState.seed_range)", "low, high = RandomState.seed_range\n        return self.randint(low, high)")]),
    ('rs-create-drop', 'bad', [(R, "        return RandomState(seed)", "        return RandomState()")]),
    ('rs-create-always', 'bad', [(R, "        if seed is None:\n            seed = self.generate_seed()\n        return", "        seed = self.generate_seed()\n        return")]),
    ('rs-create-global', 'bad', [(R, "        if seed is None:\n            seed = self.generate_seed()\n        return RandomState(seed)", "        return RandomState(seed)")]),
    ('rs-reduce-state', 'bad', [(R, "(self._seed,), self.get_state())", "(), self.get_state())")]),
    ('seedable-drop', 'bad', [(R, "self.rnd = RandomState(seed)", "self.rnd = RandomState()")]),
    ('seedable-pass', 'bad', [(R, "    def __init__(self, seed=None):\n        self.rnd = RandomState(seed)", "    def __init__(self, seed=None):\n        self.rnd = RandomState(None)")]),
    ('global-fixed', 'ok', [(R, "global_rnd = RandomState(np.random.randint(*RandomState.seed_range))", "global_rnd = RandomState(1234)")]),
    ('shuffle-np', 'bad', [(D, "self.rnd.shuffle(indices)", "np.random.shuffle(indices)")]),
    ('shuffle-local', 'ok', [(D, "self.rnd.shuffle(indices)", "rnd = self.rnd\n            rnd.shuffle(indices)")]),
    ('shuffle-perm', 'ok', [(D, "self.rnd.shuffle(indices)", "indices = self.rnd.permutation(indices)")]),
    ('shuffle-fresh', 'ok', [(D, "self.rnd.shuffle(indices)", "self.rnd.create_random_state().shuffle(indices)")]),
    ('shuffle-npstate', 'bad', [(D, "self.rnd.shuffle(indices)", "np.random.RandomState().shuffle(indices)")]),
    ('shuffle-npseeded', 'ok', [(D, "self.rnd.shuffle(indices)", "np.random.RandomState(self.rnd.generate_seed()).shuffle(indices)")]),
    ('shuffle-stdlib', 'bad', [(D, "import math\n", "import math\nimport random\n"), (D, "self.rnd.shuffle(indices)", "random.shuffle(indices)")]),
    ('shuffle-from', 'bad', [(D, "import math\n", "import math\nfrom random import shuffle as mix\n"), (D, "self.rnd.shuffle(indices)", "mix(indices)")]),
    ('shuffle-localimport', 'bad', [(D, "self.rnd.shuffle(indices)", "import random\n            random.shuffle(indices)")]),
    ('shuffle-time', 'bad', [(D, "import math\n", "import math\nimport time\n"), (D, "self.rnd.shuffle(indices)", "self.rnd.set_seed(int(time.time()))\n            self.rnd.shuffle(indices)")]),
    ('shuffle-id', 'bad', [(D, "self.rnd.shuffle(indices)", "self.rnd.set_seed(id(self) % 1000)\n            self.rnd.shuffle(indices)")]),
    ('noise-set', 'bad', [(D, NOISE, "for key in set(self.std_dict):\n                std = self.std_dict[key]")]),
    ('noise-sorted', 'ok', [(D, NOISE, "for key, std in sorted(self.std_dict.items()):")]),
    ('noise-keys-set', 'bad', [(D, "self.std_dict = std_dict\n", "self.std_dict = {k: std_dict[k] for k in std_keys}\n")]),
    ('handler-np', 'bad', [(H, "std * self.rnd.standard_normal(out.shape)", "std * np.random.standard_normal(out.shape)")]),
    ('handler-own', 'bad', [(H, "self.rnd = global_rnd if seed is None else RandomState(seed)", "self.rnd = RandomState(seed)")]),
    ('handler-if', 'ok', [(H, "self.rnd = global_rnd if seed is None else RandomState(seed)", "if seed is None:\n            self.rnd = global_rnd\n        else:\n            self.rnd = RandomState(seed)")]),
    ('handler-ignored', 'bad', [(H, "self.rnd = global_rnd if seed is None else RandomState(seed)", "self.rnd = global_rnd")]),
    ('handler-truth', 'bad', [(H, "global_rnd if seed is None else RandomState(seed)", "RandomState(seed) if seed else global_rnd")]),
    ('eval-fallback', 'bad', [(I, "evaluate_initializer(fallback, shape, seed=seed)", "evaluate_initializer(fallback, shape)")]),
    ('eval-fallback-pos', 'ok', [(I, "evaluate_initializer(fallback, shape, seed=seed)", "evaluate_initializer(fallback, shape, None, seed)")]),
    ('eval-noseed', 'bad', [(I, SETSEED, "")]),
    ('eval-truth', 'bad', [(I, SETSEED, "        if seed:\n            initializer.rnd.set_seed(seed)\n")]),
    ('eval-new-rnd', 'ok', [(I, SETSEED, "        if seed is not None:\n            initializer.rnd.seed(seed)\n")]),
    ('eval-late', 'bad', [(I, SETSEED, ""), (I, "            result = initializer(shape)\n", "            result = initializer(shape)\n            if seed is not None:\n                initializer.rnd.set_seed(seed)\n")]),
    ('sparse-noseed', 'bad', [(I, "self.sub_initializer, shape, seed=self.rnd.generate_seed())\n        connection_mask = np.zeros(shape)\n        connection_mask[:self", "self.sub_initializer, shape)\n        connection_mask = np.zeros(shape)\n        connection_mask[:self")]),
    ('sparse-var', 'ok', [(I, "        sub_result = evaluate_initializer(self.sub_initializer, shape, seed=self.rnd.generate_seed())\n        connection_mask = np.zeros(shape)\n        connection_mask[:self", "        sub_seed = self.rnd.generate_seed()\n        sub_result = evaluate_initializer(self.sub_initializer, shape, seed=sub_seed)\n        connection_mask = np.zeros(shape)\n        connection_mask[:self")]),
    ('gauss-np', 'bad', [(I, "return self.rnd.randn(*shape) * self.std + self.mean", "return np.random.randn(*shape) * self.std + self.mean")]),
    ('gauss-normal', 'ok', [(I, "return self.rnd.randn(*shape) * self.std + self.mean", "return self.rnd.normal(self.mean, self.std, size=shape)")]),
    ('init-drop', 'bad', [(N, INITRND, "init_rnd = self.rnd.create_random_state()")]),
    ('init-self', 'bad', [(N, INITRND, "init_rnd = self.rnd")]),
    ('init-or', 'bad', [(N, INITRND, "init_rnd = self.rnd.create_random_state(seed or None)")]),
    ('init-noseed', 'bad', [(N, "fb, seed=init_rnd.generate_seed())", "fb)")]),
    ('init-netseed', 'bad', [(N, "fb, seed=init_rnd.generate_seed())", "fb, seed=self.rnd.generate_seed())")]),
    ('init-rename', 'ok', [(N, INITRND, "random_state = self.rnd.create_random_state(seed)"), (N, "seed=init_rnd.generate_seed()", "seed=random_state.generate_seed()")]),
    ('init-set', 'bad', [(N, "for layer_name, views in sorted(all_parameters.items()):", "for layer_name in set(all_parameters):\n            views = all_parameters[layer_name]")]),
    ('init-dict', 'ok', [(N, "for layer_name, views in sorted(all_parameters.items()):", "for layer_name in sorted(all_parameters):\n            views = all_parameters[layer_name]")]),
    ('shuffle-data-noseed', 'bad', [(T, "rnd = RandomState(kwargs.get('seed', None))", "rnd = RandomState()")]),
    ('shuffle-data-or', 'bad', [(T, "rnd = RandomState(kwargs.get('seed', None))", "seed = kwargs.get('seed', None)\n    rnd = RandomState(seed) if seed else RandomState()")]),
    ('shuffle-data-var', 'ok', [(T, "rnd = RandomState(kwargs.get('seed', None))", "seed = kwargs.get('seed')\n    rnd = RandomState(seed)")]),
    ('layout-sources', 'bad', [(L, "sorted_sources = sorted(source_set)", "sorted_sources = list(source_set)")]),
    ('layout-conns', 'bad', [(L, "    return sorted(connections)", "    return list(set(connections))")]),
    ('arch-order', 'bad', [(A, "layer_order += sorted(new_layers, reverse=True)", "layer_order += list(set(new_layers))")]),
    ('arch-conns', 'ok', [(A, "return sorted(all_connections)", "return all_connections")]),
    ('import-default', 'bad', [(T, "def shuffle_data(*args, **kwargs):\n", "_shuffle_rnd = RandomState()\n\ndef shuffle_data(*args, **kwargs):\n")]),
    ('import-draw', 'bad', [(D, "class Minibatches(DataIterator):\n", "class Minibatches(DataIterator):\n    _salt = global_rnd.generate_seed()\n"), (D, "import math\n", "import math\nfrom brainstorm.randomness import global_rnd\n")]),
    ('import-seedable', 'bad', [(N, "class Network(Seedable):\n", "class Network(Seedable):\n    _source = Seedable()\n")]),
]
