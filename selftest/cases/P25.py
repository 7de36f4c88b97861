A = 'structure/architecture.py'
N = 'structure/network.py'
U = 'utils.py'
L = 'layers/base_layer.py'
S = 'structure/buffer_structure.py'
I = 'layers/input_layer.py'
CASES = [
    ('no-validate', 'bad', [(A, "    validate_architecture(architecture)\n    layers", "    layers")]),
    ('late-validate', 'bad', [(A, "    validate_architecture(architecture)\n    layers = OrderedDict()\n    connections = collect_all_connections(architecture)\n", "    layers = OrderedDict()\n    connections = collect_all_connections(architecture)\n    validate_architecture(architecture)\n")]),
    ('no-type', 'bad', [(A, "        if '@type' not in layer:\n            raise NetworkValidationError('Missing @type for \"{}\"'.format(name))\n", "        if '@type' not in layer:\n            continue\n")]),
    ('str-conns', 'bad', [(A, "(list, tuple, dict))", "(list, tuple, dict, str))")]),
    ('no-name', 'bad', [(A, "        if not is_valid_layer_name(name):", "        if not name:")]),
    ('first-name', 'bad', [(A, "            raise NetworkValidationError(\"Invalid layer name: '{}'\".format(name))", "            raise NetworkValidationError(\"Invalid layer name: '{}'\".format(name))\n        break")]),
    ('undef', 'bad', [(A, "undefined_end_layers = end_layers.difference(architecture)", "undefined_end_layers = set(architecture).difference(end_layers) if not end_layers else set()")]),
    ('input-type', 'bad', [(A, "if 'Input' not in architecture or architecture['Input']['@type'] != 'Input':", "if 'Input' not in architecture:")]),
    ('to-input', 'bad', [(A, "    if 'Input' in end_layers:\n        raise NetworkValidationError('Input can not have incoming connections!')\n", "")]),
    ('cycle', 'bad', [(A, "    assert not remaining_layers, \"couldn't reach %s\" % remaining_layers\n", "")]),
    ('regex-search', 'bad', [(U, "PYTHON_IDENTIFIER.match(identifier)", "PYTHON_IDENTIFIER.search(identifier)")]),
    ('regex-dollar', 'bad', [(U, "*\\\\Z'", "*$'")]),
    ('blacklist', 'bad', [(U, "'fallback', ", "")]),
    ('fuzzy-class', 'bad', [(L, "if typename == layer_class.__name__:", "if typename in layer_class.__name__:")]),
    ('kwargs-sub', 'bad', [(L, "set(self.kwargs) - set(self.expected_kwargs)", "set(self.expected_kwargs) - set(self.kwargs)")]),
    ('no-missing', 'bad', [(L, "if not input_names.issubset(in_shape_names):", "if not in_shape_names:")]),
    ('match-one', 'bad', [(L, "            if not self.expected_inputs[input_name].matches(in_shape):", "            if input_name == 'default' and (not self.expected_inputs[input_name].matches(in_shape)):")]),
    ('conn-in', 'bad', [(L, "if in_c.input_name not in self.in_shapes:", "if in_c.input_name not in self.expected_inputs:")]),
    ('conn-return', 'bad', [(L, "                    if substruct not in parameters:", "                    if substruct in parameters:\n                        return\n                    else:")]),
    ('conn-cat', 'bad', [(L, "{'parameters', 'internals'}:", "{'parameters', 'internals', 'gradients', 'inputs'}:")]),
    ('conn-out', 'bad', [(L, "            elif out_c.output_name not in self.out_shapes:", "            elif not self.out_shapes:")]),
    ('order-checks', 'bad', [(L, "        self._validate_kwargs()\n        self._validate_in_shapes()\n        out,", "        self._validate_in_shapes()\n        out,")]),
    ('conns-before', 'bad', [(L, "        self._validate_connections()\n\n    def setup", "\n    def setup")]),
    ('fixed', 'bad', [(S, "if not all([s.feature_shape[:-1]", "if not any([s.feature_shape[:-1]")]),
    ('sum', 'bad', [(S, "summed_shape = sum((", "summed_shape = max((")]),
    ('t-b', 'bad', [(S, "if self.scales_with_time and self.shape[:2] != ('T', 'B'):", "if self.scales_with_time and self.shape[:1] != ('T',):")]),
    ('neg-ctx', 'bad', [(S, "if not isinstance(self.context_size, int) or self.context_size < 0:\n            raise StructureValidationError('context_size has to be a non-negative integer, but was {}'.format(self.context_size))\n        if self.context_size and (not", "if not isinstance(self.context_size, int):\n            raise StructureValidationError('context_size has to be a non-negative integer, but was {}'.format(self.context_size))\n        if self.context_size and (not")]),
    ('no-feature', 'bad', [(S, "if len(self.shape) <= self.first_feature_dim:", "if len(self.shape) < self.first_feature_dim:")]),
    ('matches-len', 'bad', [(S, "        if '...' not in self.shape and shape.nr_dims != len(self.shape):\n            return False\n", "")]),
    ('matches-F', 'bad', [(S, "if t == 'F' and isinstance(s, int):", "if t == 'F':")]),
    ('input-check', 'ok', [(I, "        super(InputLayerImpl, self)._validate_connections()\n", "        super(InputLayerImpl, self)._validate_connections()\n        pass\n")]),
    # refactorings
    ('r-any', 'ok', [(L, "        unexpected_kwargs = set(self.kwargs) - set(self.expected_kwargs)\n        if unexpected_kwargs:", "        unexpected_kwargs = {k for k in self.kwargs if k not in self.expected_kwargs}\n        if len(unexpected_kwargs) > 0:")]),
    ('r-sets', 'ok', [(L, "        if not in_shape_names.issubset(input_names):", "        if in_shape_names - input_names:"), (L, "if not input_names.issubset(in_shape_names):", "if not input_names <= in_shape_names:")]),
    ('r-names', 'ok', [(A, "    for name in architecture:\n        if not is_valid_layer_name(name):\n            raise NetworkValidationError(\"Invalid layer name: '{}'\".format(name))\n", "    invalid = [name for name in architecture if not is_valid_layer_name(name)]\n    if invalid:\n        raise NetworkValidationError(\"Invalid layer name: '{}'\".format(invalid[0]))\n")]),
    ('r-undef', 'ok', [(A, "    undefined_end_layers = end_layers.difference(architecture)\n    if undefined_end_layers:", "    undefined_end_layers = {l for l in end_layers if l not in architecture}\n    if len(undefined_end_layers) != 0:")]),
    ('r-input', 'ok', [(A, "if 'Input' not in architecture or architecture['Input']['@type'] != 'Input':", "if architecture.get('Input', {}).get('@type') != 'Input':")]),
    ('r-cycle', 'ok', [(A, "    assert not remaining_layers, \"couldn't reach %s\" % remaining_layers\n", "    if remaining_layers:\n        raise AssertionError(\"couldn't reach %s\" % remaining_layers)\n")]),
    ('r-cycle2', 'ok', [(A, "    remaining_layers = set(architecture.keys()) - already_ordered_layers\n    assert not remaining_layers, \"couldn't reach %s\" % remaining_layers\n", "    assert len(layer_order) == len(architecture), 'cycle'\n")]),
    ('r-regex', 'ok', [(U, "    return PYTHON_IDENTIFIER.match(identifier) is not None", "    return bool(PYTHON_IDENTIFIER.match(identifier))")]),
    ('r-name1', 'ok', [(U, "    if identifier in NAME_BLACKLIST:\n        return False\n    return PYTHON_IDENTIFIER.match(identifier) is not None", "    return identifier not in NAME_BLACKLIST and PYTHON_IDENTIFIER.match(identifier) is not None")]),
    ('r-class', 'ok', [(L, "    layer_classes = get_inheritors(Layer)\n    for layer_class in layer_classes:\n        if typename == layer_class.__name__:\n            return layer_class\n    else:\n        raise TypeError(\"Layer-type '{}' unknown!\".format(typename))", "    layer_classes = {c.__name__: c for c in get_inheritors(Layer)}\n    if typename not in layer_classes:\n        raise TypeError(\"Layer-type '{}' unknown!\".format(typename))\n    return layer_classes[typename]")]),
    ('r-helper', 'ok', [(L, "        self._validate_kwargs()\n        self._validate_in_shapes()\n", "        self._check()\n"), (L, "    def set_handler(self", "    def _check(self):\n        self._validate_kwargs()\n        self._validate_in_shapes()\n\n    def set_handler(self")]),
    ('r-conn', 'ok', [(L, "                if category == 'parameters':\n                    parameters = self.parameter_shapes\n                    if substruct not in parameters:", "                if category == 'parameters':\n                    parameters = self.parameter_shapes\n                    if not substruct in parameters.keys():")]),
    ('r-dims', 'ok', [(S, "    if min(dimensions) != max(dimensions):", "    if len(set(dimensions)) > 1:"), (S, "if min(shape_types) != max(shape_types):", "if any([t != shape_types[0] for t in shape_types]):")]),
    ('r-sum', 'ok', [(S, "    summed_shape = sum((s.feature_shape[-1] for s in shapes))", "    summed_shape = 0\n    for s in shapes:\n        summed_shape += s.feature_shape[-1]")]),
    ('r-match', 'ok', [(S, "            if t == s:\n                continue\n            if t == 'F' and isinstance(s, int):\n                continue\n            if t == '...':\n                continue\n            if t != s:\n                return False\n        return True", "            fits = t == s or (t == 'F' and isinstance(s, int)) or t == '...'\n            if not fits:\n                return False\n        return True")]),
    ('r-match2', 'ok', [(S, "        for s, t in zip(shape.shape, self.shape):\n            if t == s:\n                continue\n            if t == 'F' and isinstance(s, int):\n                continue\n            if t == '...':\n                continue\n            if t != s:\n                return False\n        return True", "        return all((t == s or (t == 'F' and isinstance(s, int)) or t == '...' for s, t in zip(shape.shape, self.shape)))")]),
    ('r-net', 'ok', [(N, "        layers = instantiate_layers_from_architecture(architecture)\n        hubs, layout = create_layout(layers)\n        buffer_manager = BufferManager(layout, hubs)\n        return cls(layers, buffer_manager, architecture)", "        layers = instantiate_layers_from_architecture(architecture)\n        return cls._build(layers, architecture)\n\n    @classmethod\n    def _build(cls, layers, architecture):\n        hubs, layout = create_layout(layers)\n        return cls(layers, BufferManager(layout, hubs), architecture)")]),
    ('g-end', 'bad', [('structure/architecture.py', "end_layers.difference(architecture)", "end_layers.difference(list(architecture) + ['Output'])")]),
    ('g-mask', 'bad', [('layers/mask_layer.py', "elif in_shapes['mask'].feature_shape in [expected_shape, in_shape]:", "elif len(in_shapes['mask'].feature_shape) == len(in_shape):")]),
    ('g-soft', 'bad', [('layers/softmax_ce_layer.py', "        if tar_shape[:-1] != in_shape[:-1]:", "        if len(in_shape) > 1 and tar_shape[0] != in_shape[0]:")]),
    ('g-conv', 'bad', [('layers/convolution_layer_2d.py', "assert output_height > 0 and output_width > 0,", "assert output_height > 0 or output_width > 0,")]),
    ('g-ok-mask', 'ok', [('layers/mask_layer.py', "elif in_shapes['mask'].feature_shape in [expected_shape, in_shape]:", "elif in_shapes['mask'].feature_shape == expected_shape or in_shapes['mask'].feature_shape == in_shape:")]),
    ('g-ok-arch', 'ok', [('structure/architecture.py', "    end_layers = {c.end_layer for c in connections}\n", "    end_layers = set()\n    for c in connections:\n        end_layers.add(c.end_layer)\n")]),
]
