C, M, K, X, B, A = ('layers/convolution_layer_2d.py', 'layers/merge_layer.py',
                    'layers/clockwork_layer.py', 'layers/softmax_ce_layer.py',
                    'structure/buffer_structure.py', 'structure/architecture.py')
P, F = 'layers/pooling_layer_2d.py', 'layers/fully_connected_layer.py'
CASES = [
    ('stride', 'bad', [(C, "padding - kernel_y) // stride[1] + 1", "padding - kernel_y) // stride[0] + 1")]),
    ('kernel', 'bad', [(C, "BufferStructure(num_filters, kernel_x, kernel_y,", "BufferStructure(num_filters, kernel_y, kernel_x,")]),
    ('merge', 'bad', [(M, "out_shape = shape_prefix1 + (combined_size,)", "out_shape = ('T', 'B', combined_size)")]),
    ('clock', 'bad', [(K, "kwargs.get('size', in_shapes['default'].feature_size)", "kwargs.get('size', in_shapes['default'].feature_shape[-1])")]),
    ('soft', 'bad', [(X, "outputs['loss'] = BufferStructure('T', 'B', *tar_shape)", "outputs['loss'] = BufferStructure('T', 'B', 1)")]),
    ('join', 'bad', [(B, "fixed_feature_shape = some_shape.feature_shape[:-1]", "fixed_feature_shape = some_shape.feature_shape[1:]")]),
    ('pool', 'bad', [(P, "2 * padding - kernel_size[0]", "padding - kernel_size[0]")]),
    ('fc', 'bad', [(F, "(self.size,) if isinstance(self.size, int) else self.size", "(self.size, 1) if isinstance(self.size, int) else self.size")]),
    ('ok-math', 'ok', [(P, "2 * padding - kernel_size[0]", "padding + padding - kernel_size[0]")]),
    ('ok-merge', 'ok', [(M, "    shape_prefix1 = in_shapes['inputs_1'].shape[:-1]\n", "    one, two = (in_shapes[k] for k in ('inputs_1', 'inputs_2'))\n    shape_prefix1 = one.shape[:-1]\n")] if False else [(M, "out_shape = shape_prefix1 + (combined_size,)", "out_shape = tuple(list(shape_prefix1) + [combined_size])")]),
    ('ok-join', 'ok', [(B, "    summed_shape = sum((s.feature_shape[-1] for s in shapes))", "    summed_shape = 0\n    for s in shapes:\n        summed_shape += s.feature_shape[-1]")]),
    ('ok-fc', 'ok', [(F, "        self.size = (self.size,) if isinstance(self.size, int) else self.size\n", "        if isinstance(self.size, int):\n            self.size = (self.size,)\n")]),
    ('ok-inst', 'ok', [(A, "        input_names = {c.input_name for c in incoming}\n        in_shapes = {}\n        for input_name in input_names:\n", "        in_shapes = {}\n        for input_name in sorted(set(c.input_name for c in incoming)):\n")]),
]
