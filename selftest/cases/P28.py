T = 'tools.py'
CASES = [
    ('act', 'bad', [(T, "'t': 'tanh'", "'t': 'sigmoid'")]),
    ('rel-default', 'bad', [(T, "activation = 'rel'", "activation = 'tanh'")]),
    ('kernel', 'bad', [(T, "num_filters, kernel = args[:2]", "kernel, num_filters = args[:2]")]),
    ('stride-pad', 'bad', [(T, "stride = args[1]\n            args = args[2:]\n    return layers.Pooling2D", "padding = args[1]\n            args = args[2:]\n    return layers.Pooling2D")]),
    ('drop', 'bad', [(T, "return layers.Dropout(drop_prob=args[0])", "return layers.Dropout(drop_prob=1 - args[0])")]),
    ('avg', 'bad', [(T, "'a': 'avg'", "'a': 'max'")]),
    ('stride-one', 'bad', [(T, "stride=(stride, stride), padding=padding, activation=activation", "stride=(stride, 1), padding=padding, activation=activation")]),
    ('targets', 'bad', [(T, "t_shape = out_shape[:-1] + (1,)", "t_shape = out_shape")]),
    ('mask-loss', 'bad', [(T, "out_layer - 'loss' >> mask_layer >> layers.Loss()", "out_layer - 'loss' >> layers.Loss()\n        out_layer - 'predictions' >> mask_layer")]),
    ('lin', 'bad', [(T, "layers.FullyConnected(out_shape, activation='linear', name=projection_name)", "layers.FullyConnected(out_shape, name=projection_name)")]),
    ('data-name', 'bad', [(T, "out_shapes={data_name: ('T', 'B') + in_shape, targets_name: ('T', 'B') + t_shape, mask_name", "out_shapes={'default': ('T', 'B') + in_shape, targets_name: ('T', 'B') + t_shape, mask_name")]),
    ('conv', 'bad', [(T, "elif len(out_shape) == 3 or use_conv is True:", "elif use_conv is True:")]),
    ('init', 'bad', [(T, "name: initializers.DenseSqrtFanInOut(l.activation)", "name: initializers.DenseSqrtFanInOut('linear')")]),
    ('trynumber', 'bad', [(T, "        return int(a)\n", "        return int(float(a))\n")]),
    ('task', 'bad', [(T, "raise ValueError('Unknown task type {}'.format(task_type))", "out_layer = layers.SquaredError(name=outlayer_name)")]),
    ('ok-elif', 'ok', [(T, "    while args:\n        assert args[0] in 'ps', '{}'.format(args)\n        if args[0] == 'p':\n            padding = args[1]\n            args = args[2:]\n        elif args[0] == 's':\n            stride = args[1]\n            args = args[2:]\n    return layers.Pool", "    while args:\n        option, value = args[:2]\n        assert option in 'ps', '{}'.format(args)\n        if option == 'p':\n            padding = value\n        else:\n            stride = value\n        args = args[2:]\n    return layers.Pool")]),
    ('ok-helper', 'ok', [(T, "def F(args):\n    if args and args[0] in act_funcs:\n        activation = act_funcs[args[0]]\n        args = args[1:]\n    else:\n        activation = 'rel'\n", "def _activation(args, default):\n    if args and args[0] in act_funcs:\n        return act_funcs[args[0]], args[1:]\n    return default, args\n\ndef F(args):\n    activation, args = _activation(args, 'rel')\n")]),
    ('ok-loop', 'ok', [(T, "        args = [trynumber(a) for a in args if a != '']\n        current_layer >>= create_layer(layer_type, args)", "        values = []\n        for a in args:\n            if a == '':\n                continue\n            values.append(trynumber(a))\n        current_layer = current_layer >> create_layer(layer_type, values)")]),
    ('ok-table', 'ok', [(T, "    if task_type == 'classification':\n        out_layer = layers.SoftmaxCE(name=outlayer_name)\n    elif task_type == 'multi-label':\n        out_layer = layers.SigmoidCE(name=outlayer_name)\n    elif task_type == 'regression':\n        out_layer = layers.SquaredError(name=outlayer_name)\n    else:\n        raise", "    losses = {'classification': layers.SoftmaxCE, 'multi-label': layers.SigmoidCE, 'regression': layers.SquaredError}\n    if task_type in losses:\n        out_layer = losses[task_type](name=outlayer_name)\n    else:\n        raise")]),
]
