M = 'value_modifiers.py'
CASES = [
    ('norm-bias', 'bad', [(M, "        if len(view.shape) < 2:\n            return\n", "")]),
    ('norm-ndim', 'ok', [(M, "if len(view.shape) < 2:", "if view.ndim < 2:")]),
    ('norm-loop', 'ok', [(M, "handler.divide_mv(mat, divisor, mat)", "handler.divide_mv(mat, divisor, out=mat)")]),
    ('freeze-last', 'bad', [(M, "if self.weights is None:", "if self.device_weights is None:")]),
]
