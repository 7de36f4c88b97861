H = 'handlers/debug_handler.py'
M = 'value_modifiers.py'
CASES = [
    ('too-strict', 'bad', [(H, "assert v.shape in [(m.shape[0], 1), (1, m.shape[1]), m.shape]", "assert v.shape in [(m.shape[0], 1), m.shape]")]),
    ('dot-trans', 'bad', [(H, "assert out.shape == (a1, b2)", "assert out.shape == (a.shape[0], b2)")]),
    ('arith', 'bad', [(M, "handler.mult_tt(mat, mat, out=squares)", "squares = mat * mat")]),
    ('tuple', 'ok', [(H, "assert v.shape in [(m.shape[0], 1), (1, m.shape[1]), m.shape]", "assert v.shape == m.shape or v.shape == (m.shape[0], 1) or v.shape == (1, m.shape[1])")]),
]
