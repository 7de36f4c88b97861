H = 'handlers/debug_handler.py'
CASES = [
    ('shape-arg', 'bad', [(H, "def add_tt(self, a, b, out):\n        assert_debug_arrays(a, b, out)\n        assert_shapes_equal(a, b, out)", "def add_tt(self, a, b, out):\n        assert_debug_arrays(a, b, out)\n        assert_shapes_equal(a, out)")]),
    ('last-only', 'bad', [(H, "assert shape == ref_shape, 'Shape mismatch", "assert shape[-1] == ref_shape[-1], 'Shape mismatch")]),
    ('finite-args', 'bad', [(H, "for i, arg in enumerate(args, start=1):", "for i, arg in enumerate(args[2:], start=1):")]),
    ('helper', 'ok', [(H, "def assert_is_scalar(s):\n    assert isinstance(s, (int, float))", "def assert_is_scalar(s):\n    if not isinstance(s, (int, float)):\n        raise AssertionError('no scalar')\n    assert isinstance(s, (int, float))")]),
    ('zip', 'ok', [(H, "for i, arg in enumerate(args, start=1):\n            _check_for_inf(handler, arg, '{}.'.format(i))", "i = 0\n        for arg in args:\n            i += 1\n            _check_for_inf(handler, arg, '{}.'.format(i))")]),
    ('raise', 'ok', [(H, "assert isinstance(arr, DebugArray), '{}. is no DebugArray but a {}'.format(i, type(arr))", "if not isinstance(arr, DebugArray):\n            raise TypeError('{}. is no DebugArray but a {}'.format(i, type(arr)))")]),
]
