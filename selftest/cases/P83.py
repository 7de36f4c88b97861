T = 'tools.py'
CASES = [
    ('floor', 'bad', [(T, "np.round(np.cumsum(normalized_ratios) * N)", "np.floor(np.cumsum(normalized_ratios) * N)")]),
    ('sizes', 'bad', [(T, "split_idxs = np.round(np.cumsum(normalized_ratios) * N).astype(np.int)", "split_idxs = np.cumsum(np.round(normalized_ratios * N).astype(np.int))")]),
    ('gap', 'bad', [(T, "A[:, start:stop]", "A[:, start:stop - 1]")]),
    ('axis', 'bad', [(T, "A[:, start:stop]", "A[start:stop]")]),
    ('first', 'bad', [(T, "np.hstack([[0], split_idxs])", "np.hstack([[1], split_idxs])")]),
    ('none', 'bad', [(T, "None if A is None else A[:, start:stop] for A in args", "A[:, start:stop] for A in args if A is not None")]),
    ('default', 'bad', [(T, "kwargs.get('ratios', (9, 1))", "kwargs.get('ratios', (8, 2))")]),
    ('each', 'bad', [(T, "    rnd.shuffle(idxs)\n    return [None if A is None else A[:, idxs] for A in args]", "    result = []\n    for A in args:\n        rnd.shuffle(idxs)\n        result.append(None if A is None else A[:, idxs])\n    return result")]),
    ('inplace', 'bad', [(T, "    return [None if A is None else A[:, idxs] for A in args]", "    for A in args:\n        if A is not None:\n            A[:] = A[:, idxs]\n    return list(args)")]),
    ('time', 'bad', [(T, "A[:, idxs] for A in args", "A[idxs] for A in args")]),
    ('range', 'bad', [(T, "np.arange(args[0].shape[1])", "np.arange(args[0].shape[1] - 1)")]),
    ('ok-loop', 'ok', [(T, "    all_splits = []\n    for start, stop in zip(split_idxs[:-1], split_idxs[1:]):\n", "    all_splits = []\n    for i in range(len(split_idxs) - 1):\n        start, stop = split_idxs[i], split_idxs[i + 1]\n")]),
    ('ok-perm', 'ok', [(T, "    idxs = np.arange(args[0].shape[1])\n    rnd.shuffle(idxs)\n", "    idxs = rnd.permutation(args[0].shape[1])\n")]),
    ('ok-part', 'ok', [(T, "        all_splits.append([None if A is None else A[:, start:stop] for A in args])\n", "        part = []\n        for A in args:\n            if A is None:\n                part.append(None)\n            else:\n                part.append(A[:, start:stop])\n        all_splits.append(part)\n")]),
]
