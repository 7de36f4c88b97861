D = 'data_iterators.py'
CASES = [
    ('noise-same', 'bad', [(D, 'self.rnd.standard_normal(data[key].shape)', 'self.rnd.standard_normal(data[key].shape[2:])')]),
    ('noise-mean', 'bad', [(D, 'self.rnd.standard_normal(data[key].shape) + mean', 'self.rnd.standard_normal(data[key].shape)')]),
    ('noise-std', 'bad', [(D, 'std * self.rnd', 'std ** 2 * self.rnd')]),
    ('noise-prec', 'bad', [(D, 'data[key] + std * self.rnd.standard_normal(data[key].shape) + mean', 'data[key] + std * (self.rnd.standard_normal(data[key].shape) + mean)')]),
    ('salt-swap', 'bad', [(D, 'd[r >= 1.0 - pr * ratio] = 1.0', 'd[r >= 1.0 - pr * (1.0 - ratio)] = 1.0')]),
    ('pepper', 'bad', [(D, 'd[r <= pr * (1.0 - ratio)] = 0.0', 'd[r <= pr * ratio] = 0.0')]),
    ('salt-ratio', 'bad', [(D, 'ratio = self.ratio_dict.get(key, 0.5)', 'ratio = 0.5')]),
    ('flip-axis', 'bad', [(D, 'data[name][:, i, :, ::-1, :]', 'data[name][:, i, ::-1, :, :]')]),
    ('flip-first', 'bad', [(D, 'data[name][:, i, ...] = data[name][:, i, :, ::-1, :]', 'data[name][0, i, ...] = data[name][0, i, :, ::-1, :]')]),
    ('flip-prob', 'bad', [(D, 'self.rnd.random_sample() < self.prob_dict[name]', 'self.rnd.random_sample() > self.prob_dict[name]')]),
    ('flip-all', 'bad', [(D, 'data[name][:, i, ...] = data[name][:, i, :, ::-1, :]', 'data[name][:, i:, ...] = data[name][:, i:, :, ::-1, :]')]),
    ('crop-swap', 'bad', [(D, 'row_indices = self.rnd.random_integers(0, max_r, n)\n                col_indices = self.rnd.random_integers(0, max_c, n)', 'row_indices = self.rnd.random_integers(0, max_c, n)\n                col_indices = self.rnd.random_integers(0, max_r, n)')]),
    ('crop-excl', 'bad', [(D, 'row_indices = self.rnd.random_integers(0, max_r, n)', 'row_indices = self.rnd.randint(0, max(max_r, 1), n)')]),
    ('crop-noncontig', 'bad', [(D, 'images = np.ascontiguousarray(data[name])', 'images = data[name]')]),
    ('crop-type', 'bad', [(D, 'cropped = np.zeros((t, n, crop_h, crop_w, c), images.dtype)', 'cropped = np.zeros((t, n, crop_h, crop_w, c))')]),
    ('pad-val', 'bad', [(D, 'new_data = val * np.ones((t, b, h + 2 * size, w + 2 * size, c))', 'new_data = np.zeros((t, b, h + 2 * size, w + 2 * size, c))')]),
    ('pad-off', 'bad', [(D, 'new_data[:, :, size:size + h, size:size + w, :] = data[name]', 'new_data[:, :, :h, :w, :] = data[name]')]),
    ('multi-sum', 'bad', [(D, '[data[name]].max(2)', '[data[name]].sum(2)')]),
    ('multi-first', 'bad', [(D, '[data[name]].max(2)', '[data[name][:, :, 0]]')]),
    ('ok-salt', 'ok', [(D, """                d[r >= 1.0 - pr * ratio] = 1.0
                d[r <= pr * (1.0 - ratio)] = 0.0
                data[key] = d
""", """                salt = r < pr * ratio
                pepper = (r >= pr * ratio) & (r < pr)
                d[salt] = 1.0
                d[pepper] = 0.0
                data[key] = d
""")]),
    ('ok-salt-where', 'ok', [(D, """                d[r >= 1.0 - pr * ratio] = 1.0
                d[r <= pr * (1.0 - ratio)] = 0.0
                data[key] = d
""", """                d = np.where(r >= 1.0 - pr * ratio, 1.0, d)
                data[key] = np.where(r <= pr - pr * ratio, 0.0, d)
""")]),
    ('ok-flip-vec', 'ok', [(D, """                for i in range(data[name].shape[1]):
                    if self.rnd.random_sample() < self.prob_dict[name]:
                        data[name][:, i, ...] = data[name][:, i, :, ::-1, :]
""", """                flips = self.rnd.random_sample(data[name].shape[1]) < self.prob_dict[name]
                for i in np.flatnonzero(flips):
                    data[name][:, i] = data[name][:, i, :, ::-1].copy()
""")]),
    ('ok-onehot', 'ok', [(D, """                new_data = np.eye(vocab_size, dtype=np.bool)[data[name]]
                new_data = new_data.reshape((new_data.shape[0], new_data.shape[1], new_data.shape[3]))
                data[name] = new_data
""", """                data[name] = np.eye(vocab_size, dtype=bool)[data[name][:, :, 0]]
""")]),
    ('ok-pad', 'ok', [(D, """                new_data = val * np.ones((t, b, h + 2 * size, w + 2 * size, c))
                new_data[:, :, size:size + h, size:size + w, :] = data[name]
                data[name] = new_data
""", """                data[name] = np.pad(data[name], ((0, 0), (0, 0), (size, size), (size, size), (0, 0)), 'constant', constant_values=val)
""")]),
    ('ok-pad2', 'ok', [(D, """                new_data = val * np.ones((t, b, h + 2 * size, w + 2 * size, c))
""", """                new_data = np.empty((t, b, h + 2 * size, w + 2 * size, c))
                new_data.fill(val)
""")]),
    ('ok-crop', 'ok', [(D, 'row_indices = self.rnd.random_integers(0, max_r, n)', 'row_indices = self.rnd.randint(0, max_r + 1, size=n)')]),
    ('ok-crop-py', 'ok', [(D, '                _crop_images(images, crop_h, crop_w, row_indices, col_indices, cropped)\n', """                for j in range(n):
                    r, q = row_indices[j], col_indices[j]
                    cropped[:, j] = images[:, j, r:r + crop_h, q:q + crop_w]
""")]),
]
