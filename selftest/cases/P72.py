D = 'data_iterators.py'
CASES = [
    ('noise-inplace', 'bad', [(D, 'data[key] = data[key] + std * self.rnd.standard_normal(data[key].shape) + mean', 'data[key] += std * self.rnd.standard_normal(data[key].shape) + mean')]),
    ('salt-inplace', 'bad', [(D, 'd = data[key].copy()', 'd = data[key]')]),
    ('salt-view', 'bad', [(D, 'd = data[key].copy()', 'd = data[key].reshape(data[key].shape)')]),
    ('flip-inplace', 'bad', [(D, '                data[name] = data[name].copy()\n', '')]),
    ('flip-once', 'bad', [(D, '                data[name] = data[name].copy()\n', '                data[name] = np.asarray(data[name])\n')]),
    ('undiv-own', 'bad', [(D, 'yield dict(self.data)', 'yield self.data')]),
    ('shapes', 'bad', [(D, """        self.data_shapes = dict(iter.data_shapes)
        for key, vocab_size in vocab_size_dict.items():
            self.data_shapes[key] = iter.data_shapes[key][:2] + (vocab_size,)
        self.vocab_size_dict = vocab_size_dict
        self.iter = iter

    def __call__(self, handler=None):
        for data in self.iter(handler):
            for name in self.vocab_size_dict.keys():
                vocab_size = self.vocab_size_dict[name]
                new_data = np.eye(vocab_size, dtype=np.bool)[data[name]].max(2)
""", """        for key, vocab_size in vocab_size_dict.items():
            self.data_shapes[key] = iter.data_shapes[key][:2] + (vocab_size,)
        self.vocab_size_dict = vocab_size_dict
        self.iter = iter

    def __call__(self, handler=None):
        for data in self.iter(handler):
            for name in self.vocab_size_dict.keys():
                vocab_size = self.vocab_size_dict[name]
                new_data = np.eye(vocab_size, dtype=np.bool)[data[name]].max(2)
""")]),
    ('pad-zero', 'bad', [(D, """                new_data = val * np.ones((t, b, h + 2 * size, w + 2 * size, c))
""", """                if size == 0:
                    data[name][...] = 0.0
                    continue
                new_data = val * np.ones((t, b, h + 2 * size, w + 2 * size, c))
""")]),
    ('ok-noise', 'ok', [(D, 'data[key] = data[key] + std * self.rnd.standard_normal(data[key].shape) + mean', """noise = self.rnd.standard_normal(data[key].shape)
                noise *= std
                noise += mean
                noise += data[key]
                data[key] = noise""")]),
    ('ok-noise2', 'ok', [(D, """                data[key] = data[key] + std * self.rnd.standard_normal(data[key].shape) + mean
""", """                old = data[key]
                new = old.copy()
                new += self.rnd.normal(mean, std, old.shape)
                data[key] = new
""")]),
    ('ok-salt', 'ok', [(D, 'd = data[key].copy()', 'd = np.array(data[key])')]),
    ('ok-flip', 'ok', [(D, """                data[name] = data[name].copy()
                for i in range(data[name].shape[1]):
                    if self.rnd.random_sample() < self.prob_dict[name]:
                        data[name][:, i, ...] = data[name][:, i, :, ::-1, :]
""", """                src = data[name]
                out = np.empty_like(src)
                for i in range(src.shape[1]):
                    do_flip = self.rnd.random_sample() < self.prob_dict[name]
                    out[:, i] = src[:, i, :, ::-1] if do_flip else src[:, i]
                data[name] = out
""")]),
    ('ok-newdict', 'ok', [(D, """        for data in self.iter(handler):
            for name in self.size_dict.keys():""", """        for batch in self.iter(handler):
            data = dict(batch)
            for name in self.size_dict.keys():""")]),
]
