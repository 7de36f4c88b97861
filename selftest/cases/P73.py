D = 'data_iterators.py'
CASES = [
    ('one-hot-shape', 'bad', [(D, """        self.data_shapes = dict(iter.data_shapes)
        for key, vocab_size in vocab_size_dict.items():
            self.data_shapes[key] = iter.data_shapes[key][:2] + (vocab_size,)
        self.vocab_size_dict = vocab_size_dict
        self.iter = iter

    def __call__(self, handler=None):
        for data in self.iter(handler):
            for name in self.vocab_size_dict.keys():
                vocab_size = self.vocab_size_dict[name]
                new_data = np.eye(vocab_size, dtype=np.bool)[data[name]].max(2)
""", """        self.data_shapes = dict(iter.data_shapes)
        for key, vocab_size in vocab_size_dict.items():
            self.data_shapes[key] = iter.data_shapes[key] + (vocab_size,)
        self.vocab_size_dict = vocab_size_dict
        self.iter = iter

    def __call__(self, handler=None):
        for data in self.iter(handler):
            for name in self.vocab_size_dict.keys():
                vocab_size = self.vocab_size_dict[name]
                new_data = np.eye(vocab_size, dtype=np.bool)[data[name]].max(2)
""")]),
    ('pad-shape', 'bad', [(D, 'self.data_shapes[key] = (t, b, h + 2 * size, w + 2 * size, c)', 'self.data_shapes[key] = (t, b, h + size, w + size, c)')]),
    ('crop-shape', 'bad', [(D, 'self.data_shapes[key] = (t, b) + val + (c,)', 'self.data_shapes[key] = (t, b) + val[::-1] + (c,)')]),
    ('crop-valid-h', 'bad', [(D, 'if val[0] > data_shape[2] or val[0] < 0:', 'if val[0] > data_shape[3] or val[0] < 0:')]),
    ('crop-valid-w', 'bad', [(D, "if val[1] > data_shape[3] or val[1] < 0:", 'if val[1] > data_shape[3]:')]),
    ('crop-strict', 'bad', [(D, 'if val[0] > data_shape[2] or val[0] < 0:', 'if val[0] >= data_shape[2] or val[0] < 0:')]),
    ('flip-prob', 'bad', [(D, 'if prob_dict[key] > 1.0 or prob_dict[key] < 0.0:', 'if prob_dict[key] > 1.0 and prob_dict[key] < 0.0:')]),
    ('std-keys', 'bad', [(D, 'if mean_dict is not None and mean_keys != std_keys:', 'if mean_dict is not None and not mean_keys <= std_keys:')]),
    ('ratio-keys', 'bad', [(D, 'if ratio_dict is not None and ratio_keys != prob_keys:', 'if ratio_dict and ratio_keys != prob_keys:')]),
    ('seqs', 'bad', [(D, 'if min(nr_sequences.values()) != max(nr_sequences.values()):', 'if min(nr_sequences.values()) < 1:')]),
    ('steps', 'bad', [(D, 'if min(nr_timesteps.values()) != max(nr_timesteps.values()):', 'if max(nr_timesteps.values()) > 2 * min(nr_timesteps.values()):')]),
    ('overwrite', 'bad', [(D, 'nr_sequences[name] = data.shape[1]', "nr_sequences['x'] = data.shape[1]")]),
    ('dims', 'bad', [(D, 'if len(data.shape) < 3:', 'if len(data.shape) < 2:')]),
    ('lens', 'bad', [(D, '            assert self.seq_lens.shape == (nr_sequences,)\n', '')]),
    ('length', 'bad', [(D, 'super(Minibatches, self).__init__(data_shapes, nr_batches)', 'super(Minibatches, self).__init__(data_shapes, nr_sequences // batch_size + 1)')]),
    ('other-array', 'bad', [(D, """                data[key] = d
            yield data""", """                data[key] = d
                data['targets'] = data['targets'] * 0.0 if 'zzz' in data else np.zeros(data['targets'].shape)
            yield data""")]),
    ('pad-one-side', 'bad', [(D, 'new_data = val * np.ones((t, b, h + 2 * size, w + 2 * size, c))', 'new_data = val * np.ones((t, b, h + 2 * size, w + size, c))'),
                             (D, 'new_data[:, :, size:size + h, size:size + w, :] = data[name]', 'new_data[:, :, size:size + h, :w, :] = data[name]')]),
    ('ok-keys', 'ok', [(D, 'if mean_dict is not None and mean_keys != std_keys:', 'if mean_dict is not None and (mean_keys - std_keys or std_keys - mean_keys):')]),
    ('ok-seqs', 'ok', [(D, 'if min(nr_sequences.values()) != max(nr_sequences.values()):', 'if len(set(nr_sequences.values())) > 1:')]),
    ('ok-seqs2', 'ok', [(D, 'if min(nr_sequences.values()) != max(nr_sequences.values()):', 'counts = list(nr_sequences.values())\n    if any((n != counts[0] for n in counts)):')]),
    ('ok-flip', 'ok', [(D, 'if prob_dict[key] > 1.0 or prob_dict[key] < 0.0:', 'if not 0.0 <= prob_dict[key] <= 1.0:')]),
    ('ok-crop', 'ok', [(D, """            if val[0] > data_shape[2] or val[0] < 0:
                raise IteratorValidationError('Invalid crop height')
            if val[1] > data_shape[3] or val[1] < 0:
                raise IteratorValidationError('Invalid crop width')
""", """            for crop, full, what in zip(val, data_shape[2:4], ('height', 'width')):
                if crop < 0 or full < crop:
                    raise IteratorValidationError('Invalid crop ' + what)
""")]),
    ('ok-helper', 'ok', [(D, """        for key in size_dict.keys():
            if key not in iter.data_shapes:
                raise IteratorValidationError('key {} is not present in iterator. Available keys: {}'.format(key, iter.data_shapes.keys()))
            if len(""", """        for key in size_dict:
            _check_key(key, iter)
            if len("""), (D, 'def _assert_correct_data_format', """def _check_key(key, iter):
    if key not in iter.data_shapes:
        raise IteratorValidationError('key {} is not present in iterator. Available keys: {}'.format(key, iter.data_shapes.keys()))


def _assert_correct_data_format""")]),
    ('ok-shapes', 'ok', [(D, """            t, b, h, w, c = iter.data_shapes[key]
            self.data_shapes[key] = (t, b, h + 2 * size, w + 2 * size, c)
""", """            shape = list(iter.data_shapes[key])
            for axis in (2, 3):
                shape[axis] += 2 * size
            self.data_shapes[key] = tuple(shape)
""")]),
]
