D = 'data_iterators.py'
B = """            batch_slice = slice(idx * self.batch_size, (idx + 1) * self.batch_size)
"""
TS = """            time_slice = slice(None, np.max(self.seq_lens[batch_slice]))
"""
DA = """            data = {k: v[time_slice, batch_slice] for k, v in self.data.items()}
"""
CASES = [
    ('floor', 'bad', [(D, 'nr_batches = int(math.ceil(nr_sequences / batch_size))', 'nr_batches = int(nr_sequences // batch_size)')]),
    ('round', 'bad', [(D, 'nr_batches = int(math.ceil(nr_sequences / batch_size))', 'nr_batches = int(round(nr_sequences / batch_size))')]),
    ('one-more', 'bad', [(D, 'nr_batches = int(math.ceil(nr_sequences / batch_size))', 'nr_batches = int(nr_sequences / batch_size) + 1')]),
    ('overlap', 'bad', [(D, '(idx + 1) * self.batch_size)', '(idx + 1) * self.batch_size + 1)')]),
    ('short', 'bad', [(D, '(idx + 1) * self.batch_size)', '(idx + 1) * self.batch_size - 1)')]),
    ('cut-first', 'bad', [(D, 'np.max(self.seq_lens[batch_slice])', 'self.seq_lens[batch_slice][0]')]),
    ('cut-min', 'bad', [(D, 'np.max(self.seq_lens[batch_slice])', 'np.min(self.seq_lens[batch_slice])')]),
    ('cut-idx', 'bad', [(D, 'np.max(self.seq_lens[batch_slice])', 'np.max(self.seq_lens[indices[idx] * self.batch_size:(indices[idx] + 1) * self.batch_size])')]),
    ('argmax-len', 'bad', [(D, 'lengths = mask.shape[0] - b[::-1].argmax(axis=0)', 'lengths = b.argmin(axis=0)')]),
    ('sum-len', 'bad', [(D, 'lengths = mask.shape[0] - b[::-1].argmax(axis=0)', 'lengths = b.sum(axis=0)')]),
    ('choice', 'bad', [(D, 'self.rnd.shuffle(indices)', 'indices = self.rnd.randint(0, self.length, self.length)')]),
    ('shuffle-cols', 'bad', [(D, DA, """            cols = np.arange(batch_slice.start, min(batch_slice.stop, len(self.seq_lens)))
            data = {}
            for k, v in self.data.items():
                if self.shuffle:
                    self.rnd.shuffle(cols)
                data[k] = v[time_slice][:, cols]
""")]),
    ('shuffled-order', 'bad', [(D, '        if self.shuffle:\n            self.rnd.shuffle(indices)\n', '        self.rnd.shuffle(indices)\n')]),
    ('undiv', 'bad', [(D, '        yield dict(self.data)\n', '        yield dict(self.data)\n        yield dict(self.data)\n')]),
    ('undiv-cut', 'bad', [(D, '        yield dict(self.data)\n', '        yield {k: v[:, :2] for k, v in self.data.items()}\n')]),
    ('second-pass', 'bad', [(D, """        for idx in indices:
            batch_slice""", """        start = getattr(self, '_pos', 0)
        self._pos = 1
        for idx in indices[start:]:
            batch_slice""")]),
    ('ok-start', 'ok', [(D, B, """            start = idx * self.batch_size
            batch_slice = slice(start, start + self.batch_size)
""")]),
    ('ok-perm', 'ok', [(D, """        indices = np.arange(self.length)
        if self.shuffle:
            self.rnd.shuffle(indices)
""", """        if self.shuffle:
            indices = self.rnd.permutation(self.length)
        else:
            indices = range(self.length)
""")]),
    ('ok-samples', 'ok', [(D, B + TS + DA, """            lo = idx * self.batch_size
            hi = min(lo + self.batch_size, len(self.seq_lens))
            t_end = self.seq_lens[lo:hi].max()
            data = {}
            for name in self.data:
                data[name] = self.data[name][:t_end, lo:hi]
""")]),
    ('ok-ceil', 'ok', [(D, 'nr_batches = int(math.ceil(nr_sequences / batch_size))', 'nr_batches = (nr_sequences + batch_size - 1) // batch_size')]),
    ('ok-divmod', 'ok', [(D, 'nr_batches = int(math.ceil(nr_sequences / batch_size))', """nr_batches, rest = divmod(nr_sequences, batch_size)
        if rest:
            nr_batches += 1""")]),
    ('ok-lens', 'ok', [(D, """    lengths = mask.shape[0] - b[::-1].argmax(axis=0)
    lengths[b.max(axis=0) == 0] = 0
    return lengths
""", """    steps = np.arange(1, mask.shape[0] + 1)
    return (b * steps[:, None]).max(axis=0)
""")]),
    ('ok-lens2', 'ok', [(D, """    b = mask[:, :, 0] != 0
    lengths = mask.shape[0] - b[::-1].argmax(axis=0)
    lengths[b.max(axis=0) == 0] = 0
    return lengths
""", """    lengths = np.zeros(mask.shape[1], dtype=int)
    for t in range(mask.shape[0]):
        lengths[mask[t, :, 0] != 0] = t + 1
    return lengths
""")]),
    ('ok-fill', 'ok', [(D, 'self.seq_lens = time_steps * np.ones(nr_sequences, dtype=np.int)', 'self.seq_lens = np.full(nr_sequences, time_steps, dtype=int)')]),
    ('ok-helper', 'ok', [(D, """    def __call__(self, handler=None):
        indices = np.arange(self.length)
        if self.shuffle:
            self.rnd.shuffle(indices)
        for idx in indices:
""" + B + TS + DA + """            yield data
""", """    def _batch(self, idx):
        rows = slice(idx * self.batch_size, (idx + 1) * self.batch_size)
        end = int(max(self.seq_lens[rows]))
        return dict(((k, v[:end, rows]) for k, v in self.data.items()))

    def __call__(self, handler=None):
        order = list(range(self.length))
        if self.shuffle:
            self.rnd.shuffle(order)
        for idx in order:
            yield self._batch(idx)
""")]),
    ('ok-undiv', 'ok', [(D, '        yield dict(self.data)\n', '        yield self.data.copy()\n')]),
]
