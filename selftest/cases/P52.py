I = 'initializers.py'
UNI = "v = (self.high - self.low) * self.rnd.rand(*shape) + self.low\n        return v"
MASK = "connection_mask[:self.connections, :] = 1.0\n        for i in range(shape[1]):\n            self.rnd.shuffle(connection_mask[:, i])"
CASES = [
    ('uni-scale', 'bad', [(I, UNI, "v = ((self.high + self.low) * self.rnd.rand(*shape)) + self.low\n        return v")]),
    ('uni-normal', 'bad', [(I, UNI, "v = ((self.high - self.low) * self.rnd.randn(*shape)) + self.low\n        return v")]),
    ('uni-one', 'bad', [(I, UNI, "v = ((self.high - self.low) * self.rnd.rand()) * np.ones(shape) + self.low\n        return v")]),
    ('uni-uniform', 'ok', [(I, UNI, "return self.rnd.uniform(self.low, self.high, size=shape)")]),
    ('uni-round', 'bad', [(I, UNI, "v = ((self.high - self.low) * self.rnd.rand(shape[0], *[1] * (len(shape) - 1))) + self.low\n        return v + np.zeros(shape)")]),
    ('uni-sorted', 'bad', [(I, "sorted([-self.low, self.low])", "(0, self.low)")]),
    ('uni-sorted2', 'ok', [(I, "sorted([-self.low, self.low])", "(-abs(self.low), abs(self.low))")]),
    ('gauss-std', 'bad', [(I, "self.rnd.randn(*shape) * self.std + self.mean", "(self.rnd.randn(*shape) + self.mean) * self.std")]),
    ('gauss-normal', 'ok', [(I, "self.rnd.randn(*shape) * self.std + self.mean", "self.rnd.normal(self.mean, self.std, shape)")]),
    ('fan-in', 'bad', [(I, "num_in = np.prod(shape[1:])", "num_in = shape[1]")]),
    ('fan-in0', 'bad', [(I, "num_in = np.prod(shape[1:])", "num_in = np.prod(shape[:-1])")]),
    ('fan-sqrt', 'bad', [(I, "- 1) / np.sqrt(num_in)", "- 1) / num_in")]),
    ('fan-half', 'bad', [(I, "return scale * (2 * self.rnd.rand(*shape) - 1) / np.sqrt(num_in)", "return scale * (self.rnd.rand(*shape) - 0.5) / np.sqrt(num_in)")]),
    ('fan-uni', 'ok', [(I, "return scale * (2 * self.rnd.rand(*shape) - 1) / np.sqrt(num_in)", "bound = scale / np.sqrt(num_in)\n        return self.rnd.uniform(-bound, bound, shape)")]),
    ('fan-io', 'bad', [(I, "np.sqrt(n1 + n2)", "np.sqrt(n1 * n2)")]),
    ('fan-tanh', 'bad', [(I, "'sigmoid': 4 * np.sqrt(6)", "'sigmoid': np.sqrt(6)")]),
    ('echo-nomax', 'bad', [(I, "max(abs(np.linalg.eig(parameters)[0]))", "abs(np.linalg.eig(parameters)[0])[0]")]),
    ('echo-noabs', 'bad', [(I, "max(abs(np.linalg.eig(parameters)[0]))", "max(np.linalg.eig(parameters)[0])")]),
    ('echo-vals', 'ok', [(I, "max(abs(np.linalg.eig(parameters)[0]))", "np.max(np.abs(np.linalg.eigvals(parameters)))")]),
    ('echo-pos', 'bad', [(I, "parameters * (self.spectral_radius / rho_parameters)", "parameters * self.spectral_radius * rho_parameters")]),
    ('id-eye', 'bad', [(I, "np.eye(shape[0], shape[1], dtype=np.float) * self.scale", "np.ones(shape) * self.scale")]),
    ('id-noise', 'bad', [(I, "weights += self.rnd.randn(*shape) * self.std", "weights += self.rnd.rand(*shape) * self.std")]),
    ('id-order', 'bad', [(I, "dtype=np.float) * self.scale\n        weights += self.rnd.randn(*shape) * self.std\n        return weights", "dtype=np.float)\n        weights += self.rnd.randn(*shape) * self.std\n        return weights * self.scale")]),
    ('lstm-order', 'bad', [(I, "self.input_gate, sub_shape", "self.forget_gate, sub_shape"), (I, "weights[2 * n:3 * n] = evaluate_initializer(self.forget_gate, sub_shape", "weights[2 * n:3 * n] = evaluate_initializer(self.input_gate, sub_shape")]),
    ('lstm-loop', 'ok', [(I, "        weights[:n] = evaluate_initializer(self.block_input, sub_shape, seed=self.rnd.generate_seed())\n        weights[n:2 * n] = evaluate_initializer(self.input_gate, sub_shape, seed=self.rnd.generate_seed())\n", "        for i, init in enumerate([self.block_input, self.input_gate]):\n            weights[i * n:(i + 1) * n] = evaluate_initializer(init, sub_shape, seed=self.rnd.generate_seed())\n")]),
    ('ortho-raw', 'bad', [(I, "return (self.scale * q).reshape(shape)", "return (self.scale * a).reshape(shape)")]),
    ('ortho-scale', 'bad', [(I, "return (self.scale * q).reshape(shape)", "return q.reshape(shape)")]),
    ('ortho-if', 'ok', [(I, "q = u if u.shape == shape else v", "if u.shape != shape:\n            q = v\n        else:\n            q = u")]),
    ('walk', 'bad', [(I, "/ np.sqrt(N)", "/ N")]),
    ('walk-max', 'bad', [(I, "max(N, 6)", "min(N, 6)")]),
    ('walk-2n', 'bad', [(I, "np.exp(1 / (2 * N))", "np.exp(1 / 2 * N)")]),
    ('walk-pow', 'ok', [(I, "/ np.sqrt(N)", "* N ** -0.5")]),
    ('sparse-one', 'bad', [(I, MASK, "connection_mask[:self.connections, :] = 1.0\n        self.rnd.shuffle(connection_mask)")]),
    ('sparse-not-last', 'bad', [(I, MASK, MASK.replace("range(shape[1])", "range(shape[1] - 1)"))]),
    ('sparse-more', 'bad', [(I, MASK, MASK.replace("[:self.connections,", "[:self.connections + 1,"))]),
    ('sparse-choice', 'ok', [(I, MASK, "for i in range(shape[1]):\n            column = connection_mask[:, i]\n            column[:self.connections] = 1.\n            self.rnd.shuffle(column)")]),
    ('sparse-lt', 'bad', [(I, "if shape[0] < self.connections:", "if shape[0] <= self.connections:")]),
    ('arr-shape', 'bad', [(I, "if not self.array.shape == shape:", "if not self.array.size == np.prod(shape):")]),
    ('eval-fallback', 'bad', [(I, "            if fallback is not None:\n                return", "            if fallback is None:\n                return")]),
    ('eval-zero', 'bad', [(I, "            if fallback is not None:\n                return", "            if fallback:\n                return")]),
    ('eval-full', 'ok', [(I, "        result = np.empty(shape, dtype=np.float64)\n        result[:] = initializer\n", "        result = np.zeros(shape) + initializer\n")]),
]
