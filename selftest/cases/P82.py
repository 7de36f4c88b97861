N = 'structure/network.py'
B = 'structure/buffers.py'
V = 'structure/buffer_views.py'
CASES = [
    ('same-name', 'bad', [(N, "self.handler.set_from_numpy(buf, data[name])", "self.handler.set_from_numpy(buf, data[sorted(data)[0]])")]),
    ('order', 'bad', [(N, "        for name, buf in self.buffer.Input.outputs.items():\n            if name not in data.keys() and all_inputs is False:\n                continue\n", "        for name, buf in zip(sorted(data), self.buffer.Input.outputs):\n")]),
    ('partial-raise', 'bad', [(N, "if name not in data.keys() and all_inputs is False:", "if name not in data.keys() and all_inputs is None:")]),
    ('partial-quiet', 'bad', [(N, "if name not in data.keys() and all_inputs is False:", "if name not in data.keys():")]),
    ('partial-clear', 'bad', [(N, "if name not in data.keys() and all_inputs is False:\n                continue", "if name not in data.keys() and all_inputs is False:\n                self.handler.fill(buf, 0.0)\n                continue")]),
    ('direction', 'bad', [(N, "self.handler.copy_to(data[name], buf)", "self.handler.copy_to(buf, data[name])")]),
    ('add', 'bad', [(N, "self.handler.set_from_numpy(buf, data[name])", "self.handler.add_tt(buf, data[name], buf)")]),
    ('before-resize', 'bad', [(N, "        self.buffer = self._buffer_manager.resize(time_size, batch_size)\n        for name, buf in self.buffer.Input.outputs.items():", "        views = self.buffer.Input.outputs.items()\n        self.buffer = self._buffer_manager.resize(time_size, batch_size)\n        for name, buf in views:")]),
    ('swap-size', 'bad', [(N, "time_size, batch_size = data[next", "batch_size, time_size = data[next")]),
    ('total-last', 'bad', [(N, "            loss += l\n", "            loss = l\n")]),
    ('total-mean', 'bad', [(N, "losses['total_loss'] = loss", "losses['total_loss'] = loss / len(self.loss_layers)")]),
    ('loss-name', 'bad', [(N, "l = float(self.get(loss_layer_name + '.outputs.loss'))", "l = float(self.get(self.loss_layers[0] + '.outputs.loss'))")]),
    ('loss-one', 'bad', [(N, "if len(self.loss_layers) == 1:", "if len(self.loss_layers) <= 2:")]),
    ('get-view', 'bad', [(N, "return self.handler.get_numpy_copy(b)", "return b")]),
    ('input-layer', 'bad', [(N, "return self.get('Input.outputs.' + input_name)", "return self.get('Input.outputs.default')")]),
    ('keys-loop', 'ok', [(N, "        for name, buf in self.buffer.Input.outputs.items():\n            if name not in data.keys() and all_inputs is False:\n                continue\n", "        targets = self.buffer.Input.outputs\n        for name in targets.keys():\n            buf = targets[name]\n            if not all_inputs and name not in data:\n                continue\n")]),
    ('sum', 'ok', [(N, "        loss = 0.0\n        losses = OrderedDict()\n", "        losses = OrderedDict()\n"), (N, "            loss += l\n        losses['total_loss'] = loss", "        losses['total_loss'] = sum(losses.values())")]),
    ('first', 'ok', [(N, "data[next(iter(data))].shape[:2]", "list(data.values())[0].shape[:2]")]),
    ('helper', 'ok', [(N, "    def get_loss_values(self):\n", "    def _loss_of(self, layer):\n        return float(self.get(layer + '.outputs.loss'))\n\n    def get_loss_values(self):\n"), (N, "l = float(self.get(loss_layer_name + '.outputs.loss'))", "l = self._loss_of(loss_layer_name)")]),
    ('write', 'ok', [(N, "            if isinstance(data[name], self.handler.array_type):\n                self.handler.copy_to(data[name], buf)\n            else:\n                self.handler.set_from_numpy(buf, data[name])", "            value = data[name]\n            native = isinstance(value, self.handler.array_type)\n            if not native:\n                self.handler.set_from_numpy(buf, value)\n                continue\n            self.handler.copy_to(value, buf)")]),
]
