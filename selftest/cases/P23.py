N = 'structure/network.py'
A = 'structure/architecture.py'
CASES = [
    ('no-skip', 'bad', [(N, 'for layer_name, layer in list(self.layers.items())[1:]:', 'for layer_name, layer in list(self.layers.items())[2:]:')]),
    ('sorted', 'bad', [(N, 'for layer_name, layer in list(self.layers.items())[1:]:', 'for layer_name, layer in sorted(self.layers.items())[1:]:')]),
    ('bwd-forward', 'bad', [(N, 'for layer_name, layer in reversed(list(self.layers.items())[1:]):', 'for layer_name, layer in list(self.layers.items())[1:]:')]),
    ('bwd-rev-skip', 'bad', [(N, 'reversed(list(self.layers.items())[1:])', 'list(reversed(list(self.layers.items())))[1:]')]),
    ('mode', 'bad', [(N, 'layer.forward_pass(self.buffer[layer_name], training_pass)', 'layer.forward_pass(self.buffer[layer_name])')]),
    ('mods-inside', 'bad', [(N, '            layer.backward_pass(self.buffer[layer_name])\n        self.apply', '            layer.backward_pass(self.buffer[layer_name])\n            self.apply')]),
    ('mods-before', 'bad', [(N, '''        for layer_name, layer in reversed(list(self.layers.items())[1:]):
            layer.backward_pass(self.buffer[layer_name])
        self.apply_gradient_modifiers()
''', '''        self.apply_gradient_modifiers()
        for layer_name, layer in reversed(list(self.layers.items())[1:]):
            layer.backward_pass(self.buffer[layer_name])
''')]),
    ('no-reverse', 'bad', [(A, 'return list(reversed(layer_order))', 'return layer_order')]),
    ('unsorted', 'bad', [(A, 'layer_order += sorted(new_layers, reverse=True)', 'layer_order += new_layers')]),
    ('proper', 'bad', [(A, 'if outgoing_layers <= already_ordered_layers:', 'if outgoing_layers < already_ordered_layers:')]),
    ('sorted-inst', 'bad', [(A, 'for layer_name in get_canonical_layer_order(architecture):', 'for layer_name in sorted(get_canonical_layer_order(architecture)):')]),
    ('ok-names', 'ok', [(N, '''        for layer_name, layer in list(self.layers.items())[1:]:
            layer.forward_pass(self.buffer[layer_name], training_pass)''', '''        for layer_name, layer in self.layers.items():
            if layer_name == 'Input':
                continue
            layer.forward_pass(self.buffer[layer_name], training_pass=training_pass)''')]),
    ('ok-keys', 'ok', [(N, '''        for layer_name, layer in list(self.layers.items())[1:]:
            layer.forward_pass(self.buffer[layer_name], training_pass)''', '''        for layer_name in list(self.layers)[1:]:
            self.layers[layer_name].forward_pass(self.buffer[layer_name], training_pass)''')]),
    ('ok-step', 'ok', [(N, 'reversed(list(self.layers.items())[1:])', 'list(self.layers.items())[1:][::-1]')]),
    ('ok-step2', 'ok', [(N, 'reversed(list(self.layers.items())[1:])', 'list(self.layers.items())[:0:-1]')]),
    ('ok-helper', 'ok', [(N, 'reversed(list(self.layers.items())[1:])', 'reversed(self._trainable())'), (N, '    def backward_pass(self', '    def _trainable(self):\n        return list(self.layers.items())[1:]\n\n    def backward_pass(self')]),
    ('ok-issubset', 'ok', [(A, 'if outgoing_layers <= already_ordered_layers:', 'if outgoing_layers.issubset(already_ordered_layers):')]),
    ('ok-reverse-slice', 'ok', [(A, 'return list(reversed(layer_order))', 'return layer_order[::-1]')]),
    ('ok-comp', 'ok', [(A, '''        new_layers = []
        for layer_name in remaining_layers:
            outgoing_layers = {c.end_layer for c in connections if c.start_layer == layer_name}
            if outgoing_layers <= already_ordered_layers:
                new_layers.append(layer_name)
''', '''        new_layers = [n for n in remaining_layers if {c.end_layer for c in connections if c.start_layer == n} <= already_ordered_layers]
''')]),
    ('mem-zero', 'bad', [('structure/network.py', "layer.forward_pass(self.buffer[layer_name], training_pass)", "layer.forward_pass(self.buffer[layer_name])")]),
]
