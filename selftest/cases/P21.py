B = 'structure/buffers.py'
N = 'structure/network.py'
L = 'structure/layout.py'
S = 'structure/buffer_structure.py'
CASES = [
    ('after-layers', 'bad', [(N, '''        self._buffer_manager.clear_backward_buffers()
        for layer_name, layer in reversed(list(self.layers.items())[1:]):
            layer.backward_pass(self.buffer[layer_name])
''', '''        for layer_name, layer in reversed(list(self.layers.items())[1:]):
            layer.backward_pass(self.buffer[layer_name])
        self._buffer_manager.clear_backward_buffers()
''')]),
    ('btype', 'bad', [(B, 'if h.is_backward_only:', 'if h.is_backward_only and h.btype == 2:')]),
    ('slice', 'bad', [(B, 'self.handler.fill(b, 0.0)', 'self.handler.fill(b[:self.time_size], 0.0)')]),
    ('all', 'bad', [(B, '            if h.is_backward_only:\n                self', '            if True:\n                self')]),
    ('skip-first', 'bad', [(B, 'for h, b in zip(self.hubs, self.buffers):', 'for h, b in zip(self.hubs[1:], self.buffers[1:]):')]),
    ('one', 'bad', [(B, 'self.handler.fill(b, 0.0)', 'self.handler.fill(b, 1.0)')]),
    ('cond', 'bad', [(N, '        self._buffer_manager.clear_backward_buffers()\n', '        if self.gradient_modifiers:\n            self._buffer_manager.clear_backward_buffers()\n')]),
    ('unmarked-od', 'bad', [(L, "    for k, v in layout['output_deltas'].items():\n        v['@is_backward_only'] = True\n", '')]),
    ('marked-params', 'bad', [(L, "    for k, v in layout['gradients'].items():", "    for k, v in layout['parameters'].items():")]),
    ('root', 'bad', [(L, ", '@is_backward_only': True}}", '}}')]),
    ('json', 'bad', [(S, "        if self.is_backward_only:\n            descr['@is_backward_only'] = True\n", '')]),
    ('from', 'bad', [(S, "layout.get('@is_backward_only', False)", "layout.get('is_backward_only', False)")]),
    ('hub', 'bad', [(L, 'hub.is_backward_only = ensure_uniform([structs[i].is_backward_only for i in hub.perm])', 'hub.is_backward_only = hub.btype == 2')]),
    ('ok-continue', 'ok', [(B, '''            if h.is_backward_only:
                self.handler.fill(b, 0.0)''', '''            if not h.is_backward_only:
                continue
            self.handler.fill(b, 0)''')]),
    ('ok-index', 'ok', [(B, '''        for h, b in zip(self.hubs, self.buffers):
            if h.is_backward_only:
                self.handler.fill(b, 0.0)''', '''        for i in range(len(self.hubs)):
            if self.hubs[i].is_backward_only:
                self.handler.fill(self.buffers[i], 0.0)''')]),
    ('ok-enumerate', 'ok', [(B, '''        for h, b in zip(self.hubs, self.buffers):
            if h.is_backward_only:
                self.handler.fill(b, 0.0)''', '''        for i, h in enumerate(self.hubs):
            if h.is_backward_only:
                self.handler.fill(self.buffers[i], 0.0)''')]),
    ('ok-listcomp', 'ok', [(B, '''        for h, b in zip(self.hubs, self.buffers):
            if h.is_backward_only:
                self.handler.fill(b, 0.0)''', '''        targets = [b for h, b in zip(self.hubs, self.buffers) if h.is_backward_only]
        for b in targets:
            self.handler.fill(b, 0.0)''')]),
    ('ok-mark-helper', 'ok', [
        (L, "    for k, v in layout['output_deltas'].items():\n        v['@is_backward_only'] = True\n", "    _mark(layout['output_deltas'])\n"),
        (L, "    for k, v in layout['gradients'].items():\n        v['@is_backward_only'] = True\n", "    _mark(layout['gradients'])\n"),
        (L, 'def get_layout_stub_for_layer(', '''def _mark(part):
    for v in part.values():
        v['@is_backward_only'] = True

def get_layout_stub_for_layer(''')]),
    ('ok-stub-helper', 'ok', [
        (L, "    layout['output_deltas'] = {k: v.to_json(i) for i, (k, v) in enumerate(layer.out_shapes.items())}\n    for k, v in layout['output_deltas'].items():\n        v['@is_backward_only'] = True\n", "    layout['output_deltas'] = _stub(layer.out_shapes, True)\n"),
        (L, "    layout['outputs'] = {k: v.to_json(i) for i, (k, v) in enumerate(layer.out_shapes.items())}\n", "    layout['outputs'] = _stub(layer.out_shapes)\n"),
        (L, 'def get_layout_stub_for_layer(', '''def _stub(shapes, backward=False):
    part = {}
    for i, (k, v) in enumerate(shapes.items()):
        part[k] = v.to_json(i)
        if backward:
            part[k]['@is_backward_only'] = True
    return part

def get_layout_stub_for_layer(''')]),
    ('mem-loop', 'bad', [('structure/layout.py', "'@is_backward_only': True", "'@is_backward_only': k != 'default'")]),
]
