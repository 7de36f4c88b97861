B = 'structure/buffers.py'
N = 'structure/network.py'
CASES = [
    ('off-by-one', 'bad', [(B, 'self.handler.fill(buf[self.time_size:], 0.0)', 'self.handler.fill(buf[self.time_size - hub.context_size:], 0.0)')]),
    ('minus-one', 'bad', [(B, 'self.handler.fill(buf[self.time_size:], 0.0)', 'self.handler.fill(buf[-1:], 0.0)')]),
    ('apply-range', 'bad', [(B, 'self.handler.copy_to(c, buf[self.time_size:])', 'self.handler.copy_to(c, buf[:c.shape[0]])')]),
    ('apply-off', 'bad', [(B, 'self.handler.copy_to(c, buf[self.time_size:])', 'self.handler.copy_to(c, buf[self.time_size - 1:])')]),
    ('get-off', 'bad', [(B, 'context_stop_idx = self.time_size\n', 'context_stop_idx = self.time_size + hub.context_size\n'), (B, 'context_start_idx = self.time_size - hub.context_size', 'context_start_idx = self.time_size')]),
    ('get-view', 'bad', [(B, 'context.append(c)', 'context.append(buf[context_start_idx:context_stop_idx])')]),
    ('get-skip', 'bad', [(B, '                context.append(None)\n', '                continue\n')]),
    ('no-clear-training', 'bad', [(N, '        if context is None:\n            self._buffer_manager.clear_context()\n        else:', '        if context is None and training_pass:\n            self._buffer_manager.clear_context()\n        elif context is not None:')]),
    ('clear-last', 'bad', [(N, '            layer.forward_pass(self.buffer[layer_name], training_pass)\n', '            layer.forward_pass(self.buffer[layer_name], training_pass)\n        self._buffer_manager.clear_context()\n'), (N, '        if context is None:\n            self._buffer_manager.clear_context()\n        else:\n            self._buffer_manager.apply_context(context)\n', '        if context is not None:\n            self._buffer_manager.apply_context(context)\n')]),
    ('bwd-only', 'bad', [(B, 'if hub.btype != 2 or not hub.context_size:', 'if hub.btype != 2 or hub.context_size != 1:')]),
    ('btype1', 'bad', [(B, 'if hub.btype != 2 or not hub.context_size:', 'if hub.btype == 2 or not hub.context_size:')]),
    ('ok-positive', 'ok', [(B, '''            if hub.btype != 2 or not hub.context_size:
                continue
            self.handler.fill(buf[self.time_size:], 0.0)''', '''            if hub.btype == 2 and hub.context_size > 0:
                end = self.time_size + hub.context_size
                self.handler.fill(buf[self.time_size:end], 0)''')]),
    ('ok-neg', 'ok', [(B, 'self.handler.fill(buf[self.time_size:], 0.0)', 'self.handler.fill(buf[-hub.context_size:], 0.0)')]),
    ('ok-early', 'ok', [(N, '''        if context is None:
            self._buffer_manager.clear_context()
        else:
            self._buffer_manager.apply_context(context)
''', '''        if context is not None:
            self._buffer_manager.apply_context(context)
        else:
            self._buffer_manager.clear_context()
''')]),
    ('ok-clear-then-apply', 'ok', [(N, '''        if context is None:
            self._buffer_manager.clear_context()
        else:
            self._buffer_manager.apply_context(context)
''', '''        self._buffer_manager.clear_context()
        if context is not None:
            self._buffer_manager.apply_context(context)
''')]),
    ('ok-allocate', 'ok', [(B, 'c = self.handler.zeros((hub.context_size, self.batch_size, hub.size))', 'c = self.handler.allocate((hub.context_size, self.batch_size, hub.size))')]),
    ('ok-helper', 'ok', [
        (B, '''            if hub.btype != 2 or hub.context_size == 0:
                context.append(None)
            else:
                c = self.handler.zeros((hub.context_size, self.batch_size, hub.size))
                context_start_idx = self.time_size - hub.context_size
                context_stop_idx = self.time_size
                self.handler.copy_to(buf[context_start_idx:context_stop_idx], c)
                context.append(c)
''', '            context.append(self._ctx(hub, buf))\n'),
        (B, '    def apply_context(', '''    def _ctx(self, hub, buf):
        if hub.btype != 2 or hub.context_size == 0:
            return None
        c = self.handler.zeros((hub.context_size, self.batch_size, hub.size))
        start = self.time_size - hub.context_size
        self.handler.copy_to(buf[start:self.time_size], c)
        return c

    def apply_context(''')]),
    ('mem-saved-view', 'bad', [('structure/buffers.py', "                c = self.handler.zeros((hub.context_size, self.batch_size, hub.size))\n", ""), ('structure/buffers.py', "                self.handler.copy_to(buf[context_start_idx:context_stop_idx], c)\n                context.append(c)", "                context.append(buf[context_start_idx:context_stop_idx])")]),
    ('mem-one', 'bad', [('structure/buffers.py', "            self.handler.copy_to(c, buf[self.time_size:])", "            self.handler.copy_to(c[-1:], buf[self.time_size:self.time_size + 1])\n            break")]),
]
