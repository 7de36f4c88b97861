B = 'structure/buffers.py'
N = 'structure/network.py'
V = 'structure/buffer_views.py'
CASES = [
    ('lazy-or', 'bad', [(B, 'time_size == self.time_size and batch', 'time_size == self.time_size or batch')]),
    ('lazy-le', 'bad', [(B, 'time_size == self.time_size and', 'time_size <= self.time_size and')]),
    ('save-late', 'bad', [
        (B, '''        parameters = None
        if self.views is not None:
            parameters = self.handler.get_numpy_copy(self.views.parameters)
        self.views = create_buffer_views_from_layout(self.layout, self.buffers, self.hubs, existing_view=self.views)
''', '''        self.views = create_buffer_views_from_layout(self.layout, self.buffers, self.hubs, existing_view=self.views)
        parameters = None
        if self.views is not None:
            parameters = self.handler.get_numpy_copy(self.views.parameters)
''')]),
    ('no-restore-sethandler', 'bad', [
        (B, '''        self.handler = new_handler
        self.resize(0, 0)
        if parameters is not None:
            self.handler.set_from_numpy(self.views.parameters, parameters)
''', '''        self.handler = new_handler
        self.resize(0, 0)
''')]),
    ('size-not-reset', 'bad', [(B, '        self.full_buffer = None\n        self.size = -1\n        self.time_size = -1\n        self.batch_size = -1\n        parameters', '        self.time_size = -1\n        self.batch_size = -1\n        parameters')]),
    ('size-not-recorded', 'bad', [(B, '            self.size = total_size\n', '')]),
    ('realloc-half', 'bad', [(B, 'if total_size > self.size:', 'if total_size > self.size * 2:')]),
    ('net-buffer-stale', 'bad', [(N, '        self._buffer_manager.set_handler(new_handler)\n        self.buffer = self._buffer_manager.views\n', '        self.buffer = self._buffer_manager.views\n        self._buffer_manager.set_handler(new_handler)\n')]),
    ('data-in-place', 'ok', [(N, 'self.buffer = self._buffer_manager.resize(', 'self._buffer_manager.resize(')]),
    ('adjust-name', 'bad', [(V, '            self[i] = b\n            self.__dict__[n] = self[i]\n        return', '            self[i] = b\n        return')]),
    ('adjust-index', 'bad', [(V, '            self[i] = b\n            self.__dict__[n] = self[i]\n        return', '            self.__dict__[n] = b\n        return')]),
    ('ok-helper', 'ok', [
        (B, '''        parameters = None
        if self.views is not None:
            parameters = self.handler.get_numpy_copy(self.views.parameters)
        self.views = create''', '''        parameters = self._save()
        self.views = create'''),
        (B, '    def set_handler(', '''    def _save(self):
        if self.views is None:
            return None
        return self.handler.get_numpy_copy(self.views.parameters)

    def set_handler('''),
        (B, '''        parameters = None
        if self.views is not None:
            parameters = self.handler.get_numpy_copy(self.views.parameters)
        self.views = None''', '''        parameters = self._save()
        self.views = None''')]),
    ('ok-only-on-realloc', 'ok', [
        (B, '''        parameters = None
        if self.views is not None:
            parameters = self.handler.get_numpy_copy(self.views.parameters)
        self.views = create''', '''        parameters = None
        if grown and self.views is not None:
            parameters = self.handler.get_numpy_copy(self.views.parameters)
        self.views = create'''),
        (B, '        if total_size > self.size:', '        grown = total_size > self.size\n        if grown:')]),
    ('ok-tuple-compare', 'ok', [(B, '''        if time_size == self.time_size and batch_size == self.batch_size:
            return self.views''', '''        if (time_size, batch_size) == (self.time_size, self.batch_size):
            return self.views''')]),
    ('ok-adjust-loop', 'ok', [(V, '''        for i, (n, b) in enumerate(zip(buffer_names, buffers)):
            self[i] = b
            self.__dict__[n] = self[i]
        return''', '''        for i in range(len(buffer_names)):
            self[i] = buffers[i]
            self.__dict__[buffer_names[i]] = buffers[i]
        return''')]),
    ('ok-loop-values', 'ok', [(N, '''        for layer in self.layers.values():
            layer.set_handler(new_handler)''', '''        for name in self.layers:
            self.layers[name].set_handler(new_handler)''')]),
    ('ok-buffers-loop', 'ok', [(B, '''        self.buffers = [self.full_buffer[slices[i]].reshape(shapes[i]) for i in range(len(self.hubs))]''', '''        buffers = []
        for sl, sh in zip(slices, shapes):
            buffers.append(self.full_buffer[sl].reshape(sh))
        self.buffers = buffers''')]),
    ('mem-slice', 'bad', [('structure/buffers.py', "            self.full_buffer = self.handler.allocate((total_size,))\n            self.size = total_size\n", "            self.full_buffer = self.handler.allocate((total_size,))\n            self.size = total_size\n            self.views = None\n")]),
    ('mem-late', 'bad', [('structure/buffers.py', "        parameters = None\n        if self.views is not None:\n            parameters = self.handler.get_numpy_copy(self.views.parameters)\n        self.views = create_buffer_views", "        parameters = None\n        old = self.views\n        self.views = create_buffer_views"), ('structure/buffers.py', "existing_view=self.views)\n        if parameters is not None:\n            self.handler.set_from_numpy(self.views.parameters, parameters)\n        return self.views", "existing_view=self.views)\n        if old is not None:\n            self.handler.set_from_numpy(self.views.parameters, self.handler.get_numpy_copy(old.parameters))\n        return self.views")]),
    ('mem-layers', 'bad', [('structure/network.py', "        self._buffer_manager.set_handler(new_handler)\n        self.buffer = self._buffer_manager.views\n", "        self.buffer = self._buffer_manager.views\n        self._buffer_manager.set_handler(new_handler)\n")]),
]
