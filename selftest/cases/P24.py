L = 'structure/layout.py'
B = 'structure/buffers.py'
S = 'structure/buffer_structure.py'
CASES = [
    ('no-backward', 'bad', [(L, '            if bwd_con:\n                connections.append(bwd_con)\n', '')]),
    ('swap-end', 'bad', [(L, "'outputs': 'output_deltas'", "'outputs': 'input_deltas'")]),
    ('internals-same', 'bad', [(L, "dstart_buffer = 'd' + start_buffer", "dstart_buffer = start_buffer")]),
    ('no-gradients', 'bad', [(L, "            connections.append((start, end))\n    return sorted", "    return sorted")]),
    ('hub-number', 'bad', [(L, "buffer_layout['@hub'] = hub_nr", "buffer_layout['@hub'] = hub.btype")]),
    ('enumerate-1', 'bad', [(L, "enumerate(hubs):", "enumerate(hubs, 1):")]),
    ('cumsum', 'bad', [(L, "idxs = np.cumsum([0] + self.sizes)", "idxs = np.cumsum(self.sizes)")]),
    ('zip-idx', 'bad', [(L, "zip(self.flat_sources, idxs, idxs[1:])", "zip(self.flat_sources, idxs, idxs[2:])")]),
    ('sink-stop', 'bad', [(L, "stop = idxs[self.connection_table.shape[0] - np.argmax", "stop = idxs[self.connection_table.shape[0] - 1 - np.argmax")]),
    ('sink-start', 'bad', [(L, "start = idxs[np.argmax(self.connection_table[:, i])]", "start = idxs[0]")]),
    ('ctx-min', 'bad', [(L, "context_size = max([s", "context_size = min([s")]),
    ('sizes-perm', 'bad', [(L, "hub.sizes = [structs[i].feature_size for i in hub.perm]", "hub.sizes = [s.feature_size for s in structs]")]),
    ('shape-noctx', 'bad', [(L, "full_shape = (time_size + self.context_size, batch_size, self.size)", "full_shape = (time_size, batch_size, self.size)")]),
    ('order', 'bad', [(L, "return tuple([get_normalized_path(layer_name, 'gradients', o) for o in layer.parameter_shapes])", "return tuple([get_normalized_path(layer_name, 'gradients', o) for o in sorted(layer.parameter_shapes)])")]),
    ('perm-src', 'bad', [(L, "                self.flat_sources = [self.flat_sources[i] for i in self.perm]\n", "")]),
    ('perm-test', 'bad', [(L, "if Hub.can_be_connected_with_single_buffer(ct):", "if Hub.can_be_connected_with_single_buffer(self.connection_table):")]),
    ('perm-raise', 'bad', [(L, "        raise NetworkValidationError('Failed to lay out buffers. Please change connectivity.')", "        self.flat_sources = [self.flat_sources[i] for i in self.perm]")]),
    ('cutoff', 'bad', [(S, "t_slice = slice(0, -cutoff if cutoff else None)", "t_slice = slice(cutoff, None)")]),
    ('cutoff0', 'bad', [(S, "t_slice = slice(0, -cutoff if cutoff else None)", "t_slice = slice(0, -cutoff or -1)")]),
    ('t', 'bad', [(S, "t = buffer.shape[0] - hub.context_size", "t = buffer.shape[0] - self.context_size")]),
    ('feature-axis', 'bad', [(S, "sub_buffer = buffer[:, feature_slice]", "sub_buffer = buffer[feature_slice]")]),
    ('struct-shape', 'bad', [(S, "full_shape = (time_size + self.context_size, batch_size) + self.feature_shape", "full_shape = (time_size, batch_size) + self.feature_shape")]),
    ('slices', 'bad', [(B, "zip(totals[:-1], totals[1:])", "zip(totals[:-1], totals[:-1])")]),
    ('slice-idx', 'bad', [(B, "self.full_buffer[slices[i]].reshape(shapes[i])", "self.full_buffer[slices[0]].reshape(shapes[i])")]),
    ('view-hub', 'bad', [(B, "structure.create_from_buffer_hub(buffers[buffer_nr], hubs[buffer_nr], feature_slice)", "structure.create_from_buffer_hub(buffers[buffer_nr], hubs[0], feature_slice)")]),
    ('view-existing', 'bad', [(B, "existing_view=existing_view[n])", "existing_view=existing_view)")]),
    ('stub-shape', 'bad', [(L, "layout['output_deltas'] = {k: v.to_json(i) for i, (k, v) in enumerate(layer.out_shapes.items())}", "layout['output_deltas'] = {k: v.to_json(0) for i, (k, v) in enumerate(layer.out_shapes.items())}")]),
    ('stub-in', 'bad', [(L, "layout['input_deltas'] = {k: layer.in_shapes[k].to_json(i) for i, k in enumerate(sorted(layer.in_shapes))}", "layout['input_deltas'] = {k: layer.in_shapes['default'].to_json(i) for i, k in enumerate(sorted(layer.in_shapes))}")]),
    ('combine', 'bad', [(S, "summed_shape = sum((s.feature_shape[-1] for s in shapes))", "summed_shape = sum((s.feature_shape[0] for s in shapes))")]),
    ('whole', 'bad', [(L, "layout['gradients']['@shape'] = (param_slice[1] - param_slice[0],)", "layout['gradients']['@shape'] = (param_slice[1],)")]),
    ('ok-loop', 'ok', [(L, '''    for hub_nr, hub in enumerate(hubs):
        for buffer_name, _slice in hub.get_indices():
            buffer_layout = get_by_path(layout, buffer_name)
            buffer_layout['@slice'] = _slice
            buffer_layout['@hub'] = hub_nr
''', '''    for hub_nr in range(len(hubs)):
        for entry in hubs[hub_nr].get_indices():
            get_by_path(layout, entry[0]).update({'@slice': entry[1], '@hub': hub_nr})
''')]),
    ('ok-bwd', 'ok', [(L, '            if bwd_con:\n                connections.append(bwd_con)\n', '            connections.append(bwd_con)\n')]),
    ('ok-extend', 'ok', [(L, '''            start = get_normalized_path(layer_name, 'parameters', param_name)
            end = 'parameters'
            connections.append((start, end))
            start = get_normalized_path(layer_name, 'gradients', param_name)
            end = 'gradients'
            connections.append((start, end))
''', '''            for cat in ('parameters', 'gradients'):
                connections.append((get_normalized_path(layer_name, cat, param_name), cat))
''')]),
    ('ok-running', 'ok', [(L, '''        for source_name, start, stop in zip(self.flat_sources, idxs, idxs[1:]):
            yield (source_name, (int(start), int(stop)))
''', '''        for j, source_name in enumerate(self.flat_sources):
            yield (source_name, (int(idxs[j]), int(idxs[j + 1])))
''')]),
    ('ok-slices', 'ok', [(B, "[slice(int(i), int(j)) for i, j in zip(totals[:-1], totals[1:])]", "[slice(int(totals[i]), int(totals[i + 1])) for i in range(len(hubs))]")]),
    ('ok-zip', 'ok', [(B, "[self.full_buffer[slices[i]].reshape(shapes[i]) for i in range(len(self.hubs))]", "[self.full_buffer[sl].reshape(sh) for sl, sh in zip(slices, shapes)]")]),
    ('ok-shape', 'ok', [(L, '''        full_shape = (time_size + self.context_size, batch_size, self.size)
        return full_shape[2 - self.btype:]
''', '''        if self.btype == 0:
            return (self.size,)
        if self.btype == 1:
            return (batch_size, self.size)
        return (time_size + self.context_size, batch_size, self.size)
''')]),
    ('ok-tslice', 'ok', [(S, "t_slice = slice(0, -cutoff if cutoff else None)", "t_slice = slice(0, t + self.context_size)")]),
    ('ok-pairs', 'ok', [(L, '''    for start, stop in connections:
        for fo''', '''    for con in connections:
        start, stop = con
        for fo''')]),
    ('ok-helper', 'ok', [(L, '''            start = get_normalized_path(con.start_layer, 'outputs', con.output_name)
            end = get_normalized_path(con.end_layer, 'inputs', con.input_name)
''', '''            start, end = endpoints(con)
'''), (L, 'def get_order(structure):', '''def endpoints(con):
    start = get_normalized_path(con.start_layer, 'outputs', con.output_name)
    return (start, get_normalized_path(con.end_layer, 'inputs', con.input_name))

def get_order(structure):''')]),
    ('ok-builder', 'ok', [(B, '''            if existing_view:
                assert n in existing_view
                c = create_buffer_views_from_layout(sub_node, buffers, hubs, existing_view=existing_view[n])
            else:
                c = create_buffer_views_from_layout(sub_node, buffers, hubs)
''', '''            sub_view = existing_view[n] if existing_view else None
            c = create_buffer_views_from_layout(sub_node, buffers, hubs, existing_view=sub_view)
''')]),
    ('mem-noperm', 'bad', [(L, "itertools.permutations(self.nesting)", "[self.nesting]")]),
    ('mem-loose', 'bad', [(L, ".sum(axis=0) <= 2)", ".sum(axis=0) <= 4)")]),
    ('mem-any', 'bad', [(L, "return np.all(np.abs(", "return np.any(np.abs(")]),
    ('mem-noabs', 'bad', [(L, "np.abs(np.diff(padded, axis=0))", "np.diff(padded, axis=0)")]),
    ('mem-nopad', 'ok', [(L, "padded[1:-1, :] = connection_table", "padded[:-2, :] = connection_table")]),
    ('mem-param-order', 'bad', [(L, "    forced_orders = [get_parameter_order(n, l) for n, l in layers.items()]\n", "    forced_orders = []\n")]),
    ('mem-noloop', 'ok', [(L, "    hubs = sorted(hubs, key=lambda x: (x.is_backward_only, x.btype))", "    hubs = list(hubs)\n    hubs.sort(key=lambda x: (x.is_backward_only, x.btype))")]),
    ('mem-table', 'ok', [(L, "        for start, stop in connections:\n            if start in self.flat_sources and stop in self.sinks:\n", "        for start, stop in connections:\n            if stop not in self.sinks:\n                continue\n            if start in self.flat_sources:\n")]),
]
