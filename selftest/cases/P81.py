T = 'tools.py'
A = 'return_data[buffer_name][:data.shape[0], nr_items - data.shape[1]:nr_items] = data'
CASES = [
    ('first-T', 'bad', [(T, A, 'return_data[buffer_name][:, nr_items - data.shape[1]:nr_items] = data')]),
    ('offset', 'bad', [(T, A, 'return_data[buffer_name][:data.shape[0], num * data.shape[1]:(num + 1) * data.shape[1]] = data')]),
    ('const-batch', 'bad', [(T, """            if num == 0:
                nr_items += data.shape[1]
            if first_pass:
                data_shape""", """            if num == 0:
                nr_items += data.shape[1] if nr_items == 0 else min(data.shape[1], nr_items)
            if first_pass:
                data_shape""")]),
    ('each-count', 'bad', [(T, """            if num == 0:
                nr_items += data.shape[1]
            if first_pass:
                data_shape""", """            if num <= 1:
                nr_items += data.shape[1]
            if first_pass:
                data_shape""")]),
    ('no-forward', 'bad', [(T, """        network.forward_pass()
        first_pass = False if len(return_data)""", """        if not return_data:
            network.forward_pass()
        first_pass = False if len(return_data)""")]),
    ('fresh', 'bad', [(T, 'first_pass = False if len(return_data) == len(buffer_names) else True', 'first_pass = len(return_data) < 2')]),
    ('save-resize', 'bad', [(T, 'ds[num].resize(size=nr_items, axis=1)', 'ds[num].resize(size=nr_items + data.shape[1], axis=1)')]),
    ('save-first', 'bad', [(T, 'ds[num][:data.shape[0], nr_items - data.shape[1]:nr_items, ...] = data', 'ds[num][:data.shape[0], :data.shape[1], ...] = data')]),
    ('save-ds', 'bad', [(T, 'ds[num][:data.shape[0], nr_items - data.shape[1]:nr_items, ...] = data', 'ds[-1][:data.shape[0], nr_items - data.shape[1]:nr_items, ...] = data')]),
    ('save-noT', 'bad', [(T, """                    if data.shape[0] > ds[num].shape[0]:
                        ds[num].resize(size=data.shape[0], axis=0)
""", '')]),
    ('ok-concat', 'ok', [(T, A, """end = nr_items
            start = end - data.shape[1]
            target = return_data[buffer_name]
            target[:data.shape[0], start:end] = data""")]),
    ('ok-firstname', 'ok', [(T, """        first_pass = False if len(return_data) == len(buffer_names) else True
""", """        first_pass = not return_data
""")]),
    ('ok-start', 'ok', [(T, """            if num == 0:
                nr_items += data.shape[1]
            if first_pass:
                data_shape""", """            if not num:
                nr_items = nr_items + data.shape[1]
            if first_pass:
                data_shape""")]),
    ('ok-notin', 'ok', [(T, """            if first_pass:
                data_shape""", """            if buffer_name not in return_data:
                data_shape""")]),
    ('ok-save', 'ok', [(T, """            first_pass = False if len(ds) > 0 else True
            for num, buffer_name in enumerate(buffer_names):
                data = network.get(buffer_name)
                if num == 0:
                    nr_items += data.shape[1]
                if first_pass:
                    ds.append""", """            first_pass = not ds
            for num in range(len(buffer_names)):
                buffer_name = buffer_names[num]
                data = network.get(buffer_name)
                nr_items += data.shape[1] if num == 0 else 0
                if first_pass:
                    ds.append""")]),
    ('ok-list', 'ok', [(T, """    nr_examples = list(iter.data_shapes.values())[0][1]
    return_data = {}
    nr_items = 0
    for _ in run_network(network, iterator, all_inputs=False):
        network.forward_pass()
        first_pass = False if len(return_data) == len(buffer_names) else True
        for num, buffer_name in enumerate(buffer_names):
            data = network.get(buffer_name)
            if num == 0:
                nr_items += data.shape[1]
            if first_pass:
                data_shape = (data.shape[0], nr_examples) + data.shape[2:]
                return_data[buffer_name] = np.zeros(data_shape, data.dtype)
            elif data.shape[0] > return_data[buffer_name].shape[0]:
                shorter = return_data[buffer_name]
                data_shape = data.shape[:1] + shorter.shape[1:]
                return_data[buffer_name] = np.zeros(data_shape, data.dtype)
                return_data[buffer_name][:shorter.shape[0]] = shorter
            return_data[buffer_name][:data.shape[0], nr_items - data.shape[1]:nr_items] = data
    return return_data
""", """    parts = {n: [] for n in buffer_names}
    for _ in run_network(network, iterator, all_inputs=False):
        network.forward_pass()
        for n in buffer_names:
            parts[n].append(network.get(n))
    result = {}
    for n, ps in parts.items():
        T = max([q.shape[0] for q in ps])
        full = []
        for q in ps:
            z = np.zeros((T,) + q.shape[1:], q.dtype)
            z[:q.shape[0]] = q
            full.append(z)
        result[n] = np.concatenate(full, axis=1)
    return result
""")]),
]
