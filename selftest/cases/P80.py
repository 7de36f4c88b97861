S = 'scorers.py'
T = 'tools.py'
H = 'hooks.py'
CASES = [
    ('loss-weight-len', 'bad', [(S, 'scores[name].append((net._buffer_manager.batch_size, loss))', 'scores[name].append((1, loss))')]),
    ('loss-weight-time', 'bad', [(S, 'scores[name].append((net._buffer_manager.batch_size, loss))', 'scores[name].append((net._buffer_manager.time_size, loss))')]),
    ('plain-mean', 'bad', [(S, 'return np.sum(errors[:, 1] * errors[:, 0] / np.sum(errors[:, 0]))', 'return np.mean(errors[:, 1])')]),
    ('agg-mean', 'bad', [(S, 'return np.sum(errors[:, 1]) / np.sum(errors[:, 0])', 'return np.mean(errors[:, 1] / errors[:, 0])')]),
    ('agg-loss-as-score', 'bad', [(S, 'results[sc.__name__] = sc.aggregate(scores[sc.__name__])', 'results[sc.__name__] = _weighted_average(scores[sc.__name__])')]),
    ('weight-ignores-mask', 'bad', [(S, 'weight = mask.sum() if mask is not None else predicted.shape[0]', 'weight = predicted.shape[0]')]),
    ('weight-size', 'bad', [(S, 'weight = mask.sum() if mask is not None else predicted.shape[0]', 'weight = mask.sum() if mask is not None else predicted.size')]),
    ('mask-default-ignored', 'bad', [(S, 'net.get_input(mask_name) if mask_name else None', 'None')]),
    ('swap-args', 'bad', [(S, 'sc(true_labels, predicted, mask)', 'sc(predicted, true_labels, mask)')]),
    ('no-mask-in-score', 'bad', [(S, 'sc(true_labels, predicted, mask)', 'sc(true_labels, predicted)')]),
    ('out-name-order', 'bad', [(S, 'sc.out_name or out_name or net.output_name', 'out_name or sc.out_name or net.output_name')]),
    ('acc-mask', 'bad', [(S, """        if predicted.shape[1] > 1:
            predicted = predicted.argmax(1).reshape(-1, 1)
        correct = (predicted == true_labels).astype(np.float)
        if mask is not None:
            correct *= mask
""", """        if predicted.shape[1] > 1:
            predicted = predicted.argmax(1).reshape(-1, 1)
        correct = (predicted == true_labels).astype(np.float)
""")]),
    ('acc-reshape', 'bad', [(S, 'predicted.argmax(1).reshape(-1, 1)', 'predicted.argmax(1)')]),
    ('acc-round', 'bad', [(S, 'if predicted.shape[1] > 1:', 'if predicted.shape[1] > 2:')]),
    ('ham-le', 'bad', [(S, 'predicted < self.threshold', 'predicted <= self.threshold')]),
    ('ham-const', 'bad', [(S, 'predicted < self.threshold', 'predicted < 0.5')]),
    ('ham-rows', 'bad', [(S, 'return np.sum(correct) / true_labels.shape[1]', 'return np.sum(correct) / true_labels.shape[0]')]),
    ('mse-half', 'bad', [(S, 'return 0.5 * np.sum(errors)', 'return np.mean(errors)')]),
    ('stale-forward', 'bad', [(T, """        network.forward_pass()
        gather_losses_and_scores(network, scorers, scores, out_name=out_name, targets_name=targets_name, mask_name=mask_name)
""", """        gather_losses_and_scores(network, scorers, scores, out_name=out_name, targets_name=targets_name, mask_name=mask_name)
        network.forward_pass()
""")]),
    ('mask-not-passed', 'bad', [(T, 'targets_name=targets_name, mask_name=mask_name)\n    return', 'targets_name=targets_name)\n    return')]),
    ('early', 'bad', [(T, """targets_name=targets_name, mask_name=mask_name)
    return agg""", """targets_name=targets_name, mask_name=mask_name)
        if not scorers:
            break
    return agg""")]),
    ('hook-scorers', 'bad', [(H, 'return evaluate(net, self.iter, self.scorers)', 'return evaluate(net, self.iter)')]),
    ('ok-names', 'ok', [(S, """        predicted = net.get(sc.out_name or out_name or net.output_name)
        true_labels = net.get_input(sc.targets_name) if sc.targets_name else net.get_input(targets_name)
""", """        true_labels = net.get_input(sc.targets_name or targets_name)
        used = out_name or net.output_name
        if sc.out_name:
            used = sc.out_name
        predicted = net.get(used)
""")]),
    ('ok-avg', 'ok', [(S, 'return np.sum(errors[:, 1] * errors[:, 0] / np.sum(errors[:, 0]))', """weights, values = errors[:, 0], errors[:, 1]
    return (weights * values).sum() / weights.sum()""")]),
    ('ok-avg-loop', 'ok', [(S, """    errors = np.array(errors)
    assert errors.ndim == 2 and errors.shape[1] == 2
    return np.sum(errors[:, 1] * errors[:, 0] / np.sum(errors[:, 0]))""", """    total = sum((w for w, _ in errors))
    acc = 0.0
    for w, e in errors:
        acc += e * w / total
    return acc""")]),
    ('ok-avg-np', 'ok', [(S, 'return np.sum(errors[:, 1] * errors[:, 0] / np.sum(errors[:, 0]))', 'return np.average(errors[:, 1], weights=errors[:, 0])')]),
    ('ok-dot', 'ok', [(S, 'return np.sum(errors[:, 1] * errors[:, 0] / np.sum(errors[:, 0]))', 'return np.dot(errors[:, 1], errors[:, 0]) / errors[:, 0].sum()')]),
    ('ok-acc', 'ok', [(S, """        if predicted.shape[1] > 1:
            predicted = predicted.argmax(1).reshape(-1, 1)
        correct = (predicted == true_labels).astype(np.float)
        if mask is not None:
            correct *= mask
        return np.sum(correct)
""", """        if predicted.shape[1] > 1:
            predicted = np.argmax(predicted, axis=1)[:, None]
        correct = np.equal(predicted, true_labels).astype(float)
        return (correct if mask is None else correct * mask).sum()
""")]),
    ('ok-ham', 'ok', [(S, """        correct = np.logical_xor(predicted < self.threshold, true_labels).astype(np.float)
        if mask is not None:
            correct *= mask
        return np.sum(correct) / true_labels.shape[1]
""", """        correct = (predicted >= self.threshold) == (true_labels != 0)
        correct = np.float64(1) * correct
        if mask is not None:
            correct = correct * mask
        return np.sum(correct) / float(true_labels.shape[1])
""")]),
    ('ok-mse', 'ok', [(S, """        errors = (true_labels - predicted) ** 2
        if mask is not None:
            errors *= mask
        return 0.5 * np.sum(errors)
""", """        diff = predicted - true_labels
        sq = np.square(diff)
        if mask is not None:
            sq = sq * mask
        return np.sum(sq) / 2.0
""")]),
    ('ok-eval', 'ok', [(T, """    scores = {scorer.__name__: [] for scorer in scorers}
    for n in network.get_loss_values():
        scores[n] = []
    for _ in run_network(network, iterator):
        network.forward_pass()
        gather_losses_and_scores(network, scorers, scores, out_name=out_name, targets_name=targets_name, mask_name=mask_name)
""", """    names = [scorer.__name__ for scorer in scorers]
    names.extend(network.get_loss_values())
    scores = {n: [] for n in names}

    def one():
        network.forward_pass()
        gather_losses_and_scores(network, scorers, scores, out_name, targets_name, mask_name)
    for _ in run_network(network, iterator):
        one()
""")]),
    ('ok-helper', 'ok', [(S, """        mask = net.get_input(sc.mask_name) if sc.mask_name else net.get_input(mask_name) if mask_name else None
        predicted = _flatten_all_but_last(predicted)
        true_labels = _flatten_all_but_last(true_labels)
        mask = _flatten_all_but_last(mask)
        weight = mask.sum() if mask is not None else predicted.shape[0]
""", """        mask = None
        mname = sc.mask_name or mask_name
        if mname:
            mask = net.get_input(mname)
        predicted, true_labels, mask = [_flatten_all_but_last(x) for x in (predicted, true_labels, mask)]
        weight = len(predicted)
        if mask is not None:
            weight = np.sum(mask)
""")]),
]
