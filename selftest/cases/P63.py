H = 'hooks.py'
S = 'scorers.py'
T = 'tools.py'
PAR = """        for key, v in net.buffer[self.layer_name].parameters.items():
            v = net.handler.get_numpy_copy(v)
            log[key] = OrderedDict()
"""
GRAD = """        for key, v in net.buffer[self.layer_name].gradients.items():
            v = net.handler.get_numpy_copy(v)
            log[key] = OrderedDict()
"""
CASES = [
    ('train-mode', 'bad', [(T, """        network.forward_pass()
        gather""", """        network.forward_pass(training_pass=True)
        gather""")]),
    ('train-mode-extract', 'bad', [(T, """        network.forward_pass()
        first_pass = False if len(return_data)""", """        network.forward_pass(True)
        first_pass = False if len(return_data)""")]),
    ('abs-inplace', 'bad', [(H, PAR, """        for key, v in net.buffer[self.layer_name].parameters.items():
            np.abs(v, out=v)
            log[key] = OrderedDict()
""")]),
    ('aug-inplace', 'bad', [(H, GRAD, """        for key, v in net.buffer[self.layer_name].gradients.items():
            v = v.reshape(-1)
            v -= v.mean()
            log[key] = OrderedDict()
""")]),
    ('handler-fill', 'bad', [(H, GRAD, GRAD + """            net.handler.fill(net.buffer[self.layer_name].gradients[key], 0.0)
""")]),
    ('mask-inplace', 'bad', [(S, """        errors = (true_labels - predicted) ** 2
        if mask""", """        if mask is not None:
            predicted *= mask
        errors = (true_labels - predicted) ** 2
        if mask""")]),
    ('threshold-inplace', 'bad', [(S, """        correct = np.logical_xor(predicted < self.threshold""", """        predicted[predicted < self.threshold] = 0
        correct = np.logical_xor(predicted < self.threshold""")]),
    ('log-pop', 'bad', [(H, """        best_idx = np.argmin(e) if""", """        while len(e) > 100:
            e.pop(0)
        best_idx = np.argmin(e) if""")]),
    ('stepper-lr', 'bad', [(H, """        if imp:
            self.best_so_far = last""", """        if not imp:
            stepper.learning_rate *= 0.5
        if imp:
            self.best_so_far = last""")]),
    ('backward', 'bad', [(H, "        return evaluate(net, self.iter, scorers=())", "        log = evaluate(net, self.iter, scorers=())\n        net.backward_pass()\n        return log")]),
    ('helper', 'ok', [(H, PAR, """        for key, w in net.buffer[self.layer_name].parameters.items():
            v = self._fetch(net, w)
            log[key] = OrderedDict()
"""), (H, "class MonitorLayerParameters(Hook):\n", """class MonitorLayerParameters(Hook):

    @staticmethod
    def _fetch(net, w):
        v = net.handler.get_numpy_copy(w)
        v *= 1
        return v
""")]),
    ('copy-ok', 'ok', [(S, """        errors = (true_labels - predicted) ** 2
        if mask""", """        errors = true_labels - predicted
        errors *= errors
        if mask""")]),
    ('explicit-false', 'ok', [(T, """        network.forward_pass()
        gather""", """        network.forward_pass(training_pass=False)
        gather""")]),
]
