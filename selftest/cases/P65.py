H = 'hooks.py'
CASES = [
    ('le', 'ok', [(H, "imp = last < self.best_so_far", "imp = self.best_so_far > last")]),
    ('swap', 'bad', [(H, "            imp = last < self.best_so_far\n        else:\n            imp = last > self.best_so_far", "            imp = last > self.best_so_far\n        else:\n            imp = last < self.best_so_far")]),
    ('init', 'bad', [(H, "self.best_so_far = np.inf if criterion == 'min' else -np.inf", "self.best_so_far = np.inf if criterion == 'min' else 0")]),
    ('nokeep', 'bad', [(H, "            self.best_so_far = last\n", "")]),
    ('first', 'bad', [(H, "last = e[-1]", "last = e[0]")]),
    ('nan', 'bad', [(H, "imp = last < self.best_so_far", "imp = not last >= self.best_so_far")]),
    ('live', 'bad', [(H, "params = net.get('parameters')", "params = net.buffer.parameters")]),
    ('late', 'bad', [(H, "            except KeyError:\n                return\n        e = get_by_path(logs, self.log_name)\n        last", "            except KeyError:\n                raise\n        e = get_by_path(logs, self.log_name)\n        last")]),
    ('save-always', 'bad', [(H, "        if imp:\n            self.best_so_far = last", "        if self.filename is not None:\n            net.save_as_hdf5(self.filename)\n        if imp:\n            self.best_so_far = last")]),
    ('stat-mean', 'bad', [(H, "            log[key]['avg'] = v.mean()", "            log[key]['avg'] = (v.max() + v.min()) / 2")]),
    ('stat-max', 'bad', [(H, "            key_log['max'] = v.max()", "            key_log['max'] = abs(v).max()")]),
    ('stat-cat', 'bad', [(H, "net.buffer[self.layer_name].gradients.items()", "net.buffer[self.layer_name].parameters.items()")]),
    ('stat-axis', 'bad', [(H, "np.sqrt(np.sum(v ** 2, axis=1)).min()", "np.sqrt(np.sum(v ** 2, axis=0)).min()")]),
    ('stat-shared', 'bad', [(H, "            key_log = input_log[key] = OrderedDict()\n", "            input_log[key] = OrderedDict()\n            key_log = input_log\n")]),
    ('iter', 'bad', [(H, "        self.iter = named_data_iters[self.iter_name]\n\n    def __call__(self, epoch_nr, update_nr, net, stepper, logs):\n        return evaluate(net, self.iter, scorers=())", "        self.iter = named_data_iters['training_data_iter']\n\n    def __call__(self, epoch_nr, update_nr, net, stepper, logs):\n        return evaluate(net, self.iter, scorers=())")]),
    ('noscorers', 'bad', [(H, "return evaluate(net, self.iter, self.scorers)", "return evaluate(net, self.iter)")]),
    ('logs-flat', 'bad', [(H, "SaveLogs._save_recursively(subgroup, log)", "SaveLogs._save_recursively(group, log)")]),
    ('logs-mode', 'bad', [(H, "h5py.File(self.filename, 'w')", "h5py.File(self.filename, 'a')")]),
    ('verbose', 'bad', [(H, "if self.verbose is None:", "if not self.verbose:")]),
    ('info', 'bad', [(H, "info['update_nr'] = update_nr", "info['update_nr'] = epoch_nr")]),
    ('ok-helper', 'ok', [(H, "        for key, v in net.buffer[self.layer_name].gradients.items():\n            v = net.handler.get_numpy_copy(v)\n            log[key] = OrderedDict()\n            log[key]['min'] = v.min()\n            log[key]['avg'] = v.mean()\n            log[key]['max'] = v.max()\n", "        for key, v in net.buffer[self.layer_name].gradients.items():\n            log[key] = self._stats(net.handler.get_numpy_copy(v))\n"), (H, "class MonitorLayerGradients(Hook):\n", "class MonitorLayerGradients(Hook):\n\n    @staticmethod\n    def _stats(v):\n        d = OrderedDict()\n        for name, f in (('min', np.min), ('avg', np.mean), ('max', np.max)):\n            d[name] = f(v)\n        return d\n")]),
    ('ok-imp', 'ok', [(H, "        if self.criterion == 'min':\n            imp = last < self.best_so_far\n        else:\n            imp = last > self.best_so_far\n        if imp:\n            self.best_so_far = last", "        sign = -1 if self.criterion == 'min' else 1\n        if sign * last > sign * self.best_so_far:\n            self.best_so_far = last")]),
    ('ok-verbose', 'ok', [(H, "        if self.verbose is None:\n            self.run_verbosity = verbose\n        else:\n            self.run_verbosity = self.verbose", "        self.run_verbosity = verbose if self.verbose is None else self.verbose")]),
]
