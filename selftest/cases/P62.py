T = 'training/trainer.py'
H = 'hooks.py'
LOOP = """        for name, hook in self.hooks.items():
            if hook.timescale != timescale or count % hook.interval != 0:
                continue
            hook_log, stop = self._call_hook(hook, net)
            should_stop |= stop
            self._add_log(name, hook_log, hook.verbose, logs=logs)
        return should_stop
"""
CASES = [
    ('update-count', 'bad', [(T, "count = self.current_epoch_nr if timescale == 'epoch' else self.current_update_nr", "count = self.current_update_nr")]),
    ('first-skipped', 'bad', [(T, "if hook.timescale != timescale or count % hook.interval != 0:", "if hook.timescale != timescale or (count + 1) % hook.interval != 0:")]),
    ('zero-skipped', 'bad', [(T, "if hook.timescale != timescale or count % hook.interval != 0:", "if hook.timescale != timescale or count == 0 or count % hook.interval != 0:")]),
    ('stop-last', 'bad', [(T, "should_stop |= stop", "should_stop = stop")]),
    ('stop-breaks', 'bad', [(T, """            self._add_log(name, hook_log, hook.verbose, logs=logs)
        return should_stop""", """            self._add_log(name, hook_log, hook.verbose, logs=logs)
            if should_stop:
                break
        return should_stop""")]),
    ('log-class', 'bad', [(T, "self._add_log(name, hook_log, hook.verbose, logs=logs)", "self._add_log(hook.__class__.__name__, hook_log, hook.verbose, logs=logs)")]),
    ('log-results', 'bad', [(T, "self._add_log(name, hook_log, hook.verbose, logs=logs)", "self._add_log(name, hook_log, hook.verbose)")]),
    ('swallow', 'bad', [(T, "            print(traceback.format_exc())\n            raise e", "            print(traceback.format_exc())\n            return (None, False)")]),
    ('swallow-stop', 'bad', [(T, "return (getattr(err, 'value', None), True)", "return (getattr(err, 'value', None), False)")]),
    ('all-stop', 'bad', [(T, "        except StopIteration as err:", "        except Exception as err:")]),
    ('skip-log-zero', 'bad', [(T, "        if val is None:\n            return", "        if not val:\n            return")]),
    ('log-replaced', 'bad', [(T, "logs[name] = [] if name not in logs else logs[name]", "logs[name] = []")]),
    ('nested-top', 'bad', [(T, "self._add_log(k, v, verbose, logs[name], indent + 2)", "self._add_log(k, v, verbose, logs, indent + 2)")]),
    ('prio', 'bad', [(T, "hook.priority = max([h.priority for h in self.hooks.values()]) + 1", "hook.priority = max(h.priority for h in self.hooks.values())")]),
    ('prio-len', 'bad', [(T, "hook.priority = max([h.priority for h in self.hooks.values()]) + 1", "hook.priority = len(self.hooks)")]),
    ('dup', 'bad', [(T, "        if hook.__name__ in self.hooks:\n            raise ValueError(\"Hook '{}' already exists.\".format(hook.__name__))\n", "")]),
    ('desc-order', 'bad', [(T, "sorted(self.hooks.items(), key=get_priority)", "sorted(self.hooks.items())")]),
    ('patience', 'bad', [(H, "if len(e) > best_idx + self.patience:", "if len(e) >= best_idx + self.patience:")]),
    ('patience-crit', 'bad', [(H, "best_idx = np.argmin(e) if self.criterion == 'min' else np.argmax(e)", "best_idx = np.argmin(e)")]),
    ('epoch-gt', 'bad', [(H, "if epoch_nr >= self.max_epochs:", "if epoch_nr == self.max_epochs:")]),
    ('thr-last', 'bad', [(H, "self.criterion == 'max' and max(e) >= self.threshold", "self.criterion == 'max' and max(e) > self.threshold")]),
    ('nan-only', 'bad', [(H, "            if not np.all(np.isfinite(loss)):", "            if np.any(np.isnan(loss)):")]),
    ('nan-last', 'bad', [(H, "            if not np.all(np.isfinite(loss)):", "            if not np.isfinite(loss[0]):")]),
    ('nan-params', 'bad', [(H, "        if self.check_parameters:\n", "        if self.check_parameters and epoch_nr > 0:\n")]),
    ('quit', 'bad', [(H, "        self.message('Interrupting')\n        self.quit = True", "        self.message('Interrupting')\n        self.quit = not self.quit")]),
    ('quit-start', 'bad', [(H, "        self.quit = False\n        signal.signal", "        signal.signal")]),
    ('eval-logs', 'bad', [(T, "self._emit_hooks(net, 'update', logs=self.results)", "self._emit_hooks(net, 'update')")]),
    ('start-swallow', 'bad', [(T, "\"{}\" hook:'.format(name), file=sys.stderr)\n                raise", "\"{}\" hook:'.format(name), file=sys.stderr)")]),
    # behaviour preserving
    ('filter', 'ok', [(T, LOOP, """        for name, hook in list(self.hooks.items()):
            if hook.timescale == timescale and count % hook.interval == 0:
                hook_log, stop = self._call_hook(hook, net)
                if stop:
                    should_stop = True
                self._add_log(name, hook_log, verbose=hook.verbose, logs=logs)
        return should_stop
""")]),
    ('keys', 'ok', [(T, LOOP, """        for name in self.hooks:
            hook = self.hooks[name]
            if self._due(hook, timescale, count):
                hook_log, stop = self._call_hook(hook, net)
                self._add_log(name, hook_log, hook.verbose, logs=logs)
                should_stop = should_stop or stop
        return should_stop

    @staticmethod
    def _due(hook, timescale, count):
        if hook.timescale != timescale:
            return False
        return not count % hook.interval
""")]),
    ('inlined', 'ok', [(T, """            hook_log, stop = self._call_hook(hook, net)
""", """            stop = False
            try:
                hook_log = hook(self.current_epoch_nr, self.current_update_nr, net, self.stepper, self.logs)
            except StopIteration as err:
                hook_log = getattr(err, 'value', None)
                stop = True
""")]),
    ('prio-ok', 'ok', [(T, "        self.hooks[hook.__name__] = hook\n        hook.priority = max([h.priority for h in self.hooks.values()]) + 1", "        hook.priority = max([hook.priority] + [h.priority for h in self.hooks.values()]) + 1\n        self.hooks[hook.__name__] = hook")]),
    ('log-setdefault', 'ok', [(T, "            logs[name] = [] if name not in logs else logs[name]\n            logs[name].append(val)", "            logs.setdefault(name, []).append(val)")]),
    ('thr-any', 'ok', [(H, """        is_threshold_reached = False
        if self.criterion == 'max' and max(e) >= self.threshold:
            is_threshold_reached = True
        elif self.criterion == 'min' and min(e) <= self.threshold:
            is_threshold_reached = True
""", """        if self.criterion == 'max':
            is_threshold_reached = any(x >= self.threshold for x in e)
        else:
            is_threshold_reached = np.min(e) <= self.threshold
""")]),
    ('early-len', 'ok', [(H, "if len(e) > best_idx + self.patience:", "if len(e) - 1 - best_idx >= self.patience:")]),
]
