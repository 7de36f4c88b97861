T = 'training/trainer.py'
U = 'training/utils.py'
N = 'structure/network.py'
BODY = """            for _ in run_network(net, iterator):
                self.current_update_nr += 1
                self.stepper.run()
                gather_losses_and_scores(net, self.train_scorers, train_scores)
                net.apply_weight_modifiers()
                if self._emit_hooks(net, 'update'):
                    should_stop = True
                    break
"""
CASES = [
    ('hooks-before-modifiers', 'bad', [(T, """                net.apply_weight_modifiers()
                if self._emit_hooks(net, 'update'):
                    should_stop = True
                    break
""", """                if self._emit_hooks(net, 'update'):
                    should_stop = True
                    break
                net.apply_weight_modifiers()
""")]),
    ('modifiers-per-epoch', 'bad', [(T, """                net.apply_weight_modifiers()
                if self._emit""", """                if self._emit"""), (T, """            self._add_log('rolling_training'""", """            net.apply_weight_modifiers()
            self._add_log('rolling_training'""")]),
    ('count-after', 'bad', [(T, """                self.current_update_nr += 1
                self.stepper.run()""", """                self.stepper.run()"""), (T, """                    should_stop = True
                    break
""", """                    should_stop = True
                    break
                self.current_update_nr += 1
""")]),
    ('stop-forgotten', 'bad', [(T, """                    should_stop = True
                    break
""", """                    break
""")]),
    ('stop-overwritten', 'bad', [(T, "should_stop |= self._emit_hooks(net, 'epoch')", "should_stop = self._emit_hooks(net, 'epoch')")]),
    ('short-circuit', 'bad', [(T, "should_stop |= self._emit_hooks(net, 'epoch')", "should_stop = should_stop or self._emit_hooks(net, 'epoch')")]),
    ('stop-continues', 'bad', [(T, """                    should_stop = True
                    break
""", """                    should_stop = True
""")]),
    ('return-at-update', 'bad', [(T, """                    should_stop = True
                    break
""", """                    return
""")]),
    ('initial-stop-ignored', 'bad', [(T, """        if self._emit_hooks(net, 'update') or self._emit_hooks(net, 'epoch'):
            return
""", """        self._emit_hooks(net, 'update')
        if self._emit_hooks(net, 'epoch'):
            return
""")]),
    ('initial-only-epoch', 'bad', [(T, """        if self._emit_hooks(net, 'update') or self._emit_hooks(net, 'epoch'):
            return
""", """        if self._emit_hooks(net, 'epoch'):
            return
""")]),
    ('scores-once', 'bad', [(T, """            train_scores = {s.__name__: [] for s in self.train_scorers}
            train_scores.update({n: [] for n in net.get_loss_values()})
""", ""), (T, """        should_stop = False
        while""", """        train_scores = {s.__name__: [] for s in self.train_scorers}
        train_scores.update({n: [] for n in net.get_loss_values()})
        should_stop = False
        while""")]),
    ('log-after-hooks', 'bad', [(T, """            self._add_log('rolling_training', aggregate_losses_and_scores(train_scores, net, self.train_scorers))
            should_stop |= self._emit_hooks(net, 'epoch')
""", """            should_stop |= self._emit_hooks(net, 'epoch')
            self._add_log('rolling_training', aggregate_losses_and_scores(train_scores, net, self.train_scorers))
""")]),
    ('log-skipped-on-stop', 'bad', [(T, """            self._add_log('rolling_training', aggregate_losses_and_scores(train_scores, net, self.train_scorers))
""", """            if not should_stop:
                self._add_log('rolling_training', aggregate_losses_and_scores(train_scores, net, self.train_scorers))
""")]),
    ('prefetch', 'bad', [(U, """    for i, data in enumerate(iterator):
        net.provide_external_data(data, all_inputs=all_inputs)
        yield i
""", """    for i, data in enumerate(iterator):
        yield i
        net.provide_external_data(data, all_inputs=all_inputs)
""")]),
    ('epoch-reset', 'bad', [(T, """        should_stop = False
        while""", """        self.current_epoch_nr = 0
        should_stop = False
        while""")]),
    ('first-scored-only', 'bad', [(T, """                gather_losses_and_scores(net, self.train_scorers, train_scores)
""", """                if self.verbose:
                    gather_losses_and_scores(net, self.train_scorers, train_scores)
""")]),
    ('restart', 'bad', [(T, """            self.current_epoch_nr += 1
""", """            self.current_epoch_nr += 1
            self.stepper.start(net)
""")]),
    ('skip-missing', 'bad', [(N, "if name not in data.keys() and all_inputs is False:", "if name not in data.keys():")]),
    ('resize-swapped', 'bad', [(N, "self._buffer_manager.resize(time_size, batch_size)\n        for", "self._buffer_manager.resize(batch_size, time_size)\n        for")]),
    # behaviour preserving
    ('helper', 'ok', [(T, BODY, """            if self._run_pass(net, run_network(net, iterator), train_scores):
                should_stop = True
"""), (T, """    def evaluate(self""", """    def _run_pass(self, net, passes, train_scores):
        for _ in passes:
            self.current_update_nr += 1
            self.stepper.run()
            net.apply_weight_modifiers()
            gather_losses_and_scores(net, self.train_scorers, train_scores)
            if self._emit_hooks(net, 'update'):
                return True
        return False

    def evaluate(self""")]),
    ('while-true', 'ok', [(T, """        should_stop = False
        while not should_stop:
""", """        while True:
            should_stop = False
"""), (T, """            should_stop |= self._emit_hooks(net, 'epoch')
""", """            if self._emit_hooks(net, 'epoch') or should_stop:
                break
""")]),
    ('next', 'ok', [(T, """            for _ in run_network(net, iterator):
                self""", """            while True:
                try:
                    batch = next(iterator)
                except StopIteration:
                    break
                net.provide_external_data(batch)
                self""")]),
    ('inline', 'ok', [(T, """            for _ in run_network(net, iterator):
                self""", """            for batch in iterator:
                net.provide_external_data(batch, all_inputs=True)
                stepper = self.stepper
                self""")]),
    ('initial-both', 'ok', [(T, """        if self._emit_hooks(net, 'update') or self._emit_hooks(net, 'epoch'):
            return
""", """        stop = self._emit_hooks(net, 'update')
        if not stop:
            stop = self._emit_hooks(net, 'epoch')
        if stop:
            return None
""")]),
    ('loop-dict', 'ok', [(T, """            train_scores.update({n: [] for n in net.get_loss_values()})
""", """            for n in net.get_loss_values():
                train_scores[n] = []
""")]),
    ('provide-loop', 'ok', [(N, """            if name not in data.keys() and all_inputs is False:
                continue
            if isinstance""", """            if not all_inputs and name not in data:
                continue
            if isinstance""")]),
]
