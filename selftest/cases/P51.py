V = 'structure/view_references.py'
N = 'structure/network.py'
M = 'value_modifiers.py'
T = 'training/trainer.py'
WM = "                for wm in weight_mods:\n"
CASES = [
    ('wm-rev', 'bad', [(N, "for wm in weight_mods:", "for wm in reversed(weight_mods):")]),
    ('wm-list', 'ok', [(N, "for wm in weight_mods:", "for wm in list(weight_mods):")]),
    ('wm-first', 'bad', [(N, "for wm in weight_mods:", "for wm in weight_mods[:1]:")]),
    ('wm-grad', 'bad', [(N, "wm(self.handler, self.buffer[layer_name].parameters[view_name])", "wm(self.handler, self.buffer[layer_name].gradients[view_name])")]),
    ('wm-local', 'ok', [(N, "wm(self.handler, self.buffer[layer_name].parameters[view_name])", "params = self.buffer[layer_name].parameters\n                    wm(self.handler, params[view_name])")]),
    ('wm-kw', 'ok', [(N, "wm(self.handler, self.buffer[layer_name].parameters[view_name])", "wm(self.handler, view=self.buffer[layer_name]['parameters'][view_name])")]),
    ('gm-swap', 'bad', [(N, "gm(self.handler, self.buffer[layer_name].parameters[view_name], self.buffer[layer_name].gradients[view_name])", "gm(self.handler, self.buffer[layer_name].gradients[view_name], self.buffer[layer_name].parameters[view_name])")]),
    ('gm-params', 'bad', [(N, "                        gm(self.handler, self.buffer[layer_name].gradients[view_name])", "                        gm(self.handler, self.buffer[layer_name].parameters[view_name])")]),
    ('gm-sorted', 'ok', [(N, "for layer_name, views in self.gradient_modifiers.items():", "for layer_name, views in sorted(self.gradient_modifiers.items()):")]),
    ('gm-notlast', 'bad', [(N, "            layer.backward_pass(self.buffer[layer_name])\n        self.apply_gradient_modifiers()", "            layer.backward_pass(self.buffer[layer_name])\n            self.apply_gradient_modifiers()")]),
    ('gm-first', 'bad', [(N, "        self._buffer_manager.clear_backward_buffers()\n", "        self._buffer_manager.clear_backward_buffers()\n        self.apply_gradient_modifiers()\n"), (N, "            layer.backward_pass(self.buffer[layer_name])\n        self.apply_gradient_modifiers()", "            layer.backward_pass(self.buffer[layer_name])")]),
    ('gm-cond', 'ok', [(N, "            layer.backward_pass(self.buffer[layer_name])\n        self.apply_gradient_modifiers()", "            layer.backward_pass(self.buffer[layer_name])\n        return self.apply_gradient_modifiers()")]),
    ('train-before', 'bad', [(T, "                self.stepper.run()\n", "                net.apply_weight_modifiers()\n                self.stepper.run()\n"), (T, "gather_losses_and_scores(net, self.train_scorers, train_scores)\n                net.apply_weight_modifiers()\n", "gather_losses_and_scores(net, self.train_scorers, train_scores)\n")]),
    ('train-epoch', 'bad', [(T, "gather_losses_and_scores(net, self.train_scorers, train_scores)\n                net.apply_weight_modifiers()\n", "gather_losses_and_scores(net, self.train_scorers, train_scores)\n"), (T, "            self._add_log('rolling_training'", "            net.apply_weight_modifiers()\n            self._add_log('rolling_training'")]),
    ('train-order', 'ok', [(T, "gather_losses_and_scores(net, self.train_scorers, train_scores)\n                net.apply_weight_modifiers()\n", "net.apply_weight_modifiers()\n                gather_losses_and_scores(net, self.train_scorers, train_scores)\n")]),
    ('train-afterhooks', 'bad', [(T, "                net.apply_weight_modifiers()\n                if self._emit_hooks(net, 'update'):\n                    should_stop = True\n                    break", "                if self._emit_hooks(net, 'update'):\n                    should_stop = True\n                    break\n                net.apply_weight_modifiers()")]),
    ('copy-rev', 'bad', [(V, "for mod in setofmodifiers:", "for mod in reversed(list(setofmodifiers)):")]),
    ('copy-listfirst', 'bad', [(V, "for m in mod])", "for m in mod[:1]])")]),
    ('copy-insert', 'ok', [(V, "l.extend([copy_modifier_for(m, layer_name, view_name) for m in mod])", "for m in mod:\n                        l.append(copy_modifier_for(m, layer_name, view_name))")]),
    ('copy-sorted', 'bad', [(V, "for m in mod])", "for m in sorted(mod, key=str)])")]),
    ('ordered-set', 'bad', [(V, "return Node(OrderedSet(), OrderedSet(), OrderedSet())", "return Node(set(), set(), set())")]),
    ('set-only-first', 'bad', [(N, "self.weight_modifiers = order_and_copy_modifiers(weight_mods)", "self.weight_modifiers = order_and_copy_modifiers(fallback)")]),
    ('set-grad-params', 'bad', [(N, "all_parameters = {k: v.gradients for", "all_parameters = {k: v.parameters for")]),
    ('set-isinstance', 'ok', [(N, "all_parameters = {k: v.gradients for k, v in self.buffer.items() if k not in ['parameters', 'gradients'] and 'gradients' in v}", "all_parameters = {k: v.gradients for k, v in self.buffer.items() if isinstance(v, BufferView) and 'gradients' in v}")]),
    ('clip-swap', 'bad', [(M, "handler.clip_t(view, self.low, self.high, view)", "handler.clip_t(view, self.high, self.low, view)")]),
    ('clip-abs', 'bad', [(M, "handler.clip_t(view, self.low, self.high, view)", "handler.clip_t(view, -self.high, self.high, view)")]),
    ('clip-kw', 'ok', [(M, "handler.clip_t(view, self.low, self.high, view)", "handler.clip_t(view, a_min=self.low, a_max=self.high, out=view)")]),
    ('l2-wrong', 'bad', [(M, "1 / self.limit", "1 / self.limit ** 2")]),
    ('l2-axis', 'bad', [(M, "axis=1, out=sq_norm", "axis=0, out=sq_norm")]),
    ('l2-noclip', 'bad', [(M, "a_min=1.0", "a_min=0.0")]),
    ('l2-rank', 'bad', [(M, "if len(view.shape) < 2:", "if len(view.shape) != 2:")]),
    ('l2-sq', 'bad', [(M, "sq_norm ** 0.5", "sq_norm")]),
    ('l2-div', 'ok', [(M, "handler.mult_st(1 / self.limit, sq_norm ** 0.5, out=divisor)", "handler.mult_st(1.0 / self.limit, np.sqrt(sq_norm), out=divisor)")]),
    ('l2-sqrt_t', 'ok', [(M, "handler.mult_st(1 / self.limit, sq_norm ** 0.5, out=divisor)", "handler.sqrt_t(sq_norm, out=divisor)\n        handler.mult_st(1 / self.limit, divisor, out=divisor)")]),
    ('mask-params', 'bad', [(M, "handler.mult_tt(view, self.device_mask, view)", "handler.mult_tt(view, self.device_mask, self.device_mask)")]),
    ('mask-once', 'bad', [(M, "            handler.set_from_numpy(self.device_mask, self.mask)\n        handler.mult_tt(view, self.device_mask, view)", "            handler.set_from_numpy(self.device_mask, self.mask)\n            handler.mult_tt(view, self.device_mask, view)")]),
    ('mask-commute', 'ok', [(M, "handler.mult_tt(view, self.device_mask, view)", "handler.mult_tt(self.device_mask, view, out=view)")]),
    ('mask-handler', 'bad', [(M, "if self.device_mask is None or not isinstance(self.device_mask, handler.array_type):", "if self.device_mask is None:")]),
    ('freeze-late', 'bad', [(M, "        if self.weights is None:\n            self.weights = handler.get_numpy_copy(view)\n", "        if self.weights is None:\n            self.weights = handler.get_numpy_copy(view)\n            return\n")]),
    ('freeze-back', 'bad', [(M, "handler.copy_to(self.device_weights, view)", "handler.copy_to(view, self.device_weights)")]),
    ('l1-grad', 'bad', [(M, "handler.sign_t(parameters, out=tmp)", "handler.sign_t(gradients, out=tmp)")]),
    ('l1-params', 'bad', [(M, "handler.sign_t(parameters, out=tmp)\n        handler.mult_add_st(self.factor, tmp, out=gradients)", "handler.sign_t(parameters, out=parameters)\n        handler.mult_add_st(self.factor, parameters, out=gradients)")]),
    ('l2d-over', 'bad', [(M, "handler.mult_add_st(self.factor, parameters, out=gradients)", "handler.mult_st(self.factor, parameters, out=gradients)")]),
    ('l2d-sign', 'bad', [(M, "handler.mult_add_st(self.factor, parameters, out=gradients)", "handler.mult_add_st(-self.factor, parameters, out=gradients)")]),
    ('l2d-tmp', 'ok', [(M, "handler.mult_add_st(self.factor, parameters, out=gradients)", "tmp = handler.allocate(parameters.shape)\n        handler.mult_st(self.factor, parameters, out=tmp)\n        handler.add_tt(gradients, tmp, out=gradients)")]),
]
