S = 'training/steppers.py'
H = 'hooks.py'
FW = "        self.net.forward_pass(training_pass=True)\n        self.net.backward_pass()\n"
MOM = "        self.net.handler.mult_st(momentum, self.velocity, out=self.velocity)\n"
CASES = [
    ('eval-mode', 'bad', [(S, "self.net.handler.mult_st(-self.learning_rate", "self.net.forward_pass(training_pass=True)\n        self.net.handler.mult_st(-self.learning_rate")]),
    ('notrain', 'bad', [(S, FW + "        self.net.handler.mult_st(-self.learning_rate", "        self.net.forward_pass()\n        self.net.backward_pass()\n        self.net.handler.mult_st(-self.learning_rate")]),
    ('positional', 'ok', [(S, FW + "        self.net.handler.mult_st(-self.learning_rate", "        self.net.forward_pass(True)\n        self.net.backward_pass()\n        self.net.handler.mult_st(-self.learning_rate")]),
    ('swap', 'bad', [(S, FW + "        self.net.handler.mult_st(-self.learning_rate", "        self.net.backward_pass()\n        self.net.forward_pass(training_pass=True)\n        self.net.handler.mult_st(-self.learning_rate")]),
    ('sgd-plus', 'bad', [(S, "mult_st(-self.learning_rate", "mult_st(self.learning_rate")]),
    ('sgd-grad', 'bad', [(S, "self.net.buffer.gradients, out=self.update)\n        self.net.handler.add_tt(self.update, self.net.buffer.parameters", "self.net.buffer.gradients, out=self.net.buffer.gradients)\n        self.net.handler.add_tt(self.net.buffer.gradients, self.net.buffer.parameters")]),
    ('sgd-multadd', 'ok', [(S, "        self.net.handler.mult_st(-self.learning_rate, self.net.buffer.gradients, out=self.update)\n        self.net.handler.add_tt(self.update, self.net.buffer.parameters, out=self.net.buffer.parameters)", "        net = self.net\n        net.handler.mult_add_st(-self.learning_rate, net.buffer.gradients, out=net.buffer.parameters)")]),
    ('sgd-sub', 'ok', [(S, "        self.net.handler.mult_st(-self.learning_rate, self.net.buffer.gradients, out=self.update)\n        self.net.handler.add_tt(self.update, self.net.buffer.parameters, out=self.net.buffer.parameters)", "        self.net.handler.mult_st(self.learning_rate, self.net.buffer.gradients, out=self.update)\n        self.net.handler.subtract_tt(self.net.buffer.parameters, self.update, out=self.net.buffer.parameters)")]),
    ('sgd-late-grad', 'bad', [(S, FW + "        self.net.handler.mult_st(-self.learning_rate, self.net.buffer.gradients, out=self.update)\n", "        self.net.handler.mult_st(-self.learning_rate, self.net.buffer.gradients, out=self.update)\n" + FW)]),
    ('mom-noscale', 'bad', [(S, "        if self.scale_learning_rate:\n            learning_rate *= (1 - momentum)\n\n" if 0 else "            learning_rate *= 1 - momentum\n        self.net.forward_pass", "            learning_rate *= momentum\n        self.net.forward_pass")]),
    ('mom-selfscale', 'bad', [(S, "            learning_rate *= 1 - momentum\n        self.net.forward_pass", "            self.learning_rate *= 1 - momentum\n        self.net.forward_pass")]),
    ('mom-ifexp', 'ok', [(S, "        if self.scale_learning_rate:\n            learning_rate *= 1 - momentum\n        self.net.forward_pass", "        learning_rate = learning_rate * (1 - momentum) if self.scale_learning_rate else learning_rate\n        self.net.forward_pass")]),
    ('mom-order', 'bad', [(S, MOM + "        self.net.handler.mult_add_st(-learning_rate, self.net.buffer.gradients, out=self.velocity)\n", "        self.net.handler.mult_add_st(-learning_rate, self.net.buffer.gradients, out=self.velocity)\n" + MOM)]),
    ('mom-early-mult', 'ok', [(S, FW + MOM, MOM + FW)]),
    ('mom-start-super', 'bad', [(S, "        super(MomentumStepper, self).start(net)\n        self.velocity = net.handler.zeros(net.buffer.parameters.shape)", "        super(MomentumStepper, self).start(net)\n        if self.velocity is None:\n            self.velocity = net.handler.zeros(net.buffer.parameters.shape)")]),
    ('mom-alloc', 'bad', [(S, "self.velocity = net.handler.zeros(net.buffer.parameters.shape)", "self.velocity = net.handler.allocate(net.buffer.parameters.shape)")]),
    ('mom-ones', 'bad', [(S, "self.velocity = net.handler.zeros(net.buffer.parameters.shape)", "self.velocity = net.handler.ones(net.buffer.parameters.shape)")]),
    ('mom-allocfill', 'ok', [(S, "self.velocity = net.handler.zeros(net.buffer.parameters.shape)", "self.velocity = net.handler.allocate(net.buffer.parameters.shape)\n        net.handler.fill(self.velocity, 0.0)")]),
    ('mom-nostart', 'bad', [(S, "        super(MomentumStepper, self).start(net)\n", "")]),
    ('nes-lookahead', 'bad', [(S, MOM + "        self.net.handler.add_tt(self.velocity, self.net.buffer.parameters, out=self.net.buffer.parameters)\n" + FW, FW + MOM + "        self.net.handler.add_tt(self.velocity, self.net.buffer.parameters, out=self.net.buffer.parameters)\n")]),
    ('nes-novel', 'bad', [(S, "        self.net.handler.mult_add_st(-learning_rate, self.net.buffer.gradients, self.velocity)\n", "")]),
    ('nes-double', 'bad', [(S, "        self.net.handler.mult_add_st(-learning_rate, self.net.buffer.gradients, self.net.buffer.parameters)", "        self.net.handler.add_tt(self.velocity, self.net.buffer.parameters, self.net.buffer.parameters)")]),
    ('nes-helper', 'ok', [(S, "        self.net.handler.mult_add_st(-learning_rate, self.net.buffer.gradients, self.net.buffer.parameters)", "        self._descend(learning_rate)\n\n    def _descend(self, rate):\n        buf = self.net.buffer\n        self.net.handler.mult_add_st(-rate, buf.gradients, buf.parameters)")]),
    ('fwd-mode', 'bad', [(S, "self.net.forward_pass(training_pass=self.use_training_pass)", "self.net.forward_pass(training_pass=True)")]),
    ('sched-args', 'bad', [(H, "self.schedule(epoch_nr, update_nr, self.timescale", "self.schedule(update_nr, epoch_nr, self.timescale")]),
    ('sched-cond', 'bad', [(H, "        setattr(stepper, self.attr_name, self.schedule(", "        if epoch_nr > 0:\n            setattr(stepper, self.attr_name, self.schedule(")]),
    ('sched-local', 'ok', [(H, "        setattr(stepper, self.attr_name, self.schedule(epoch_nr, update_nr, self.timescale, self.interval, net, stepper, logs))", "        value = self.schedule(epoch_nr, update_nr, self.timescale, self.interval, net, stepper, logs)\n        setattr(stepper, self.attr_name, value)")]),
]
