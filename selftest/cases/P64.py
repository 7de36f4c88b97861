S = 'training/schedules.py'
CASES = [
    ('lin-ge', 'ok', [(S, "current // interval > self.num_changes", "current // interval >= self.num_changes")]),
    ('lin-cur', 'bad', [(S, "current // interval > self.num_changes", "current > self.num_changes")]),
    ('lin-div', 'bad', [(S, "/ self.num_changes * (current // interval)", "/ self.num_changes * (current / interval)")]),
    ('lin-off', 'bad', [(S, "/ self.num_changes * (current // interval)", "/ self.num_changes * (current // interval + 1)")]),
    ('exp-clip', 'bad', [(S, "min(self.maximum, max(self.minimum, new_value))", "max(self.maximum, min(self.minimum, new_value))")]),
    ('exp-noclip', 'bad', [(S, "        new_value = min(self.maximum, max(self.minimum, new_value))\n", "        new_value = max(self.minimum, new_value)\n")]),
    ('exp-state', 'bad', [(S, "        new_value = self.initial_value * self.factor ** (current // interval)\n", "        self.initial_value *= self.factor\n        new_value = self.initial_value\n")]),
    ('exp-npclip', 'ok', [(S, "new_value = min(self.maximum, max(self.minimum, new_value))", "new_value = np.clip(new_value, self.minimum, self.maximum)")]),
    ('multi-lt', 'bad', [(S, "if self.steps[i - 1] <= current < self.steps[i]:", "if self.steps[i - 1] < current <= self.steps[i]:")]),
    ('multi-while', 'ok', [(S, "        step_number = 0\n        for i in range(1, len(self.steps)):\n            if self.steps[i - 1] <= current < self.steps[i]:\n                step_number = i - 1\n                break\n        return self.values[step_number]", "        for i in range(1, len(self.steps)):\n            if self.steps[i - 1] <= current < self.steps[i]:\n                return self.values[i - 1]\n        return self.values[0]")]),
    ('multi-ts', 'bad', [(S, "assert interval == 1, 'MultiStep schedule only supports unit intervals'\n        current = epoch_nr if timescale == 'epoch' else update_nr", "assert interval == 1, 'MultiStep schedule only supports unit intervals'\n        current = update_nr")]),
    ('multi-pos', 'bad', [(S, "        step_number = 0\n        for i in range(1, len(self.steps)):\n            if self.steps[i - 1] <= current < self.steps[i]:\n                step_number = i - 1\n                break\n        return self.values[step_number]", "        if current >= self.steps[1]:\n            self.steps.pop(1)\n            self.values.pop(0)\n        return self.values[0]")]),
    ('dec-nop', 'bad', [(S, "np.max([epoch_nr + 1, self.T])", "np.max([epoch_nr, self.T])")]),
    ('dec-max', 'ok', [(S, "np.max([epoch_nr + 1, self.T])", "max(epoch_nr + 1, self.T)")]),
    ('dec-min', 'bad', [(S, "np.max([epoch_nr + 1, self.T])", "np.min([epoch_nr + 1, self.T])")]),
    ('dec-stepper', 'bad', [(S, "return self.initial_value * self.T / np.max", "return stepper.learning_rate * self.T / np.max")]),
]
