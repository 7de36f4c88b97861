"""Collects obligations and violations of one property."""


class Report(object):
    def __init__(self, pid):
        self.pid = pid
        self.counts = {}
        self.samples = []
        self.violations = []
        self.undecided = []
        self.rules = {}
        self.analysed = set()

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, what, where=''):
        self.counts[rule] = self.counts.get(rule, 0) + 1
        if len(self.samples) < 400:
            self.samples.append('%s: %s%s' % (rule, what,
                                              ' @ ' + where if where else ''))

    def bad(self, rule, construct, msg, where=''):
        self.counts[rule] = self.counts.get(rule, 0) + 1
        key = '%s|%s' % (rule, construct)
        for v in self.violations:
            if v['key'] == key:
                return
        self.violations.append({'key': key, 'rule': rule,
                                'construct': construct, 'message': msg,
                                'where': where})

    def check(self, cond, rule, construct, msg, where=''):
        if cond:
            self.ok(rule, construct, where)
        else:
            self.bad(rule, construct, msg, where)
        return cond

    def skip(self, rule, construct, why):
        self.undecided.append('%s|%s: %s' % (rule, construct, why))

    def saw(self, *names):
        self.analysed.update(names)

    def need(self, rule, n, what):
        """The analysis must have found at least n instances."""
        from .repo import AnalysisBroken
        und = len([u for u in self.undecided if u.startswith(rule + '|')])
        if self.counts.get(rule, 0) + und < n:
            raise AnalysisBroken(
                '%s: rule %s found only %d %s (at least %d are known to '
                'exist)' % (self.pid, rule, self.counts.get(rule, 0), what,
                            n))
