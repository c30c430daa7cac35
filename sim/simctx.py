"""What a property module sees: violations, the run context, plan helpers."""
import hashlib


class Violation(Exception):
    """The property is broken. sig is a short stable class of failure."""

    def __init__(self, sig, msg=''):
        Exception.__init__(self, sig, msg)
        self.sig = sig
        self.msg = msg


class HarnessError(Exception):
    """The simulator could not do its work (never reported as a violation)."""


class Ctx:
    MAXSTATES = 4000

    def __init__(self):
        self.h = hashlib.blake2b(digest_size=16)
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.steps = 0
        self.simtime = 0.0
        self.keep = None      # set to a list to keep the log text

    def log(self, *a):
        s = ' '.join(map(str, a))
        self.h.update(s.encode('utf-8', 'backslashreplace') + b'\n')
        if self.keep is not None:
            self.keep.append(s)

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        if n:
            self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        """Record an abstract state reached (measure of distinct coverage)."""
        if len(self.states) < self.MAXSTATES:
            self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=7).hexdigest())

    def step(self, n=1):
        self.steps += n

    def result(self):
        return dict(log=self.h.hexdigest(), faults=self.faults, probes=self.probes,
                    states=sorted(self.states), steps=self.steps, simtime=self.simtime)


def need(cond, sig, msg=''):
    if not cond:
        raise Violation(sig, msg() if callable(msg) else msg)
