"""Core of the simulator: seeded choices, event log, virtual clock, verdicts."""
import hashlib
import json
import os
import random
import sys

EPOCH0 = 1542000000.0   # virtual time at the start of each run (s)
TRAIN_RATE = 10.0       # trains per second at European XFEL


class Violation(Exception):
    """The code under test broke the property."""
    def __init__(self, cls, msg):
        super().__init__("%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    """The simulator itself failed: never a verdict on the code."""


def rng(*key):
    return random.Random(':'.join(map(str, key)))


def check(cond, cls, msg, *args):
    if not cond:
        raise Violation(cls, msg % args if args else msg)


class Ctx:
    """Everything one simulated run records."""
    def __init__(self, prop, shim=None, verbose=False):
        self.prop = prop
        self.shim = shim
        self.hash = hashlib.sha256()
        self.nevents = 0
        self.tail = []            # last events, for the report
        self.verbose = verbose
        self.now = EPOCH0         # virtual clock
        self.faults = {}          # fault kind -> times it actually fired
        self.probes = {}          # rare condition -> times reached
        self.states = set()       # distinct abstract states / interleavings
        self.evals = 0            # oracle evaluations
        self.armed = False
        self.deadline = None

    def ev(self, *fields):
        line = json.dumps(fields, sort_keys=True, default=str)
        self.hash.update(line.encode())
        self.nevents += 1
        self.tail.append(line if len(line) < 400 else line[:400] + '...')
        if len(self.tail) > 60:
            del self.tail[:20]
        if self.verbose:
            print('EV', line[:2000], file=sys.stderr)

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        if n:
            self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *sig):
        self.states.add(hashlib.sha1(repr(sig).encode()).hexdigest()[:12])

    def advance(self, dt):
        self.now += dt

    def result(self, status, cls='', msg=''):
        return {
            'status': status, 'cls': cls, 'msg': msg[:4000],
            'hash': self.hash.hexdigest(), 'nevents': self.nevents,
            'tail': self.tail[-40:] if status != 'ok' else [],
            'faults': self.faults, 'probes': self.probes,
            'states': sorted(self.states), 'evals': self.evals,
            'simtime': round(self.now - EPOCH0, 3),
        }


def weighted(r, table):
    """Pick a key of {key: weight}."""
    keys = list(table)
    return r.choices(keys, [table[k] for k in keys])[0]


def digest(x):
    return hashlib.sha1(x if isinstance(x, bytes) else repr(x).encode()).hexdigest()[:10]
