"""The swap-and-CNOT flipper: record traces for module Flipper."""
import random

import pipes
from pipes import Env, Pipe
from projectq import MainEngine
from projectq.backends import Simulator
from projectq.cengines import AutoReplacer, DummyEngine, InstructionFilter, SwapAndCNOTFlipper
from projectq.libs.math import AddConstant  # noqa: F401
from projectq.ops import Barrier, Command, H, Measure, Rz, Rzz, SqrtSwap, Swap, SwapGate, T, X, XGate, Z
from projectq.meta import get_control_count
from projectq.types import WeakQubitRef
from record import Tap, delivered, event, gate_name, pat


class Note:
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Note) and other.n == self.n

    def __repr__(self):
        return f'Note{self.n}'


GATES = {'X': (X, 0), 'H': (H, 0), 'T': (T, 0), 'Rz': (Rz(0.4), 0), 'Measure': (Measure, 0), 'Barrier': (Barrier, 0), 'CX': (X, 1), 'nCX': (X, 1),
         'CXT': (X, 1), 'CXTT': (X, 1), 'Swap': (Swap, 0), 'SwapT': (Swap, 0), 'CZ': (Z, 1), 'CH': (H, 1), 'Rzz': (Rzz(0.3), 0), 'SqrtSwap': (SqrtSwap, 0),
         'CCX': (X, 2), 'CSwap': (Swap, 1)}


def run(rec):
    ev, keys = [], []

    def note(o):
        def f(cmd):
            tags = [repr(t) for t in cmd.tags]
            key = (type(cmd.gate).__name__, str(cmd.gate))
            if key not in keys:
                keys.append(key)
            ev.append({'o': o, 'key': keys.index(key), 'n': gate_name(cmd.gate), 't': [q.id for r in cmd.qubits for q in r],
                       'c': [[q.id, int(s)] for q, s in zip(cmd.control_qubits, cmd.control_state)], 'tags': tags})
        return Tap(f)

    eng = MainEngine(DummyEngine(), [note('in'), SwapAndCNOTFlipper({tuple(a) for a in rec['arrows']}), note('out')])
    try:
        for o in rec['prog']:
            g, nc = GATES[o['g']]
            qs = [WeakQubitRef(eng, q) for q in o['q']]
            ctl, tgt = qs[:nc], qs[nc:]
            cmd = Command(eng, g, tuple([q] for q in tgt), ctl, control_state='0' if o['g'] == 'nCX' else '1' * nc)
            cmd.tags = [Note(i) for i in range(o['g'].count('T') if len(o['g']) > 1 else 0)]
            try:
                eng.receive([cmd])
            except Exception:
                ev.append({'o': 'raise', 'key': -1, 'n': '', 't': [], 'c': [], 'tags': []})
    finally:
        eng.active_qubits.clear()
        eng.flush = lambda *a, **k: None
    return {'arrows': rec['arrows'], 'ev': ev}


def text(rec):
    return f'{rec["arrows"]}: ' + ' ; '.join(f'{o["g"]}{o["q"]}' for o in rec['prog'])


def check(ctx, recs):
    traces = [t for _, (t, _) in sorted(ctx.pmap(lambda r: (run(r), None), recs), key=lambda x: x[0])]
    ctx.validate('Flipper', traces, lambda k: 'flipper', lambda k: text(recs[k]))


def arrows_for(k, n=8):
    r = random.Random(k)
    out = []
    for a in range(n):
        for b in range(a + 1, n):
            out += [[(a, b)], [(b, a)], [(a, b), (b, a)]][r.randrange(3)]
    return set(out)


def pipe(k):
    """Every pair is connected in some direction, in front of a simulator."""
    arrows = arrows_for(k, 40)

    def make(seed):
        s = Simulator(rnd_seed=seed)
        ok = lambda eng, cmd: isinstance(cmd.gate, SwapGate) and get_control_count(cmd) == 0 or isinstance(cmd.gate, XGate) and get_control_count(cmd) == 1 and (
            k % 2 == 0 or cmd.control_state == '1') or (get_control_count(cmd) == 0 and sum(len(r) for r in cmd.qubits) == 1)
        rec = []
        env = Env(MainEngine(s, [AutoReplacer(pipes.default_rules()), InstructionFilter(ok), SwapAndCNOTFlipper(arrows), Tap(lambda cmd: rec.append(event(cmd)))]), s)
        env.rec = rec
        return env

    def after(env, flat):
        return delivered(env.rec, [pat('*', 0, 1), pat('X', 1, 2)], topo={'k': 'arrows', 'n': 40, 'e': sorted(map(list, arrows))}, open_=True)

    return Pipe(f'flipper {k}', make, mode='phase', after=after)
