"""Circuits on registers too wide for a state vector: recorded as streams of commands for module WideCircuit."""
import math
import sys

import arith
import mathpipes
from pipes import Recorder
from pq import MATH_NAMES, make_gate
from projectq import MainEngine
from projectq.cengines import AutoReplacer, DummyEngine, InstructionFilter, LocalOptimizer
from projectq.meta import Control
from projectq.ops import (QFT, QPE, AllocateQubitGate, BarrierGate, DeallocateQubitGate, FlushGate, HGate, Ph, R, Rz, SGate, SwapGate, TGate, XGate, ZGate,
                          get_inverse)
from projectq.ops._metagates import DaggeredGate

KEEP = []   # qubits that are never returned
U = 29      # phases are multiples of 2 pi / 2^U


def units(angle):
    k = angle / (2 * math.pi) * 2**U
    n = round(k)
    return n % 2**U if abs(k - n) < 0.01 else None


def known(eng, cmd):
    """The gates that module Product follows, with any number of positive controls."""
    g = cmd.gate
    if isinstance(g, (AllocateQubitGate, DeallocateQubitGate, FlushGate, BarrierGate)):
        return True
    if '0' in cmd.control_state:
        return False
    return isinstance(g, (XGate, HGate, R, Ph, SwapGate, ZGate, SGate, TGate)) or g in (get_inverse(SGate()), get_inverse(TGate()))


def few_controls(eng, cmd):
    """One or two controls for X, none or one for swaps."""
    n = len(cmd.control_qubits)
    return known(eng, cmd) and (isinstance(cmd.gate, (R, Ph)) or n <= (2 if isinstance(cmd.gate, XGate) else 1))


def events(cmd):
    g = cmd.gate
    t = [q.id for r in cmd.qubits for q in r]
    c = [[q.id, int(s)] for q, s in zip(cmd.control_qubits, cmd.control_state)]
    one = lambda n, t, c, k=0: {'n': n, 't': t, 'c': c, 'k': k}  # noqa: E731
    phase = lambda a, c: one('Phase', [], c, units(a)) if units(a) is not None else one('other', [], c)  # noqa: E731
    if isinstance(g, AllocateQubitGate):
        return [one('new', t, [])]
    if isinstance(g, DeallocateQubitGate):
        return [one('free', t, [])]
    if isinstance(g, (FlushGate, BarrierGate)):
        return []
    if isinstance(g, XGate):
        return [one('X', t, c)]
    if isinstance(g, HGate):
        return [one('H', t, c)]
    if isinstance(g, SwapGate):
        return [one('Swap', t, c)]
    if isinstance(g, Ph):
        return [phase(g.angle, c)]
    if isinstance(g, R):
        return [phase(g.angle, c + [[t[0], 1]])]
    if isinstance(g, Rz):
        return [phase(-g.angle / 2, c), phase(g.angle, c + [[t[0], 1]])]
    sign = 1
    if isinstance(g, DaggeredGate):
        g, sign = g._gate, -1
    for cls, a in ((ZGate, 1), (SGate, 2), (TGate, 4)):
        if isinstance(g, cls):
            return [phase(sign * math.pi / a, c + [[t[0], 1]])]
    return [one('other', t, c)]


def engines(k):
    ok = [known, known, few_controls, few_controls][k % 4]
    rep = [AutoReplacer(mathpipes.all_rules() if k % 4 > 1 else mathpipes.math_rules(*EXTRA)), InstructionFilter(ok)]
    return [LocalOptimizer(7)] + rep + [LocalOptimizer(7)] if k % 2 else rep


EXTRA = ('phaseestimation',)


def run(gl, k):
    """The recorded trace for a goal."""
    rec = Recorder()
    eng = MainEngine(DummyEngine(), engines(k) + [rec])
    n = sum(gl['w'])
    qs = eng.allocate_qureg(n + len(gl['c']))
    eng.flush()
    KEEP.append((eng, qs))
    at = len(rec.commands)
    t, cq = list(qs[:n]), list(qs[n:])
    g, p = gl['g']['n'], gl['g']['p']

    def body():
        if g == 'QFT':
            QFT | t
        elif g == 'QFTdag':
            get_inverse(QFT) | t
        elif g in ('QPE', 'QPEf'):
            a = 2 * math.pi * p[1] / 2 ** p[0]

            def power(system, time):
                R(a * time) | system[0]

            QPE(R(a) if g == 'QPE' else power) | (t[:-1], t[-1:])
        else:
            regs, o = [], 0
            for w in gl['w']:
                regs.append(t[o : o + w])
                o += w
            make_gate(gl['g'], n)[0] | tuple(regs)

    try:
        if cq:
            with Control(eng, cq, ctrl_state=''.join(str(s) for _, s in gl['c'])):
                body()
        else:
            body()
        eng.flush()
        ids = {q.id: j for j, q in enumerate(qs)}
        ev = [e for c in rec.commands[at:] for e in events(c)]
        return {'goal': {x: gl[x] for x in 'gxc'}, 't': [q.id for q in t], 'cq': [q.id for q in cq], 'ev': ev}
    finally:
        eng.active_qubits.clear()
        eng.flush = lambda *a, **k: None


def text(gl):
    return f'{gl["g"]["n"]}{gl["g"]["p"]} on {gl["x"]}' + (f' with controls {gl["c"]} (value, state)' if gl['c'] else '')


def check(ctx, goals, timeout=800):
    traces, kept = [], []
    for j, (tr, why) in sorted(ctx.pmap(lambda a: _one(*a), [(gl, i) for i, gl in enumerate(goals)]), key=lambda x: x[0]):
        if why and 'ValueError' in why and arith.may_refuse(goals[j]['g'], len(goals[j]['c'])):
            ctx.count('wide_refused')
        elif why:
            ctx.violation(f'wide {goals[j]["g"]["n"]}: {why}'[:200], f'{text(goals[j])}: {why}', {'goal': goals[j]})
        else:
            traces.append(tr)
            kept.append(j)
    ctx.count('wide_circuits', len(traces))
    ctx.count('wide_commands', sum(len(t['ev']) for t in traces))
    ctx.validate('WideCircuit', traces, lambda k: f'wide {kept[k] % 4}', lambda k: text(goals[kept[k]]), consts={'U': U})


def _one(gl, i):
    sys.unraisablehook = lambda *a: None      # a refused gate leaves qubits behind
    try:
        return run(gl, i), None
    except Exception as exc:  # noqa: BLE001
        return None, f'{type(exc).__name__}: {str(exc)[:100]} (at {arith.where(exc)})'
