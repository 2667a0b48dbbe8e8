"""Arithmetic gates on superpositions of all register contents of a table of MathTable.tla."""
import random

import numpy as np
from projectq.meta import Dagger
from pq import MATH_REGS, Mismatch, Runner

CONTROLS = ([], [1], [0], [1, 1], [0, 1], [0, 0], [1, 0, 1])


def where(exc):
    tb, at = exc.__traceback__, ''
    while tb:
        f = tb.tb_frame.f_code.co_filename
        if '/projectq/' in f:
            at = f'{f.split("/projectq/")[-1]}:{tb.tb_lineno}'
        tb = tb.tb_next
    return at


def kind(entry, ctl, dag):
    return f'{entry["g"]["n"]}{" inverse" if dag else ""}{f" {len(ctl)} controls" if ctl else ""}'


def quantum(entry, pipe, ctl, dag, seed):
    """None, or why the gate does not act as in the table."""
    rng = random.Random(seed)
    g, rows = entry['g'], entry['m']
    if dag:
        rows = [(y, x) for x, y in rows]
    if not rows:
        return None
    n = _arity(g)
    k = len(ctl)
    spare = rng.randrange(2)      # a bystander
    env = pipe.make(seed)
    try:
        r = Runner(env, rng, pipe.mode)
        total = n + k + spare
        order = list(range(total))
        for i in range(total):
            r.q[i] = r.alloc()
        rng.shuffle(order)
        t, c = order[:n], order[n : n + k]
        env.eng.flush()
        vec = np.zeros(2**total, dtype=complex)
        want = np.zeros(2**total, dtype=complex)
        amp = lambda: complex(rng.gauss(0, 1), rng.gauss(0, 1))  # noqa: E731
        rest = order[n:]
        for x, y in rows:
            for o in range(2 ** (k + spare)):
                base = sum(((o >> j) & 1) << q for j, q in enumerate(rest))
                i = base + sum(((x >> j) & 1) << q for j, q in enumerate(t))
                on = all((o >> j) & 1 == b for j, b in enumerate(ctl))
                z = y if on else x
                w = base + sum(((z >> j) & 1) << q for j, q in enumerate(t))
                vec[i] = a = amp()
                want[w] = a
        nrm = np.linalg.norm(vec)
        env.backend.set_wavefunction(vec / nrm, [r.q[i] for i in range(total)])
        e = {'g': g, 't': t, 'c': c, 's': list(ctl)}
        if dag:
            with Dagger(env.eng):
                r.gate(e)
        else:
            r.gate(e)
        env.eng.flush()
        got = r.real_state(list(range(total)))
        try:
            r.same(want / nrm, got, 'state')
        except Mismatch:
            bad = [f'{x}' for x, y in rows[:200] if not _ok(x, y, t, rest, ctl, vec / nrm, got)]
            return f'wrong for inputs {",".join(bad[:12])}' if bad else 'wrong amplitudes or phases'
        return None
    except Mismatch as m:
        return str(m)
    except Exception as exc:  # noqa: BLE001
        if isinstance(exc, ValueError) and pipe.name.startswith(('mdec', 'mcx')) and may_refuse(g, k):
            return 'refused'
        return f'{type(exc).__name__}: {str(exc)[:100]} (at {where(exc)})'
    finally:
        env.close()


def _ok(x, y, t, rest, ctl, vec, got):
    for o in range(2 ** len(rest)):
        base = sum(((o >> j) & 1) << q for j, q in enumerate(rest))
        on = all((o >> j) & 1 == b for j, b in enumerate(ctl))
        i = base + sum(((x >> j) & 1) << q for j, q in enumerate(t))
        w = base + sum((((y if on else x) >> j) & 1) << q for j, q in enumerate(t))
        if abs(abs(vec[i]) - abs(got[w])) > 1e-6:
            return False
    return True


def classical(entry, pipe, ctl, dag, seed):
    rng = random.Random(seed)
    g, rows = entry['g'], entry['m']
    if dag:
        rows = [(y, x) for x, y in rows]
    n = _arity(g)
    env = pipe.make(seed)
    try:
        r = Runner(env, rng)
        for i in range(n + len(ctl)):
            r.q[i] = r.alloc()
        order = list(range(n + len(ctl)))
        rng.shuffle(order)
        t, c = order[:n], order[n:]
        env.eng.flush()
        sim = env.backend
        e = {'g': g, 't': t, 'c': c, 's': list(ctl)}
        for x, y in rows:
            o = rng.choice([sum(b << j for j, b in enumerate(ctl)), rng.randrange(2 ** len(ctl))])
            sim.write_register([r.q[i] for i in t], x)
            sim.write_register([r.q[i] for i in c], o)
            if dag:
                with Dagger(env.eng):
                    r.gate(e)
            else:
                r.gate(e)
            env.eng.flush()
            z = y if all((o >> j) & 1 == b for j, b in enumerate(ctl)) else x
            if sim.read_register([r.q[i] for i in t]) != z or sim.read_register([r.q[i] for i in c]) != o:
                return f'wrong for input {x} with controls {o}: {sim.read_register([r.q[i] for i in t])}'
        return None
    except Mismatch as m:
        return str(m)
    except Exception as exc:  # noqa: BLE001
        return f'{type(exc).__name__}: {str(exc)[:100]} (at {where(exc)})'
    finally:
        env.close()


def regs(g):
    return MATH_REGS.get(g['n'], 3)


def _arity(g):
    return sum(g['p'][: regs(g)])


def may_refuse(g, nctl, dag=False):
    """Combinations the circuits are documented (by the tests) to refuse with a ValueError."""
    n = g['n']
    if n in ('AddQc', 'AddQcdag'):
        return nctl != 1 if g['p'][2] == 2 else False
    if n in ('AddQ', 'SubQdag', 'AddQdag', 'SubQ'):
        return nctl > 1
    return False


def refusable(flat):
    return any(op['o'] == 'g' and may_refuse(op['g'], len(op['c'])) for op in flat)


def refuse(g, pipe, ctl, seed):
    """The circuit for g must be refused and leave the state alone."""
    rng = random.Random(seed)
    env = pipe.make(seed)
    try:
        r = Runner(env, rng, pipe.mode)
        n = _arity(g)
        for i in range(n + len(ctl)):
            r.q[i] = r.alloc()
        env.eng.flush()
        total = n + len(ctl)
        vec = np.array([complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(2**total)])
        vec /= np.linalg.norm(vec)
        env.backend.set_wavefunction(vec, [r.q[i] for i in range(total)])
        try:
            r.gate({'g': g, 't': list(range(n)), 'c': list(range(n, total)), 's': list(ctl)})
            env.eng.flush()
        except ValueError:
            return None
        return 'accepted'
    except Exception as exc:  # noqa: BLE001
        return f'{type(exc).__name__}: {str(exc)[:100]} (at {where(exc)})'
    finally:
        env.close()
