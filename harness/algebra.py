"""Gate objects against the exact gate algebra of the specification (module GateAlgebra)."""
import random

import numpy as np
import pq
from pipes import CPP, Env, default_rules
from projectq import MainEngine
from projectq.cengines import AutoReplacer, DecompositionRuleSet
from projectq.ops import C, DaggeredGate, H, MatrixGate, NotMergeable, Tensor, X, get_inverse, is_identity
from pq import MATH_NAMES, Mismatch, make_gate, state_vector


def alg_env():
    import projectq.libs.math
    import projectq.setups.decompositions

    s = CPP(1)
    return Env(MainEngine(s, [AutoReplacer(DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions]))]), s)


def apply_to(gate, spec, regs, ctl=None):
    n = spec['n']
    if n in ('UCRy', 'UCRz') or n in MATH_NAMES:
        t = tuple(regs)
    elif len(regs) == 1:
        t = (regs[0],)
    else:
        t = tuple(regs)
    if ctl is not None:
        gate | ((ctl,) + t)
    else:
        gate | t


def effect(seq, spec, w, controlled=False):
    """Choi state after the gate objects of seq, or None if a gate cannot be executed."""
    env = alg_env()
    try:
        q = env.eng.allocate_qureg(2 * w)
        for i in range(w):
            H | q[w + i]
        for i in range(w):
            C(X) | (q[w + i], q[i])
        ctl = None
        if controlled:
            ctl = env.eng.allocate_qubit()
            H | ctl
        _, widths = make_gate(spec, w)
        regs, i = [], 0
        for k in widths:
            regs.append([q[j] for j in range(i, i + k)])
            i += k
        for g in seq:
            apply_to(g, spec, regs, ctl)
        env.eng.flush()
        mp, vec = env.backend.cheat()
        ids = [x.id for x in q] + ([ctl[0].id] if controlled else [])
        pos = [mp[x] for x in ids]
        n = len(pos)
        t = np.asarray(vec).reshape([2] * n)
        return np.transpose(t, [n - 1 - pos[n - 1 - a] for a in range(n)]).reshape(-1)
    finally:
        for x in list(env.eng.active_qubits):
            x.id = -1
        env.close()


def close(a, b):
    return np.max(np.abs(a - b)) <= pq.ATOL


def name(g):
    return g['n'] + (str(tuple(g['p'])) if g['p'] else '')


def check_gate(entry, table, seed):
    """All checks of one gate g and of the pairs (g, h).  Returns (problems, merges, number of checks)."""
    g, w = entry['g'], entry['w']
    rng = random.Random(seed)
    bad, merges, n = [], [], 0
    G, _ = make_gate(g, w, rng)
    want = state_vector(entry['s'])[1]
    choi = state_vector(table['choi'])[1]
    same = {name(x) for x in entry['same']}

    def expect(what, seq, state, controlled=False):
        nonlocal n
        n += 1
        try:
            got = effect(seq, g, w, controlled)
        except Exception as exc:
            bad.append((f'{g["n"]}: {what}: {type(exc).__name__}', f'{what} of {name(g)}: {type(exc).__name__}: {str(exc)[:300]}'))
            return
        if not close(got, state):
            bad.append((f'{g["n"]}: {what}', f'{what} of {name(g)} has another effect'))

    expect('the gate', [G], want)
    inv = get_inverse(G)
    # the inverse of some arithmetic gates needs a circuit (property C15)
    if not (isinstance(inv, DaggeredGate) and g['n'] in MATH_NAMES):
        expect('the inverse', [inv], state_vector(entry['invs'])[1])
        expect('gate and inverse', [G, inv], choi)
        expect('inverse of the inverse', [get_inverse(inv)], want)
    if hasattr(G, 'matrix') or g['n'] in ('QFT', 'Entangle', 'UCRy', 'UCRz', 'QOp'):
        expect('DaggeredGate', [DaggeredGate(G)], state_vector(entry['invs'])[1])
    plus = np.kron([1, 1], choi) / np.sqrt(2)
    if g['n'] not in ('QOp', 'TE', 'TE2') and not (w == 1 and g['n'] in ('UCRy', 'UCRz')):
        cg = C(G)
        expect('controlled gate', [cg], np.concatenate([choi, want]) / np.sqrt(2), True)
        if not (isinstance(inv, DaggeredGate) and g['n'] in MATH_NAMES):
            expect('controlled gate and its inverse', [cg, get_inverse(cg)], plus, True)
    if w == 1 and g['n'] not in ('QOp', 'TE', 'TE2', 'UCRy', 'UCRz'):
        expect('tensored gate', [Tensor(G)], want)
        expect('inverse of the tensored gate', [get_inverse(Tensor(G))], state_vector(entry['invs'])[1])
    n += 1
    if is_identity(G) and not entry['id']:
        bad.append((f'{g["n"]}: is_identity', f'{name(g)} claims to be the identity'))
    for i, e2 in enumerate(table['gates']):
        h = e2['g']
        Hh, _ = make_gate(h, w, rng)
        n += 1
        mixed = isinstance(G, MatrixGate) or isinstance(Hh, MatrixGate)  # they compare up to rounding
        for what, a, b in (('', G, Hh), ('controlled ', C(G), C(Hh)), ('daggered ', DaggeredGate(G), DaggeredGate(Hh)),
                           ('tensored ', Tensor(G), Tensor(Hh))):
            eq = a == b
            if not isinstance(eq, bool) and eq not in (True, False):
                bad.append((f'{g["n"]}: equality', f'{what}{name(g)} == {name(h)} is {eq!r}'))
            for x in (a, b):
                try:
                    hash(x)
                except TypeError as exc:
                    bad.append((f'{type(x).__name__}: hash', f'{what}{name(g)}: {exc}'))
                    break
            else:
                if eq is True and hash(a) != hash(b) and not mixed:
                    bad.append((f'{g["n"]}: hash', f'{what}{name(g)} == {name(h)}, but their hashes differ'))
            if eq != (b == a) and not mixed:
                bad.append((f'{g["n"]}: symmetry', f'{what}{name(g)} == {name(h)} is {eq} but not the other way round'))
            if eq and name(h) not in same:
                bad.append((f'{g["n"]}: equality', f'{what}{name(g)} == {name(h)}, but their effects differ'))
        if C(G, 1) == C(Hh, 2):
            bad.append((f'{g["n"]}: equality', f'C({name(g)}) == CC({name(h)})'))
        try:
            M = G.get_merged(Hh)
        except NotMergeable:
            continue
        except Exception as exc:
            bad.append((f'{g["n"]}: merge raises {type(exc).__name__}', f'{name(g)}.get_merged({name(h)}): {type(exc).__name__}: {exc}'))
            continue
        try:
            eff = effect([M], g, w)
        except Exception as exc:
            bad.append((f'{g["n"]}: merged gate raises {type(exc).__name__}', f'{name(g)} merged with {name(h)}: {type(exc).__name__}: {str(exc)[:300]}'))
            continue
        merges.append((g, h, eff))
        if is_identity(M) and not close(eff, choi):
            bad.append((f'{g["n"]}: merged is_identity', f'{name(g)} merged with {name(h)} claims to be the identity'))
    return bad, merges, n


def check_across(e1, e2, seed):
    """Two gates for different numbers of qubits: neither equal nor mergeable."""
    rng = random.Random(seed)
    g, h = e1['g'], e2['g']
    bad = []
    for r, s in ((e1, e2), (e2, e1)):
        G, Hh = make_gate(r['g'], r['w'], rng)[0], make_gate(s['g'], s['w'], rng)[0]
        if G == Hh or C(G) == C(Hh) or DaggeredGate(G) == DaggeredGate(Hh) or Tensor(G) == Tensor(Hh):
            bad.append((f'{r["g"]["n"]}: equality', f'{name(r["g"])} == {name(s["g"])} although they are for {r["w"]} and {s["w"]} qubits'))
        try:
            M = G.get_merged(Hh)
        except NotMergeable:
            continue
        bad.append((f'{r["g"]["n"]}: merge of different sizes', f'{name(r["g"])} for {r["w"]} qubits merged with {name(s["g"])} for {s["w"]} qubits gives {M}'))
    return bad
