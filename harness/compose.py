"""Independent behaviours run in one machine: the state is the product of their states (module Compose)."""
import ctypes
import random
import sys

import numpy as np

import pipes
import pq
from pq import Mismatch, Runner, parse, state_vector
from projectq import MainEngine
from projectq.ops import All, Measure, QubitOperator

try:
    GOMP = ctypes.CDLL('libgomp.so.1')
except OSError:
    GOMP = None

SIMS = {'cpp': pipes.CPP, 'fus': pipes.CPPFUS, 'py': pipes.PY}


def full(states, names, mp):
    """The product of normalised states as the simulator orders its qubits."""
    ids, want = [], np.ones(1)
    for s, q in zip(states, names):
        i, v = state_vector(s)
        ids += [q[x].id for x in i]
        want = np.kron(v / np.linalg.norm(v), want)
    n = len(ids)
    if sorted(mp) != sorted(ids):
        raise Mismatch(f'the simulator holds qubits {sorted(mp)}, the programs {sorted(ids)}')
    if n == 0:
        return ids, want
    # axis n-1-k of the tensor is qubit ids[k]
    axes = [0] * n
    for k, x in enumerate(ids):
        axes[n - 1 - mp[x]] = n - 1 - k
    return ids, np.transpose(want.reshape([2] * n), axes).reshape(-1)


def pauli_expectation(vec, n, term):
    out = vec.reshape([2] * n)
    for pos, p in term:
        ax = n - 1 - pos
        m = {'X': np.array([[0, 1], [1, 0]]), 'Y': np.array([[0, -1j], [1j, 0]]), 'Z': np.array([[1, 0], [0, -1]])}[p]
        out = np.moveaxis(np.tensordot(m, out, (1, ax)), 0, ax)
    return np.vdot(vec, out.reshape(-1)).real


def queries(sim, eng, rng, qubits, ids, want):
    """Queries about the product state, on subsets that cross the programs."""
    mp, n = sim.cheat()[0], len(ids)
    by = {q.id: q for q in qubits}
    k = rng.randrange(1, min(n, 6) + 1)
    sub = rng.sample(sorted(by), k)
    i0 = int(np.argmax(np.abs(want))) if rng.random() < 0.7 else rng.randrange(len(want))
    bits = [(i0 >> mp[x]) & 1 for x in sub]
    idx = np.arange(len(want))
    sel = np.ones(len(want), bool)
    for x, b in zip(sub, bits):
        sel &= ((idx >> mp[x]) & 1) == b
    p = float(np.sum(np.abs(want[sel]) ** 2))
    got = sim.get_probability(bits, [by[x] for x in sub])
    if abs(got - p) > 1e-7:
        raise Mismatch(f'probability of {bits} on {sub}: expected {p}, got {got}')
    order = rng.sample(sorted(by), n)
    got = sim.get_amplitude([(i0 >> mp[x]) & 1 for x in order], [by[x] for x in order])
    if abs(got - want[i0]) > 1e-7:
        raise Mismatch(f'amplitude: expected {want[i0]}, got {got}')
    op, val = QubitOperator(), 0.0
    for _ in range(rng.randrange(1, 4)):
        codes = [rng.choice('XYZ') for _ in sub]
        c = rng.choice([1.0, -0.5, 2.0])
        op += QubitOperator(tuple(enumerate(codes)), c)
        val += c * pauli_expectation(want, n, [(mp[x], a) for x, a in zip(sub, codes)])
    got = sim.get_expectation_value(op, [by[x] for x in sub])
    if abs(got - val) > 1e-6:
        raise Mismatch(f'expectation value of {op} on {sub}: expected {val}, got {got}')


def run(traces, name, seed, threads, what='state'):
    rng = random.Random(seed)
    if GOMP is not None:
        GOMP.omp_set_num_threads(threads)
    sim = SIMS[name](seed % 65537)
    env = pipes.Env(MainEngine(sim, [pipes.high_replacer(*pipes.MORE)]), sim)
    eng = env.eng
    runners = []
    pq._unraisable.clear()
    sys.unraisablehook = pq._hook
    try:
        runners = [Runner(env, random.Random(rng.random())) for _ in traces]
        progs = [parse(t) for t in traces]
        pos = [0] * len(progs)
        while any(p < len(g) for p, g in zip(pos, progs)):
            j = rng.choice([j for j in range(len(progs)) if pos[j] < len(progs[j])])
            for _ in range(rng.randrange(1, 4)):
                if pos[j] < len(progs[j]):
                    it = progs[j][pos[j]]
                    pos[j] += 1
                    if it[0] == 'flush':
                        if rng.random() < 0.3:
                            eng.flush()
                    else:
                        runners[j].items([it])
        eng.flush()
        mp, got = sim.cheat()
        ids, want = full([t[-1]['s'] for t in traces], [r.q for r in runners], dict(mp))
        d = float(np.max(np.abs(np.asarray(got) - want)))
        if not d < 1e-7:
            raise Mismatch(f'wavefunction of {len(ids)} qubits differs by {d:.3g}')
        qubits = [q for r in runners for q in r.q.values()]
        if what == 'queries':
            queries(sim, eng, rng, qubits, ids, want)
            if float(np.max(np.abs(np.asarray(sim.cheat()[1]) - want))) > 1e-7:
                raise Mismatch('queries changed the state')
        # measure some, then the others: the state is projected in between
        first = rng.sample(qubits, len(qubits) // 2) if what == 'measure' else []
        if first:
            All(Measure) | first
        eng.flush()
        seen = {q.id: int(q) for q in first}
        idx = np.arange(len(want))
        keep = np.ones(len(want), bool)
        for q in first:
            keep &= ((idx >> mp[q.id]) & 1) == int(q)
        proj = np.where(keep, want, 0)
        nrm = np.linalg.norm(proj)
        if nrm < 1e-9:
            raise Mismatch('measured an outcome of probability 0')
        d = float(np.max(np.abs(np.asarray(sim.cheat()[1]) - proj / nrm)))
        if not d < 1e-7:
            raise Mismatch(f'after measuring {len(first)} of {len(ids)} qubits the wavefunction differs by {d:.3g}')
        All(Measure) | qubits
        eng.flush()
        out = sum(int(q) << mp[q.id] for q in qubits)
        if what == 'measure' and abs(proj[out]) < 1e-9:
            raise Mismatch('measured an outcome of probability 0')
        rng.shuffle(qubits)
        for q in first:
            if (out >> mp[q.id]) & 1 != seen[q.id]:
                raise Mismatch('measuring again gave another outcome')
        del first
        for r in runners:
            r.q.clear()
        while qubits:
            qubits.pop().__del__()
        eng.flush()
        if len(sim.cheat()[0]):
            raise Mismatch('qubits are left after everything was released')
        if pq._unraisable:
            raise Mismatch('error while qubits were released: ' + pq._unraisable[0])
        return {'composed_programs': len(traces), 'composed_qubits': len(ids)}
    except Mismatch:
        raise
    except Exception as exc:
        raise Mismatch(f'{type(exc).__name__}: {str(exc)[:300]}') from None
    finally:
        env.close()
        for r in runners:
            for q in r.q.values():
                q.id = -1
            r.q.clear()
        if GOMP is not None:
            GOMP.omp_set_num_threads(1)


def check(ctx, traces, what='state', sizes=((4, 'cpp'), (3, 'fus'), (2, 'py')), threads=(1, 3), procs=4):
    """Groups of behaviours with the given sizes, on the named simulators."""
    groups, k, i = [], 0, 0
    while True:
        n, name = sizes[i % len(sizes)]
        if k + n > len(traces):
            break
        groups.append((traces[k : k + n], name, ctx.seed * 1000003 + i, threads[(i // len(sizes)) % len(threads)]))
        k += n
        i += 1

    def one(g):
        try:
            return run(*g, what), None
        except Mismatch as m:
            return {}, str(m)

    width = 0
    for i, (stats, bad) in ctx.pmap(one, groups, procs=procs):
        ctx.cov['traces_validated_against_impl'] += 1
        width = max(width, stats.pop('composed_qubits', 0))
        for k, v in stats.items():
            ctx.count(k, v)
        if bad:
            import check

            g = groups[i]
            ctx.violation(f'{g[1]} with {g[3]} threads, {len(g[0])} programs at once: {bad}'[:200],
                          f'[{g[1]}, {g[3]} threads] {bad}\n' + '\n || '.join(check.program_text(t) for t in g[0]),
                          {'kind': 'compose', 'what': what, 'simulator': g[1], 'threads': g[3], 'seed': g[2], 'events': g[0]})
    ctx.cov['composed_width'] = max(width, ctx.cov.get('composed_width', 0))
