"""C02: measurement."""
import math
import random

import numpy as np
import compose
import pipes
import pq
from projectq.ops import All, Measure
from scipy.stats import chi2

INV = ('IdsDistinct', 'LiveConsistent', 'Normalised')


def born(task):
    """Outcome frequencies of measuring random ordered subsets of the qubits, against the exact state."""
    events, names, shots, seed = task
    bad, n = [], 0
    ids, vec = pq.state_vector(events[-1]['s'])
    prob = np.abs(vec) ** 2
    prob = prob / prob.sum()
    for name in names:
        pipe = pipes.P[name]
        rng = random.Random(seed)
        env = pipe.make(seed)
        r = pipe.runner(env, rng)
        try:
            r.items(pq.parse(events))
            mp, wf = env.backend.cheat()
            order = sorted(mp, key=mp.get)
            wf = list(wf)
            handle = {q.id: q for q in r.q.values()}
            sub = rng.sample(ids, rng.randint(1, len(ids)))
            groups = [sub] if rng.random() < 0.5 else [sub[: len(sub) // 2], sub[len(sub) // 2 :]]
            counts = {}
            for _ in range(shots):
                for g in groups:
                    if g:
                        All(Measure) | [r.q[x] for x in g]
                        env.eng.flush()
                key = tuple(int(r.q[x]) for x in sub)
                counts[key] = counts.get(key, 0) + 1
                env.backend.set_wavefunction(wf, [handle[i] for i in order])
            want = {}
            for i, p in enumerate(prob):
                key = tuple((i >> ids.index(x)) & 1 for x in sub)
                want[key] = want.get(key, 0.0) + p
            for key, c in counts.items():
                if want.get(key, 0.0) < 1e-12:
                    bad.append((name, f'measuring {sub} gave {key}, an outcome of probability zero'))
            # pool rare outcomes
            stat, dof, rest_w, rest_c = 0.0, -1, 0.0, 0
            for key, p in want.items():
                if p * shots < 8:
                    rest_w += p
                    rest_c += counts.get(key, 0)
                else:
                    stat += (counts.get(key, 0) - p * shots) ** 2 / (p * shots)
                    dof += 1
            if rest_w * shots > 3:
                stat += (rest_c - rest_w * shots) ** 2 / (rest_w * shots)
                dof += 1
            if dof > 0 and chi2.sf(stat, dof) < 1e-9:
                bad.append((name, f'outcome frequencies of measuring {sub} (chi2 {stat:.1f}, {dof} degrees): {counts}, '
                                  f'expected { {k: round(v * shots, 1) for k, v in want.items()} }'))
            n += shots
        except pq.Mismatch as m:
            bad.append((name, str(m)))
        except Exception as exc:
            bad.append((name, f'{type(exc).__name__}: {exc}'))
        finally:
            pq._drop(env, r)
    return n, bad


def run(ctx):
    P = pipes.P
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=4, Steps=44, Profile='meas'), ctx.scale(400, 6000), invariants=INV)
    ctx.run_traces(tr, [P[x] for x in ('cpp', 'cppfus', 'py', 'negfus', 'optneg3', 'default')])
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=4, Steps=40, Profile='qmap'.replace('qmap', 'querymap')), ctx.scale(60, 600), seed_off=1)
    ctx.run_traces(tr, [P[x] for x in ('maplinear', 'mapgrid')])
    st = ctx.behaviours('ProjectQGen', dict(MaxQ=4, Steps=24, Profile='simwide'), ctx.scale(48, 400), seed_off=2)
    tasks = [(t, ('cpp', 'cppfus', 'py', 'negfus'), ctx.scale(300, 1500), ctx.seed * 977 + i) for i, t in enumerate(st)]
    shots = 0
    for i, (n, bad) in ctx.pmap(born, tasks):
        shots += n
        for name, msg in bad:
            import check

            ctx.violation(f'{name}: {msg}'[:100], f'[{name}] {msg}\n{check.program_text(tasks[i][0])}',
                          {'kind': 'born', 'pipeline': name, 'events': tasks[i][0]})
    ctx.count('born_shots', shots)
    ctx.cov['traces_validated_against_impl'] += len(tasks)
    # several programs in one machine: up to 20 qubits, with one and with three threads
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=5, Steps=30, Profile='simwide'), ctx.scale(99, 1350), seed_off=3)
    compose.check(ctx, tr, 'measure')
