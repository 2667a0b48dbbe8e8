"""C12: mappers respect the connectivity and know where every qubit is."""
import mapping as m
from pipes import P


def run(ctx):
    inv = ('WellFormed',)
    base = dict(Over=False, Jobs="no", Random=False)
    small = ctx.model('MapGen', dict(base, N=3, Steps=ctx.scale(5, 6)), invariants=inv)
    jobs = [(s, p) for i, p in enumerate(small) for s in (m.linear(3, False, 1000), m.linear(3, True, 2), m.grid(1, 3, 1), m.grid(3, 1, 3))[i % 4 : i % 4 + 1]]
    gen = lambda n, num, **kw: ctx.behaviours('MapGen', dict(base, N=n, Random=True, **kw), ctx.scale(num, 12 * num), depth=100, invariants=inv, init='Init', nxt='Next', seed_off=n)
    def mix(progs, specs):
        return [(specs[i % len(specs)], p) for i, p in enumerate(progs)]
    st = (1000, 1, 2, 3, 5, 8)
    for n in (2, 3, 4, 5, 6):
        specs = [m.linear(n, c, s) for s in st for c in (False, True)]
        specs += [m.grid(r, n // r, s) for r in range(1, n + 1) if n % r == 0 for s in st]
        specs += [m.grid(r, n // r, s, [(7 * i + 3) % n if n % 7 else i for i in range(n)]) for r in range(1, n + 1) if n % r == 0 for s in (1000, 2)]
        ctx.rng.shuffle(specs)
        jobs += mix(gen(n, 220, Steps=44), specs)
    # larger chips
    for n, shapes in ((9, ((3, 3),)), (12, ((3, 4), (4, 3), (2, 6))), (16, ())):  # grids of 16 take the grid mapper itself minutes
        specs = [m.linear(n, c, s) for s in (1000, 4) for c in (False, True)] + [m.grid(r, k, s) for r, k in shapes for s in (1000, 1, 6)]
        specs += [m.grid(r, k, 1000, [(7 * i + 3) % n for i in range(n)]) for r, k in shapes if n % 7]
        ctx.rng.shuffle(specs)
        jobs += mix(gen(n, 50, Steps=90), specs)
    m.check(ctx, jobs)
    # too many qubits, too large gates
    bad = []
    for n in (1, 2, 3, 4):
        specs = [m.linear(n, c, s) for s in st[:4] for c in (False, True)] + [m.grid(1, n, s) for s in st[:4]] + ([m.grid(2, 2, s) for s in st[:4]] if n == 4 else [])
        bad += mix(gen(n, 60, Steps=24, Over=True), specs)
    m.check(ctx, bad)
    # placements without swaps
    fixed = mix(gen(6, 80, Steps=40), [m.manual(97, 3, 5), m.manual(97, 1, 0), m.manual(97, 96, 40)])
    fixed += mix(gen(4, 120, Steps=40, Jobs='new', Over=False), [m.bounded(40)])
    fixed += mix(gen(3, 60, Steps=30, Jobs='new', Over=False), [m.bounded(3), m.bounded(4)])
    fixed += mix(gen(5, 900, Steps=18, Jobs='ibm'), [m.ibm(m.BOW), m.ibm(m.MELBOURNE)])
    fixed += mix(gen(5, 60, Steps=24, Jobs='ibm', Over=True), [m.ibm(m.BOW), m.ibm(m.MELBOURNE)])
    m.check(ctx, fixed)
    # a qubit that is kept over a flush, and a new one (a known finding)
    kept = m.Spec('bounded 4 (qubits kept over a flush)', lambda: m.BoundedQubitMapper(4), 4, m.topo_of('none', n=4), lim=0)
    m.check(ctx, [(kept, [dict(k='a', g='', q=[0]), dict(k='f', g='', q=[]), dict(k='a', g='', q=[1])])])
    # whole programs, with results
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=5, Steps=40, Profile='measmap'), ctx.scale(60, 1500), seed_off=3)
    ctx.run_traces(tr, [P[x] for x in ('maplinear', 'mapcyclic', 'mapgrid')])
