"""C14: arithmetic gates compute the documented functions on every backend."""
import arith
import mathpipes

INV = ('IdsDistinct', 'LiveConsistent', 'Normalised')
P = mathpipes.P


def table(ctx, rows, pipes, controls, tag, inverse=True, classical=False, scramble=0):
    """Every row through every pipeline, with every control pattern, forwards and backwards."""
    f = arith.classical if classical else arith.quantum
    tasks = []
    for i, e in enumerate(rows):
        for p in pipes:
            for c in controls(i):
                tasks.append((e, p, c, False, ctx.seed * 7907 + i))
                if inverse and e['g']['n'] != 'User':
                    tasks.append((e, p, c, True, ctx.seed * 7907 + i + 1))
    for i, bad in ctx.pmap(lambda t: f(t[0], P[t[1]], *t[2:]), tasks):
        e, p, c, dag, seed = tasks[i]
        ctx.cov['traces_validated_against_impl'] += 1
        ctx.count('register_contents', len(e['m']))
        if bad and bad != 'refused':
            ctx.violation(f'{tag}: {p}: {arith.kind(e, c, dag)}: {bad.split(":")[0][:60]}',
                          f'[{p}] {e["g"]["n"]}{tuple(e["g"]["p"])}{" inverse" if dag else ""} controls {c}: {bad}',
                          {'gate': e['g'], 'pipeline': p, 'controls': c, 'inverse': dag, 'seed': seed})
        elif bad:
            ctx.count('refused')


def run(ctx):
    pat = arith.CONTROLS

    def controls(i):
        return pat if not ctx.quick else [pat[0], pat[1 + (i + ctx.seed) % (len(pat) - 1)]]

    rows = ctx.model('MathTable', dict(W=ctx.scale(4, 5), H=ctx.scale(2, 3), Full=not ctx.quick), init='MInit', nxt='MNext',
                     invariants=('Injective', 'InverseBack'))
    table(ctx, rows, ('mcpp', 'mfus', 'mpy'), controls, 'table')
    table(ctx, rows, ('classical',), controls, 'table', classical=True)
    # registers too wide to list every content
    wide = ctx.behaviours('WideTable', dict(W=1, H=1, Full=False, Lo=16, Hi=18), ctx.scale(8, 64), 12, init='WInit', nxt='WNext')
    table(ctx, wide, ('mcpp', 'mfus'), lambda i: [pat[i % 4]], 'wide', inverse=False)
    wide = ctx.behaviours('WideTable', dict(W=1, H=1, Full=False, Lo=18, Hi=28), ctx.scale(16, 200), 24, init='WInit', nxt='WNext', seed_off=3)
    table(ctx, wide, ('classical',), lambda i: [pat[i % len(pat)]], 'wide', classical=True)
    # inside programs
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=6, Steps=36, Profile='math'), ctx.scale(240, 3000), invariants=INV, seed_off=1)
    ctx.run_traces(tr, [P[x] for x in ('mcpp', 'mfus', 'mpy')])
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=7, Steps=60, Profile='classical'), ctx.scale(240, 3000), invariants=INV, seed_off=2)
    ctx.run_traces(tr, [P['classical'], P['mcpp']], per=lambda i: [P['classical']] if any(e['a'] == 'write' for e in tr[i]) else [P['classical'], P['mcpp']])
