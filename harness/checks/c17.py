"""C17: the resource counter."""
import countpipes  # noqa: F401
import pipes

INV = ('IdsDistinct', 'LiveConsistent')
PIPES = ('count', 'countsim', 'countre', 'countresim')


def run(ctx):
    ps = [pipes.P[x] for x in PIPES]
    for i, (prof, q, steps, n) in enumerate((('sim', 4, 50, 200), ('meta', 4, 40, 160), ('optop', 4, 40, 120), ('high', 5, 30, 160), ('meas', 5, 44, 100))):
        tr = ctx.behaviours('ProjectQCount', dict(MaxQ=q, Steps=steps, Profile=prof), ctx.scale(n, 15 * n), seed_off=i,
                            init='GInit', nxt='CNext', invariants=INV)
        ctx.run_traces(tr, ps)
