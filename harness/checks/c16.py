"""C16: the unitary simulator."""
import pipes

INV = ('IdsDistinct', 'LiveConsistent')


def run(ctx):
    P = pipes.P
    n = ctx.scale(320, 5000)
    tr = ctx.behaviours('ProjectQUnitary', dict(MaxQ=4, Steps=30, Profile='unitary'), n, init='GInit', nxt='UNext', invariants=INV)
    ctx.run_traces(tr, [P[x] for x in ('unit', 'unitneg', 'unitmap')])
    tr = ctx.behaviours('ProjectQUnitary', dict(MaxQ=3, Steps=60, Profile='unitary'), n, seed_off=1, init='GInit', nxt='UNext', invariants=INV)
    ctx.run_traces(tr, [P[x] for x in ('unit', 'unitneg', 'unitmap')])
