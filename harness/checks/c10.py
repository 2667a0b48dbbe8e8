"""C10: automatic replacement."""
from decpipes import D

INV = ('IdsDistinct', 'LiveConsistent', 'Normalised')


def run(ctx):
    n = ctx.scale(240, 3000)
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=4, Steps=30, Profile='dec'), n, invariants=INV)
    st = ctx.run_traces(tr, list(D.values()))
    ctx.validate_streams(st, tr)
    # many controls
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=6, Steps=48, Profile='decwide'), ctx.scale(72, 800), invariants=INV, seed_off=1)
    st = ctx.run_traces(tr, [D[x] for x in ('toffoli', 'one_cx', 'r_cnu', 'one_cz', 'rxryrxx')])
    ctx.validate_streams(st, tr)
