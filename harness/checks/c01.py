"""C01: the simulated state is the exact product of the gates."""
import compose
import pipes

INV = ('IdsDistinct', 'LiveConsistent', 'Normalised')


def run(ctx):
    P = pipes.P
    n = ctx.scale(400, 6000)
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=4, Steps=44, Profile='sim'), n, invariants=INV)
    ctx.run_traces(tr, [P[x] for x in ('cpp', 'cppfus', 'py', 'neg', 'negfus', 'negpy', 'default')])
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=5, Steps=40, Profile='sim'), n // 2, seed_off=1, invariants=INV)
    ctx.run_traces(tr, [P[x] for x in ('cpp', 'cppfus', 'py')])
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=6, Steps=30, Profile='simwide'), ctx.scale(120, 1500), seed_off=2)
    ctx.run_traces(tr, [P[x] for x in ('cpp', 'cppfus', 'py')])
    # several programs in one machine: up to 18 qubits, with one and with three threads
    ctx.model('Compose', dict(NA=2, NB=1, Depth=ctx.scale(3, 4)), invariants=('ProductState',))
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=5, Steps=40, Profile='simwide'), ctx.scale(162, 1800), seed_off=3)
    compose.check(ctx, tr)
