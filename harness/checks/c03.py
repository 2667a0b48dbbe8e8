"""C03: queries and manipulations of the simulated state."""
import compose
import pipes

INV = ('IdsDistinct', 'LiveConsistent')


def run(ctx):
    P = pipes.P
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=4, Steps=44, Profile='query'), ctx.scale(500, 8000), invariants=INV)
    ctx.run_traces(tr, [P[x] for x in ('cpp', 'cppfus', 'py', 'negfus', 'default')])
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=5, Steps=44, Profile='querymap'), ctx.scale(160, 2500), seed_off=1, invariants=INV)
    ctx.run_traces(tr, [P[x] for x in ('maplinear', 'mapcyclic', 'mapgrid')])
    # several programs in one machine: up to 20 qubits, with one and with three threads
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=5, Steps=30, Profile='simwide'), ctx.scale(99, 1350), seed_off=3)
    compose.check(ctx, tr, 'queries')
