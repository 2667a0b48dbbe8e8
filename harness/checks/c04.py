"""C04: the life of qubits."""
import lifecycle

DIRECT = ('cpp', 'py', 'fus', 'dirty', 'classical')
BUFFERED = ('opt', 'default', 'linear', 'manual')


def run(ctx):
    base = dict(Names={1, 2}, MaxQ=2, Random=False, Sections=False)
    tr = ctx.model('Lifecycle', dict(base, Steps=ctx.scale(4, 5)), invariants=('WellFormed', 'Consistent'))
    lifecycle.run_all(ctx, tr, ('cpp',))
    big = dict(Names={1, 2, 3}, MaxQ=5, Random=True, Sections=True)
    for i, (steps, n) in enumerate(((12, 600), (30, 600))):
        tr = ctx.behaviours('Lifecycle', dict(big, Steps=steps), ctx.scale(n, 15 * n), invariants=('Consistent',), init='Init', nxt='Next', seed_off=i)
        lifecycle.run_all(ctx, tr, DIRECT + BUFFERED)
