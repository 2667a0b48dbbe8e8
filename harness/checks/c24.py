"""C24: high-level operations equal their definitions."""
import pipes
import wideruns

INV = ('IdsDistinct', 'LiveConsistent', 'Normalised')


def run(ctx):
    P = pipes.P
    n = ctx.scale(560, 8000)
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=5, Steps=40, Profile='high'), n, invariants=INV)
    ctx.run_traces(tr, [P[x] for x in ('qcpp', 'qfus', 'qopt', 'default')])
    # the semantics of the wide circuits refines the exact one
    ctx.model('ProductCheck', dict(N=3, Depth=ctx.scale(3, 5)), invariants=('Refines',))
    # sections around them
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=5, Steps=40, Profile='highmeta'), n // 2, seed_off=1, invariants=INV)
    ctx.run_traces(tr, [P[x] for x in ('qcpp', 'qopt', 'default')])
    # registers of up to 28 qubits, from the recorded commands
    goals = ctx.behaviours('WideRuns', dict(W=1, H=1, Full=False, Lo=6, Hi=8, Top1=28, TopMod=ctx.scale(12, 16), TopMul=ctx.scale(5, 8)), ctx.scale(240, 3000), 12,
                           init='RunInit', nxt='RunNext', seed_off=7)
    wideruns.check(ctx, [e for e in goals if e['g']['n'] in ('QFT', 'QFTdag', 'QPE', 'QPEf')])
