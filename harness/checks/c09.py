"""C09: the local optimizer never changes what a program does."""
import pipes

INV = ('IdsDistinct', 'LiveConsistent', 'Normalised')


def run(ctx):
    P = pipes.P
    # every program of a few steps over cancelling, merging and near-miss gates
    for alphabet, steps in (('opt', ctx.scale(3, 4)), ('opt3', ctx.scale(3, 4))):
        tr = ctx.model('ProjectQMC', dict(MaxQ=5, Steps=steps, Alphabet=alphabet, MaxDepth=1), init='MInit', nxt='MNext', invariants=INV)
        ctx.count('exhaustive_programs', len(tr))
        names = ('opt1', 'opt2', 'opt3', 'opt1000') if steps == 3 else ('opt2', 'opt1000')
        ctx.run_traces(tr, [P[x] for x in names])
    n = ctx.scale(600, 8000)
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=3, Steps=44, Profile='opt'), n, invariants=INV)
    ctx.run_traces(tr, [P[x] for x in ('opt1', 'opt2', 'opt3', 'opt5', 'opt1000', 'optneg2', 'optneg5')])
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=4, Steps=40, Profile='optdec'), n // 2, seed_off=1, invariants=INV)
    ctx.run_traces(tr, [P[x] for x in ('optdec1', 'optdec2', 'optdec3', 'optdec5', 'optdec1000')])
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=4, Steps=40, Profile='optop'), n // 2, seed_off=3, invariants=INV)
    ctx.run_traces(tr, [P[x] for x in ('qoptop1', 'qoptop2', 'qoptop5')])
    # the optimizer behind and inside meta sections
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=4, Steps=36, Profile='meta'), ctx.scale(150, 2500), seed_off=2, invariants=INV)
    ctx.run_traces(tr, [P[x] for x in ('hopt1', 'hopt2', 'hopt5')])
