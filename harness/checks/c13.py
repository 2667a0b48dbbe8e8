"""C13: direction of CNOTs and rewriting of swaps."""
import flipping as f


def run(ctx):
    recs = list(ctx.model('FlipGen', dict(N=3, Len0=1, Random=False)))
    recs += ctx.behaviours('FlipGen', dict(N=4, Len0=20, Random=True), ctx.scale(500, 6000), init='Init', nxt='Next')
    recs += ctx.behaviours('FlipGen', dict(N=6, Len0=30, Random=True), ctx.scale(200, 3000), init='Init', nxt='Next', seed_off=1)
    f.check(ctx, recs)
    if not ctx.quick:
        f.check(ctx, list(ctx.model('FlipGen', dict(N=3, Len0=2, Random=False))))
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=5, Steps=40, Profile='measmap'), ctx.scale(200, 3000))
    ps = [[f.pipe(4 * k + j) for j in range(3)] for k in range(7)]
    streams = ctx.run_traces(tr, None, per=lambda k: ps[k % 7])
    ctx.validate_streams(streams, tr)
