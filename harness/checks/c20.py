"""C20: engines deliver every command once, in order, unchanged."""
import chain

INV = ('AcceptedArrives',)


def run(ctx):
    base = dict(MaxLen=2, Random=False, Broken=False)
    chain.run_records(ctx, ctx.model('Chain', base, invariants=INV), chain.check_chain, 'chain')
    long = ctx.behaviours('Chain', dict(base, MaxLen=6, Random=True), ctx.scale(1200, 12000), init='Init', nxt='Next', invariants=INV)
    chain.run_records(ctx, long, chain.check_chain, 'chain')
    chain.run_records(ctx, ctx.model('Chain', dict(base, MaxLen=ctx.scale(2, 4), Broken=True)), chain.check_broken, 'refusal')
    # programs
    for i, (prof, q, steps, n) in enumerate((('meta', 4, 44, 200), ('meas', 4, 40, 120), ('sim', 4, 40, 80))):
        tr = ctx.behaviours('ProjectQGen', dict(MaxQ=q, Steps=steps, Profile=prof), ctx.scale(n, 15 * n), seed_off=i)
        if prof == 'meas':
            tr = [[e for e in t if e['a'] != 'bad'] for t in tr]
        ps = [[chain.chain_pipe(long[(3 * k + j) % len(long)], j) for j in range(3)] for k in range(len(tr))]
        ctx.run_traces(tr, None, per=lambda k: ps[k])
    # comparison of programs
    cmp = dict(MaxLen=2, Random=False)
    chain.run_records(ctx, ctx.model('CompareSeq', cmp), chain.check_compare, 'compare')
    chain.run_records(ctx, ctx.behaviours('CompareSeq', dict(MaxLen=6, Random=True), ctx.scale(60, 1000), depth=30, init='Init', nxt='Next'),
                      chain.check_compare, 'compare')
