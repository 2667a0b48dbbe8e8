"""C22: remote jobs."""
import jobs

INV = ['SubmitsOnce', 'NeverToTheWrongDevice', 'PollsBounded', 'NoPollBeforeSubmit', 'ResultIsReal', 'NothingAfterTheEnd', 'TimeoutIsLast']
ALL = ('ibm', 'aqt', 'ionq', 'aws', 'azure')


def run(ctx):
    behs = []
    for s in ALL:
        n = ctx.scale({'ibm': 3, 'ionq': 3}.get(s, 4), {'ibm': 5, 'ionq': 5}.get(s, 6))
        behs += ctx.model('Jobs', dict(Service=s, MaxRetries=n, LongRun=0), invariants=INV)
    behs += ctx.model('Jobs', dict(Service='polling', MaxRetries=1, LongRun=63), invariants=INV)
    ctx.count('behaviours', len(behs))
    seed = ctx.seed

    def one(task):
        i, b = task
        bad = jobs.replay(b, seed * 7919 + i)
        return bad, bool(bad)

    reported = 0
    for i, (bad, _) in ctx.pmap(one, list(enumerate(behs))):
        ctx.cov['traces_validated_against_impl'] += 1
        if bad and reported < 20:
            reported += 1
            b = behs[i]
            j = b['job']
            ctx.violation(f'{j["s"]} {j["op"]} {b["outcome"]}: {bad}'[:160], f'{j} after {b["script"]}: must end with "{b["outcome"]}", but: {bad}',
                          {'kind': 'job', 'behaviour': b, 'seed': seed * 7919 + i})
