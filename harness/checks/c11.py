"""C11: setups."""
import setups as s


def run(ctx):
    reqs = list(ctx.model('SetupArgs', {}, invariants=['OneAnswer', 'Sound']))
    ctx.count('requests', len(reqs))
    for e in reqs:
        got = s.request(e['req'])
        if got != e['answer']:
            r = e['req']
            ctx.violation(f'request {r["s"]} {r["one"]} {r["two"]} {r["other"]}: {e["answer"]}', f'the request {r} must be answered {e["answer"]}, but is answered {got}',
                          {'kind': 'request', 'request': r, 'want': e['answer'], 'got': got})

    def programs(profile, maxq, steps, n, pipes, off):
        tr = ctx.behaviours('ProjectQGen', dict(MaxQ=maxq, Steps=steps, Profile=profile), n, seed_off=off)
        ctx.validate_streams(ctx.run_traces(tr, pipes), tr)

    programs('setup', 4, 30, ctx.scale(110, 2400), s.ANY, 0)
    programs('setupjob2', 5, 30, ctx.scale(100, 1500), s.JOB2, 1)
    programs('setupcx', 4, 24, ctx.scale(300, 4000), s.CXONLY, 2)
    programs('setup1', 4, 30, ctx.scale(150, 2000), s.ALONE, 3)
    if not ctx.quick:
        programs('setup', 6, 60, 600, [p for p in s.ANY if 'ring' not in p.name and 'line' not in p.name and 'grid' not in p.name], 4)
