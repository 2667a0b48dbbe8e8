"""C23: hardware backends."""
import hw

INV = ['Placed', 'JobOk', 'Fresh', 'AddsUp']


def run(ctx):
    rows, behs = {}, []
    for k, s in enumerate(hw.SERVICE):
        c = dict(Service=s, MaxQ=4, MaxLoc=6, Steps=24)
        rows[s] = list(ctx.model('HwJob', c, init='TInit', nxt='TNext'))
        behs += ctx.behaviours('HwJob', c, ctx.scale(80, 1500), 60, invariants=INV, seed_off=k)
        if not ctx.quick:
            behs += ctx.behaviours('HwJob', dict(c, MaxQ=7, MaxLoc=9, Steps=80), 150, 120, invariants=INV, seed_off=40 + k)
    for svc, r, got in hw.table(rows):
        ctx.violation(f'available {svc} {r["g"]} {r["nc"]} {r["neg"]}', f'{svc}: is_available({r["g"]} with {r["nc"]} controls, negative: {r["neg"]}) is {got}',
                      {'kind': 'hwtable', 'service': svc, 'row': r, 'got': got})
    ctx.count('table_rows', sum(map(len, rows.values())))
    ctx.count('behaviours', len(behs))

    def one(b):
        bad, notes = hw.replay(b)
        return (bad, sorted(set(notes))), bool(bad or notes)

    seen = set()
    for i, (value, _) in ctx.pmap(one, behs):
        ctx.cov['traces_validated_against_impl'] += 1
        if isinstance(value, str):
            value = (value, [])
        b = behs[i]
        for text in ([value[0]] if value[0] else []) + list(value[1]):
            sig = f'{b["service"]} {text}'
            if 'a gate on a measured qubit is not refused' in text:
                sig = f'{b["service"]}: a gate on a measured qubit is not refused'
            if sig not in seen and len(seen) < 30:
                seen.add(sig)
                ctx.violation(sig[:180], f'{b["service"]}: {text}', {'kind': 'hw', 'behaviour': b})
