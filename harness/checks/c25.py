"""C25: circuit drawers and printer."""
import drawing

INV = ['PlacesDistinct', 'Readable', 'Alive']


def run(ctx):
    behs = ctx.behaviours('Drawing', dict(MaxQ=4, MaxP=6, Steps=18), ctx.scale(1500, 12000), 40, invariants=INV)
    behs += ctx.behaviours('Drawing', dict(MaxQ=3, MaxP=4, Steps=8), ctx.scale(800, 6000), 30, invariants=INV, seed_off=1)
    behs += ctx.behaviours('Drawing', dict(MaxQ=6, MaxP=8, Steps=40), ctx.scale(150, 2000), 60, invariants=INV, seed_off=2)
    ctx.count('behaviours', len(behs))

    def one(b):
        bad, notes = drawing.replay(b)
        return (bad, sorted(set(notes))), bool(bad or notes)

    seen = set()
    for i, (value, _) in ctx.pmap(one, behs):
        ctx.cov['traces_validated_against_impl'] += 1
        if isinstance(value, str):
            value = (value, [])
        for text in ([value[0]] if value[0] else []) + list(value[1]):
            if text not in seen and len(seen) < 30:
                seen.add(text)
                ctx.violation(text[:180], text, {'kind': 'drawing', 'behaviour': behs[i]})
    ctx.count('commands', sum(len(b['prog']) for b in behs))
