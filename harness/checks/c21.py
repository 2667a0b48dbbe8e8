"""C21: Pauli operators and time evolution as gates."""
import pauli
import termsets
from pipes import P

INV = ('IdsDistinct', 'LiveConsistent', 'Normalised')


def run(ctx):
    n = ctx.scale(320, 4000)
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=4, Steps=40, Profile='te'), n, invariants=INV)
    ctx.run_traces(tr, [P[x] for x in ('tecpp', 'tefus', 'tepy', 'teopt')])
    # commuting terms: also by the decomposition rules
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=4, Steps=40, Profile='tec'), n, invariants=INV, seed_off=1)
    ctx.run_traces(tr, [P[x] for x in ('tedeccpp', 'tedecpy', 'tecpp', 'default')])
    # which sums may be taken apart
    rec = list(ctx.model('TermSets', dict(NQ=2, MaxLen=ctx.scale(2, 3), Random=False), invariants=('ProductsCommute', 'RowsCommute')))
    rec += ctx.behaviours('TermSets', dict(NQ=3, MaxLen=5, Random=True), ctx.scale(1500, 15000), seed_off=3, init='Init', nxt='Next', invariants=('ProductsCommute',))
    for i, bad in ctx.pmap(lambda i: termsets.check(rec[i], ctx.seed * 1009 + i), range(len(rec))):
        ctx.count('hamiltonians')
        ctx.cov['traces_validated_against_impl'] += 1
        if bad:
            ctx.violation(f'sum {bad.split(":")[0]}', bad, {'terms': rec[i], 'seed': ctx.seed * 1009 + i})
    # what is refused
    tr = ctx.behaviours('PauliAlgebra', dict(NQ=3, Steps=90, Mode='walk'), ctx.scale(1500, 15000), seed_off=2, init='Init', nxt='Next')
    for i, (bad, at, k) in ctx.pmap(lambda i: pauli.walk(tr[i], ctx.seed * 1009 + i, True), range(len(tr))):
        ctx.count('operator_checks', k)
        ctx.cov['traces_validated_against_impl'] += 1
        for sig, text in bad[:2]:
            if sig.startswith(('apply', 'hermitian')):
                ctx.violation(sig, text, {'events': tr[i][: at + 1], 'seed': ctx.seed * 1009 + i})
