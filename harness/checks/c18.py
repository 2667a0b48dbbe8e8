"""C18: the algebra of Pauli operators."""
import pauli

INV = ('Canonical', 'MatrixProduct', 'RingLaws', 'InverseLaw')


def run(ctx):
    rows = ctx.model('PauliAlgebra', dict(NQ=3, Steps=0, Mode='pairs'), invariants=INV)
    n = 64
    for i, (bad, k) in ctx.pmap(lambda i: pauli.pairs(rows[i::n], ctx.seed * 1009 + i), range(n)):
        ctx.count('term_pairs', k)
        for sig, text in bad[:3]:
            ctx.violation(sig, text, {'seed': ctx.seed * 1009 + i})
    tr = ctx.behaviours('PauliAlgebra', dict(NQ=3, Steps=90, Mode='walk'), ctx.scale(3000, 30000), invariants=INV, init='Init', nxt='Next')
    tr += ctx.behaviours('PauliAlgebra', dict(NQ=1, Steps=90, Mode='walk'), ctx.scale(300, 3000), invariants=INV, seed_off=1, init='Init', nxt='Next')
    for i, (bad, at, k) in ctx.pmap(lambda i: pauli.walk(tr[i], ctx.seed * 1009 + i), range(len(tr))):
        ctx.count('operator_checks', k)
        ctx.cov['traces_validated_against_impl'] += 1
        for sig, text in bad[:2]:
            ctx.violation(sig, text, {'events': tr[i][: at + 1], 'seed': ctx.seed * 1009 + i})
