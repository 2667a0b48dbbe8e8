"""C19: inverse, merge, identity and equality of gates agree with their effect."""
import json

import algebra
import pq
import tlc


def run(ctx):
    sized = []
    for w in (1, 2, 3):
        consts = dict(MaxQ=8, Width=w, Full=not ctx.quick, Requests='')
        gates = ctx.model('GateAlgebra', consts, init='AInit', nxt='AStep', invariants=('InverseIsInverse', 'InverseTwice'))
        sized.extend(e for e in gates if e['ar'])
        table = {'gates': list(gates), 'choi': ctx.model('GateAlgebra', dict(consts, Requests='req.json'), init='AInit', nxt='AStep',
                                                         files={'req.json': json.dumps([[pq_id(w), pq_id(w)]])})[0]['s']}
        rounds = ctx.scale(1, 4)
        tasks = [(e, ctx.seed * 1009 + 31 * i + r) for i, e in enumerate(gates) for r in range(rounds * (8 if e['g']['n'] == 'User' else 1))]
        merges = []
        for i, (bad, ms, n) in ctx.pmap(lambda t: algebra.check_gate(t[0], table, t[1]), tasks):
            ctx.count('gate_checks', n)
            ctx.cov['traces_validated_against_impl'] += n
            merges.extend(ms)
            for sig, text in bad:
                ctx.violation(sig, text, {'gate': tasks[i][0]['g'], 'width': w})
        pairs = []
        index = {}
        for g, h, _ in merges:
            k = json.dumps([g, h])
            if k not in index:
                index[k] = len(pairs)
                pairs.append([g, h])
        if pairs:
            res = ctx.model('GateAlgebra', dict(consts, Requests='req.json'), init='AInit', nxt='AStep', files={'req.json': json.dumps(pairs)})
            want = {r['i'] - 1: pq.state_vector(r['s'])[1] for r in res}
            for g, h, eff in merges:
                ctx.count('merged_pairs')
                if not algebra.close(eff, want[index[json.dumps([g, h])]]):
                    ctx.violation(f'{g["n"]}: merge', f'{algebra.name(g)} merged with {algebra.name(h)} is not the first followed by the second',
                                  {'g': g, 'h': h})
    pairs = [(a, b, ctx.seed * 31 + i) for i, a in enumerate(sized) for b in sized[:i] if a['ar'] != b['ar']]
    for i, bad in ctx.pmap(lambda t: algebra.check_across(*t), pairs):
        ctx.count('pairs_of_different_size')
        for sig, text in bad:
            ctx.violation(sig, text, {'g': pairs[i][0]['g'], 'h': pairs[i][1]['g']})


def pq_id(w):
    return {'n': 'QOp', 'p': [0] + [0] * w}
