"""C15: arithmetic circuits equal the functions they implement."""
import arith
import mathpipes
import wideruns
from checks.c14 import INV, table

P = mathpipes.P


def run(ctx):
    pat = arith.CONTROLS
    rows = ctx.model('MathTable', dict(W=ctx.scale(4, 5), H=ctx.scale(3, 3), Full=not ctx.quick), init='MInit', nxt='MNext',
                     invariants=('Injective', 'InverseBack'))
    rows = [e for e in rows if e['g']['n'] != 'User']
    small = [e for e in rows if sum(e['g']['p'][: arith.regs(e['g'])]) <= 7]
    big = [e for e in rows if e not in small]
    table(ctx, small, ('mdec',), lambda i: pat if not ctx.quick else [pat[0], pat[1 + (i + ctx.seed) % (len(pat) - 1)]], 'circuit')
    table(ctx, big, ('mdec',), lambda i: [pat[0], pat[1]], 'circuit')
    # down to one- and two-qubit gates
    pick = [e for i, e in enumerate(small) if (i + ctx.seed) % ctx.scale(6, 1) == 0]
    table(ctx, pick, ('mcx',), lambda i: [pat[i % 4]], 'circuit')
    # registers too wide to list every content
    wide = ctx.behaviours('WideTable', dict(W=1, H=1, Full=False, Lo=6, Hi=8), ctx.scale(8, 64), 12, init='WInit', nxt='WNext')
    table(ctx, [e for e in wide if e['g']['n'] != 'User'], ('mdec',), lambda i: [pat[i % 3]], 'wide', inverse=False)
    # violated preconditions are refused
    bad = ctx.model('MathTable', dict(W=3, H=2, Full=False), init='RInit', nxt='RNext')
    tasks = [(e['g'], c) for e in bad for c in ([], [1])]
    for i, why in ctx.pmap(lambda t: arith.refuse(t[0], P['mdec'], t[1], ctx.seed), tasks):
        ctx.count('refusals')
        if why:
            ctx.violation(f'refuse {tasks[i][0]["n"]}: {why.split(":")[0][:60]}', f'{tasks[i][0]} controls {tasks[i][1]}: {why}', {'gate': tasks[i][0]})
    # inside programs
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=6, Steps=36, Profile='math'), ctx.scale(240, 3000), invariants=INV, seed_off=1)
    ok = [t for t in tr if not arith.refusable(t[-1]['flat'])]
    ctx.count('programs_with_refused_gates', len(tr) - len(ok))
    ctx.run_traces(ok, [P['mdec'], P['mdecopt']])
    # registers of up to 28 qubits, from the recorded commands
    goals = ctx.behaviours('WideRuns', dict(W=1, H=1, Full=False, Lo=6, Hi=8, Top1=28, TopMod=ctx.scale(12, 16), TopMul=ctx.scale(5, 8)), ctx.scale(110, 1600), 12,
                           init='RunInit', nxt='RunNext', seed_off=7)
    wideruns.check(ctx, [e for e in goals if e['g']['n'] not in ('QFT', 'QFTdag', 'QPE', 'QPEf')])
