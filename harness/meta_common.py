"""Common part of the checks of the meta sections (C05 to C08)."""
import metaerr
import pipes

INV = ('IdsDistinct', 'LiveConsistent', 'Normalised')


def exhaustive(ctx, alphabet, steps, depth, names, keep=None):
    tr = ctx.model('ProjectQMC', dict(MaxQ=5, Steps=steps, Alphabet=alphabet, MaxDepth=depth), init='MInit', nxt='MNext',
                   invariants=INV)
    tr = [t for t in tr if keep is None or keep(t)]
    ctx.run_traces(tr, [pipes.P[n] for n in names])
    ctx.count('exhaustive_programs', len(tr))


def run_meta(ctx, profile, errors):
    keep = None
    kind = {'dagger': 'dagger', 'control': 'control', 'compute': 'compute', 'loop': 'loop'}[profile]
    keep = lambda t: any(e['a'] == kind for e in t)  # noqa
    exhaustive(ctx, 'dagger', ctx.scale(4, 6), 2, ['stream', 'looptag'] if profile == 'loop' else ['stream'], keep)
    exhaustive(ctx, 'meta', ctx.scale(5, 6), 2, ['stream', 'looptag'] if profile == 'loop' else ['stream'], keep)
    n = ctx.scale(240, 4000)
    names = ['stream', 'looptag', 'hpy', 'hnegfus', 'hopt3', 'hoptneg5']
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=5, Steps=40, Profile=profile), n, invariants=INV)
    ctx.run_traces(tr, [pipes.P[x] for x in names])
    tr = ctx.behaviours('ProjectQGen', dict(MaxQ=5, Steps=36, Profile='meta'), ctx.scale(120, 2500), seed_off=3, invariants=INV)
    ctx.run_traces(tr, [pipes.P[x] for x in ('stream', 'hcpp', 'default')])
    metaerr.check(ctx, ctx.scale(4, 5), errors)
