"""Replay of module MetaErrors: refused uses of meta sections."""
import random

from pq import Mismatch
from projectq import MainEngine
from projectq.backends import Simulator
from projectq.meta import Compute, Control, CustomUncompute, Dagger, Loop, Uncompute
from projectq.ops import All, Measure, X


class UserError(Exception):
    pass


BAD = {
    'loop-negative': lambda eng, q, c: Loop(eng, -1),
    'loop-float': lambda eng, q, c: Loop(eng, 1.5),
    'control-tuple': lambda eng, q, c: Control(eng, (q[0], c[0])),
    'control-short': lambda eng, q, c: Control(eng, [q[0], c[0]], ctrl_state='1'),
    'control-long': lambda eng, q, c: Control(eng, [q[0], c[0]], ctrl_state='101'),
    'control-char': lambda eng, q, c: Control(eng, [q[0], c[0]], ctrl_state='1x'),
    'control-big': lambda eng, q, c: Control(eng, [q[0], c[0]], ctrl_state=4),
    'control-negative': lambda eng, q, c: Control(eng, [q[0], c[0]], ctrl_state=-1),
    'control-type': lambda eng, q, c: Control(eng, [q[0], c[0]], ctrl_state=[1, 1]),
}


def expect(want, fn, what):
    """Run fn, which must end as predicted."""
    try:
        fn()
        got = 'ok'
    except Exception as exc:  # noqa
        got = 'UserError' if isinstance(exc, UserError) else type(exc).__name__
        if want == 'ok':
            raise Mismatch(f'{what} was refused: {got}: {str(exc).strip()[:200]}') from None
    if got != want and not (want == 'error' and got != 'ok'):
        raise Mismatch(f'{what} ended with {got}, not {want}')


def run(prog):
    sim = Simulator(rnd_seed=1)
    eng = MainEngine(sim, [])
    q = list(eng.allocate_qureg(2))
    ctl = eng.allocate_qubit()
    X | ctl
    inner = {}
    cm = None
    try:
        for e in prog['ev']:
            a, want = e['a'], e['r']
            if a == 'x':
                expect(want, lambda: X | q[0], 'X')
            elif a.startswith('open-'):
                k = a[5:]
                cm = {
                    'control': lambda: Control(eng, ctl),
                    'dagger': lambda: Dagger(eng),
                    'compute': lambda: Compute(eng),
                    'custom': lambda: CustomUncompute(eng),
                }.get(k) or (lambda: Loop(eng, int(k[4:])))
                cm = cm()
                expect(want, cm.__enter__, a)
            elif a == 'close':
                expect(want, lambda: cm.__exit__(None, None, None), 'end of the section')
            elif a == 'raise':
                exc = UserError()

                def leave():
                    if not cm.__exit__(UserError, exc, None):
                        raise exc

                expect(want, leave, 'the exception in the section')
            elif a == 'alloc':
                inner[e['n']] = eng.allocate_qubit()
            elif a == 'dealloc':
                inner.pop(e['n'])[0].__del__()
            elif a == 'dealloc-outer':
                try:
                    q.pop(1).__del__()
                except KeyError:
                    pass  # already refused here
            elif a == 'measure':
                Measure | q[0]
            elif a == 'uncompute':
                expect(want, lambda: Uncompute(eng), 'Uncompute')
            elif a == 'uncompute-alone':
                expect(want, lambda: Uncompute(eng), 'Uncompute without Compute')
            elif a == 'custom-alone':
                expect(want, lambda: CustomUncompute(eng).__enter__(), 'CustomUncompute without Compute')
            elif a in BAD:
                expect(want, lambda: BAD[a](eng, q, ctl), a)
            else:
                raise KeyError(a)
        # the pipeline is as before: gates arrive at once, uncontrolled and once
        if prog['left'] == 'none':
            last = prog['ev'][-1]
            refused_compute = last['r'] == 'error' and last['a'] == 'uncompute'
            if not refused_compute:
                X | ctl
                f = eng.allocate_qubit()
                X | f
                All(Measure) | [q[0], f[0], ctl[0]]
                eng.flush()
                got = (int(q[0]), int(f[0]), int(ctl[0]))
                if got != (prog['bit'], 1, 0):
                    raise Mismatch(f'after the program (q0, fresh qubit, control) read {got}, expected {(prog["bit"], 1, 0)}')
    finally:
        # nothing may be sent into a possibly broken pipeline
        eng.active_qubits.clear()
        eng.deallocate_qubit = lambda x: None
        eng.flush = lambda *a, **k: None


def text(prog):
    return ' ; '.join(e['a'] + ('' if e['r'] == 'ok' else '!' + e['r']) for e in prog['ev'])


def check(ctx, steps, sections=None, sample=None):
    """Replay every program of the model (that uses one of the given sections)."""
    progs = list(ctx.model('MetaErrors', dict(Steps=steps), invariants=('TypeOK', 'RefusedForReason')))
    if sections is not None:
        progs = [p for p in progs if any(e['a'].startswith(s) for e in p['ev'] for s in sections)]
    if sample and len(progs) > sample:
        progs = random.Random(ctx.seed).sample(progs, sample)
    size = 200
    chunks = [progs[i : i + size] for i in range(0, len(progs), size)]

    def one(chunk):
        bad = []
        for p in chunk:
            try:
                run(p)
            except Mismatch as m:
                bad.append((str(m), p))
            except Exception as exc:
                bad.append((f'{type(exc).__name__}: {str(exc)[:200]}', p))
        return len(chunk), bad

    for _, (n, bad) in ctx.pmap(one, chunks):
        ctx.cov['traces_validated_against_impl'] += n
        ctx.count('refusal_programs', n)
        for msg, p in bad:
            ctx.violation('refusal: ' + msg, f'{msg}\n{text(p)}', {'kind': 'metaerr', 'program': p})
    if progs:
        ctx.sample(text(progs[len(progs) // 2]))
