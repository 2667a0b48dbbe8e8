"""Mappers: replay programs of MapGen, and record traces for module Mapper."""
from projectq import MainEngine
from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper
from projectq.cengines import (
    BasicEngine,
    DummyEngine,
    GridMapper,
    IBM5QubitMapper,
    LinearMapper,
    ManualMapper,
)
from projectq.meta import LogicalQubitIDTag
from projectq.ops import (
    AllocateQubitGate,
    Allocate,
    Command,
    Deallocate,
    DeallocateQubitGate,
    FlushGate,
    H,
    Measure,
    MeasureGate,
    Rz,
    Rzz,
    Swap,
    SwapGate,
    T,
    X,
    Z,
)
from projectq.types import WeakQubitRef
from record import Tap


class Note:
    """A tag of the program."""

    def __eq__(self, other):
        return isinstance(other, Note)

    def __repr__(self):
        return 'Note'


GATES = {'X': X, 'T': T, 'Rz': Rz(0.7), 'H': H, 'CX': X, 'CXT': X, 'nCX': X, 'Swap': Swap, 'SwapT': Swap, 'CZ': Z, 'Rzz': Rzz(0.3), 'CCX': X}


class Log:
    """The events of one run, in the vocabulary of module Mapper."""

    def __init__(self):
        self.ev = []
        self.keys = []

    def blank(self, o, k):
        return {'o': o, 'k': k, 'key': -1, 't': [], 'c': [], 'q': -1, 'sw': False, 'ic': False, 'ids': [], 'at': []}

    def event(self, o, cmd):
        k = 'g'
        for x, cls in (('a', AllocateQubitGate), ('d', DeallocateQubitGate), ('m', MeasureGate), ('f', FlushGate)):
            if isinstance(cmd.gate, cls):
                k = x
        e = self.blank(o, k)
        if k != 'f':
            e['t'] = [q.id for r in cmd.qubits for q in r]
            e['c'] = [[q.id, int(s)] for q, s in zip(cmd.control_qubits, cmd.control_state)]
        tags = []
        for t in cmd.tags:
            if isinstance(t, LogicalQubitIDTag):
                e['q'] = t.logical_qubit_id
            else:
                tags.append(repr(t))
        key = (type(cmd.gate).__name__, str(cmd.gate), tags)
        if k in 'gm':
            if key not in self.keys:
                self.keys.append(key)
            e['key'] = self.keys.index(key)
        e['sw'] = isinstance(cmd.gate, SwapGate) and not e['c'] and not tags
        e['ic'] = isinstance(cmd.gate, SwapGate) or type(cmd.gate).__name__ == 'Rzz'
        return e

    def mapping(self, e, m):
        e['ids'] = sorted(m or ())
        e['at'] = [m[q] for q in e['ids']]
        return e


def topo_of(kind, **kw):
    return dict({'k': kind}, **kw)


MELBOURNE = [[0, 1], [1, 2], [1, 3], [1, 4], [2, 3], [2, 4], [3, 4]]
BOW = [[2, 1], [4, 2], [2, 0], [3, 2], [3, 4], [1, 0]]


class Spec:
    """One mapper and what the specification has to know about it."""

    def __init__(self, name, make, n, topo, jobs='no', lim=2, fixed=False, place=None):
        self.__dict__.update(name=name, make=make, n=n, topo=topo, jobs=jobs, lim=lim, fixed=fixed, place=place)


def linear(n, cyclic, storage):
    return Spec(f'linear {n} {"ring" if cyclic else "line"} {storage}', lambda: LinearMapper(n, cyclic, storage), n,
                topo_of('ring' if cyclic else 'line', n=n))


def grid(r, c, storage, ids=None):
    n = r * c
    back = ids and {i: x for i, x in enumerate(ids)}
    kw = {'mapped_ids_to_backend_ids': back} if ids else {}
    return Spec(f'grid {r}x{c} {storage} {ids or ""}', lambda: GridMapper(r, c, storage=storage, **kw), n,
                topo_of('named', n=n, cols=c, ids=list(ids)) if ids else topo_of('grid', n=n, cols=c))


def manual(n, a, b):
    f = {q: (a * q + b) % 97 for q in range(97)}.__getitem__
    return Spec(f'manual {a}q+{b}', lambda: ManualMapper(f), 97, topo_of('none'), lim=0, fixed=True, place=lambda q: f(q))


def bounded(n):
    return Spec(f'bounded {n}', lambda: BoundedQubitMapper(n), n, topo_of('none', n=n), jobs='new', lim=0)


def ibm(edges):
    return Spec(f'ibm {len(edges)}', lambda: IBM5QubitMapper(None if edges is None else {tuple(e) for e in edges}), 5, topo_of('edges', n=5, e=edges), fixed=True)


def run(spec, prog):
    """The trace of one program through the mapper."""
    log = Log()
    mapper = spec.make()
    start = [True]

    def came(cmd):
        log.ev.append(log.event('in', cmd))

    def sent(cmd):
        if spec.fixed and spec.place is None and start[0]:
            # a placement holds for a job
            log.ev.append(log.mapping(log.blank('place', ''), mapper.current_mapping))
            start[0] = False
        e = log.event('out', cmd)
        if e['k'] == 'f':
            m = mapper.current_mapping
            log.mapping(e, m)
            start[0] = True
        log.ev.append(e)

    eng = MainEngine(DummyEngine(), [Tap(came), mapper, Tap(sent)])
    names = max((q for o in prog for q in o['q']), default=-1) + 1
    if spec.place is not None:
        log.ev.append(log.mapping(log.blank('place', ''), {q: spec.place(q) for q in range(names)}))
    try:
        for o in list(prog) + [{'k': 'f', 'g': '', 'q': []}]:
            qs = [WeakQubitRef(eng, q) for q in o['q']]
            if o['k'] == 'f':
                cmd = Command(eng, FlushGate(), ([WeakQubitRef(eng, -1)],))
            elif o['k'] in 'adm':
                cmd = Command(eng, {'a': Allocate, 'd': Deallocate, 'm': Measure}[o['k']], ([qs[0]],))
                if o['k'] == 'm' and o['q'][0] % 2:
                    cmd.tags = [Note()]
            else:
                g = o['g']
                if g in ('Swap', 'SwapT', 'Rzz'):
                    regs, ctl = tuple([q] for q in qs), []
                else:
                    regs, ctl = ([qs[-1]],), qs[:-1]
                if g == 'Rzz':
                    regs = tuple([q] for q in qs)
                cmd = Command(eng, GATES[g], regs, ctl, control_state='0' if g == 'nCX' else '1' * len(ctl))
                if g in ('SwapT', 'CXT'):
                    cmd.tags = [Note()]
            try:
                eng.receive([cmd])
            except Exception as exc:
                log.ev.append(log.blank('raise', type(exc).__name__))
                break
    finally:
        eng.active_qubits.clear()
        eng.flush = lambda *a, **k: None
    return {'n': spec.n, 'topo': spec.topo, 'jobs': spec.jobs, 'lim': spec.lim, 'fixed': spec.fixed, 'ev': log.ev}


def text(prog):
    return ' ; '.join(o['k'] if o['k'] == 'f' else f'{o["k"]}{o["g"]}{o["q"]}' for o in prog)


def check(ctx, jobs):
    """jobs: (spec, program) pairs."""
    traces = []
    for i, (t, bad) in ctx.pmap(lambda j: (run(*j), None), jobs):
        traces.append((i, t))
    traces.sort(key=lambda x: x[0])
    ctx.validate('Mapper', [t for _, t in traces], lambda k: jobs[k][0].name, lambda k: text(jobs[k][1]))
