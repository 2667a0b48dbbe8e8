"""Translation of specification gates to ProjectQ gates, and execution of specification programs on ProjectQ."""
import cmath
import functools
import gc
import math
import random
import sys

import numpy as np

import projectq
from projectq.ops import AllocateQubitGate, CtrlAll, DeallocateQubitGate, FlushGate, MeasureGate
from projectq.meta import Compute, Control, CustomUncompute, Dagger, Loop, Uncompute
from projectq.ops import (
    CNOT,
    CRz,
    CX,
    CZ,
    NOT,
    QFT,
    All,
    Allocate,
    Barrier,
    C,
    DaggeredGate,
    Deallocate,
    Entangle,
    FlipBits,
    H,
    MatrixGate,
    Measure,
    Ph,
    QAA,
    QPE,
    QubitOperator,
    R,
    Rx,
    Rxx,
    Ry,
    Ryy,
    Rz,
    Rzz,
    S,
    Sdag,
    SqrtSwap,
    SqrtX,
    StatePreparation,
    Swap,
    T,
    Tdag,
    Tensor,
    TimeEvolution,
    Toffoli,
    UniformlyControlledRy,
    UniformlyControlledRz,
    X,
    Y,
    Z,
    get_inverse,
)
from projectq.cengines import NotYetMeasuredError
from projectq.types import WeakQubitRef
import projectq.libs.math as plm
import projectq.libs.math._gates as plmg

PHI = math.atan2(3.0, 4.0)
ZETA = [cmath.exp(1j * math.pi * k / 8) for k in range(8)]
ATOL = 1e-7


INTERCHANGEABLE = {'Swap', 'SqrtSwap', 'SqrtSwapdag', 'Rxx', 'Ryy', 'Rzz'}


class Mismatch(Exception):
    """The implementation disagrees with the specification."""


class Retry(Exception):
    """A random measurement outcome differs from the one of the behaviour: try another seed."""


class Skip(Exception):
    """The behaviour is not applicable to the pipeline."""


def ring(c):
    return sum(x * z for x, z in zip(c, ZETA) if x)


def angle(k, m):
    return k * math.pi / 8 + m * PHI


def state_vector(s):
    """Specification state -> (ids, complex vector); not normalised after measurements."""
    n = len(s['ids'])
    v = s['v']
    if isinstance(v, dict):
        arr = np.array([ring(v[str(i)]) for i in range(2**n)], dtype=complex)
    else:
        arr = np.array([ring(x) for x in v], dtype=complex)
    return list(s['ids']), arr / (2.0 ** s['e2'] * 5.0 ** s['e5'])


def pauli_terms(codes):
    return tuple((i, 'IXYZ'[c]) for i, c in enumerate(codes) if c)


# matrices of the user-defined gates; filled from the specification (module GateTables)
USER_MATRICES = {}


def user_matrix(name):
    if not USER_MATRICES:
        import tables

        USER_MATRICES.update(tables.user_matrices())
    return USER_MATRICES[name]


class UserMath(projectq.ops.BasicMathGate):
    """x -> 5 x + c; the register width does not appear: results are taken modulo 2^n."""

    def __init__(self, c):
        super().__init__(lambda x: (5 * x + c,))
        self.c = c

    def __str__(self):
        return f'UserMath({self.c})'

    def __eq__(self, other):
        return isinstance(other, UserMath) and self.c == other.c

    def __hash__(self):
        return hash(str(self))


class UserMathPlain(projectq.ops.BasicMathGate):
    """The same without a comparison of its own."""

    def __init__(self, c):
        super().__init__(lambda x: (5 * x + c,))


@functools.lru_cache(None)
def qpe_unitary(u, k, m):
    if u == 5:
        def two_qubit_function(system, time):
            C(X) | (system[0], system[1])
            Ry(2 * angle(k, m) * time) | system[0]
            R(angle(k, 0) * time) | system[1]

        # order of the specification: the rotation of the first, the phase of the second, after the CNOT
        return two_qubit_function
    if u == 6:
        return MatrixGate(user_matrix('M2a'))
    return [R(angle(k, m)), Rz(2 * angle(k, m)), X, H, Ph(angle(k, m)), None, None, Ry(2 * angle(k, m))][u]


@functools.lru_cache(None)
def qaa_algorithm(a):
    def algorithm(eng, system):
        for i, q in enumerate(system):
            (H if a % 2 == 0 else Ry(2 * angle(3 + i, 0))) | q
        if a >= 2:
            for i in range(len(system) - 1):
                CNOT | (system[i], system[i + 1])
        if a >= 4:
            T | system[0]

    return algorithm


@functools.lru_cache(None)
def qaa_oracle(v):
    def oracle(eng, system, ancilla):
        with Compute(eng):
            FlipBits(~v) | system
        with Control(eng, system):
            X | ancilla
        Uncompute(eng)

    return oracle


MATH_REGS = {
    'AddC': 1, 'SubC': 1, 'AddCModN': 1, 'SubCModN': 1, 'MulCModN': 1, 'User': 1,
    'AddQ': 2, 'AddQdag': 2, 'SubQ': 2, 'SubQdag': 2,
}
MATH_NAMES = set(MATH_REGS) | {'AddQc', 'AddQcdag', 'Cmp', 'Mul', 'Muldag', 'Div', 'Divdag'}
SIMPLE = {'X': X, 'NOT': NOT, 'Y': Y, 'Z': Z, 'H': H, 'S': S, 'T': T, 'SqrtX': SqrtX, 'Swap': Swap, 'SqrtSwap': SqrtSwap,
          'I': None}


# the same rotation, written with angles of other periods
PERIODS = [0, 0, 0, 0, 0, 1, -1, -2, 25]


def make_gate(g, ntargets, rng=None):
    """Returns (gate, register widths) for a specification gate."""
    n, p = g['n'], g['p']
    rng = rng or random.Random(0)
    if n == 'I':
        return MatrixGate(np.eye(2)), [1]
    if n in SIMPLE:
        return SIMPLE[n], [1] * ntargets
    if n in ('Sdag', 'Tdag'):
        base = S if n == 'Sdag' else T
        return rng.choice([get_inverse(base), base.get_inverse() if False else (Sdag if n == 'Sdag' else Tdag)]), [1]
    if n in ('SqrtXdag', 'SqrtSwapdag'):
        return get_inverse(SqrtX if n == 'SqrtXdag' else SqrtSwap), [1] * ntargets
    if n in ('Rx', 'Ry', 'Rz', 'Rxx', 'Ryy', 'Rzz'):
        th = 2 * angle(*p) + 4 * math.pi * rng.choice(PERIODS)
        return {'Rx': Rx, 'Ry': Ry, 'Rz': Rz, 'Rxx': Rxx, 'Ryy': Ryy, 'Rzz': Rzz}[n](th), [1] * ntargets
    if n in ('R', 'Ph'):
        return (R if n == 'R' else Ph)(angle(*p) + 2 * math.pi * rng.choice(PERIODS)), [1]
    if n[0] == 'M' and n[1].isdigit():
        if n.endswith('dag'):
            return get_inverse(MatrixGate(user_matrix(n[:-3]))), [1] * ntargets
        return MatrixGate(user_matrix(n)), [1] * ntargets
    if n == 'QFT':
        return QFT, [ntargets]
    if n == 'QFTdag':
        return get_inverse(QFT), [ntargets]
    if n == 'Entangle':
        return Entangle, [ntargets]
    if n == 'Entangledag':
        return get_inverse(Entangle), [ntargets]
    if n in ('UCRy', 'UCRz'):
        ang = [2 * angle(p[2 * i], p[2 * i + 1]) + 4 * math.pi * rng.choice(PERIODS) for i in range(len(p) // 2)]
        cls = UniformlyControlledRy if n == 'UCRy' else UniformlyControlledRz
        return cls(ang), [ntargets - 1, 1]
    if n == 'QOp':
        return QubitOperator(pauli_terms(p[1:]), cmath.exp(1j * math.pi * p[0] / 8)), [ntargets]
    if n == 'TE':
        c = rng.choice([1.0, 0.5, -1.0, 2.0, 1.0])
        if p[0] == p[1] == 0 and rng.random() < 0.5:
            return TimeEvolution(rng.choice([1.5, 0.0]), QubitOperator(pauli_terms(p[2:]), 0.0)), [ntargets]
        return TimeEvolution(angle(p[0], p[1]) / c, QubitOperator(pauli_terms(p[2:]), c)), [ntargets]
    if n == 'TE2':
        c = rng.choice([1.0, 0.5, -1.0, 1.0])
        a, b = p[2 : 2 + ntargets], p[2 + ntargets :]
        r = c / math.sqrt(2)
        h = QubitOperator(pauli_terms(a), r) + QubitOperator(pauli_terms(b), r)
        return TimeEvolution(angle(p[0], p[1]) / c, h), [ntargets]
    if n == 'TEG':
        t = rng.choice([1.0, 0.5, -1.0, 2.0, -0.25])
        h = QubitOperator()
        w = 3 + 2 * p[0]
        for i in range(p[1]):
            kind, k, m, *codes = p[2 + i * w : 2 + (i + 1) * w]
            c = angle(k, m) / t / (1 if kind == 1 else math.sqrt(2))
            for j in range(kind):
                cs = codes[j * p[0] : (j + 1) * p[0]]
                if c == 0 and rng.random() < 0.5:
                    continue
                h += QubitOperator(pauli_terms(cs), c if rng.random() < 0.8 else complex(c))
        return TimeEvolution(t, h), [ntargets]
    if n == 'Flip':
        m, full = p[0], (1 << ntargets) - 1
        forms = [m, m & full, (m & full) - (full + 1) if ntargets else m, [(m >> i) & 1 for i in range(ntargets)],
                 ''.join(str((m >> i) & 1) for i in range(ntargets)), [bool((m >> i) & 1) for i in range(ntargets)]]
        return FlipBits(rng.choice(forms)), [ntargets]
    if n in ('Prep', 'Prepdag'):
        nrm = math.sqrt(sum(a * a for a in p[::2]))
        amps = [a * cmath.exp(1j * math.pi * k / 8) / nrm for a, k in zip(p[::2], p[1::2])]
        if rng.random() < 0.3:
            amps = np.array(amps)
        elif all(k % 8 == 0 for k in p[1::2]) and rng.random() < 0.7:
            amps = [a.real for a in amps]
        g = StatePreparation(amps)
        return (g if n == 'Prep' else get_inverse(g)), [ntargets]
    if n in ('QPE', 'QPEdag'):
        g = QPE(qpe_unitary(*p[1:]))
        return (g if n == 'QPE' else get_inverse(g)), [p[0], ntargets - p[0]]
    if n in ('QAA', 'QAAdag'):
        g = QAA(qaa_algorithm(p[0]), qaa_oracle(p[1]))
        return (g if n == 'QAA' else get_inverse(g)), [ntargets - 1, 1]
    if n in MATH_NAMES:
        nr = MATH_REGS.get(n, 3)
        w, k = list(p[:nr]), p[nr:]
        if n == 'AddC':
            return plm.AddConstant(k[0]), w
        if n == 'SubC':
            return plm.SubConstant(k[0]), w
        if n == 'AddCModN':
            return plm.AddConstantModN(k[0], k[1]), w
        if n == 'SubCModN':
            return plm.SubConstantModN(k[0], k[1]), w
        if n == 'MulCModN':
            return plm.MultiplyByConstantModN(k[0], k[1]), w
        if n == 'User':
            c = k[0]
            return rng.choice([UserMath, UserMath, UserMathPlain, lambda c: projectq.ops.BasicMathGate(lambda x: (5 * x + c,))])(c), w
        base = {'AddQ': plm.AddQuantum, 'AddQc': plm.AddQuantum, 'SubQ': plm.SubtractQuantum,
                'Cmp': plm.ComparatorQuantum, 'Mul': plm.MultiplyQuantum, 'Div': plm.DivideQuantum}
        if n.endswith('dag'):
            return get_inverse(base[n[:-3]]), w
        return base[n], w
    raise KeyError(n)


# ------------------------------------------------------------------ programs
def parse(events):
    """Flat event list -> nested program."""
    pos = 0

    def block(end):
        nonlocal pos
        items = []
        while pos < len(events):
            e = events[pos]
            a = e['a']
            if a in end:
                return items, a
            pos += 1
            if a in ('control', 'dagger', 'loop'):
                body, _ = block(('close',))
                pos += 1
                items.append((a, e, body))
            elif a == 'compute':
                comp, _ = block(('close',))
                pos += 1
                act, which = block(('uncompute', 'customuncompute'))
                pos += 1
                unc = None
                if which == 'customuncompute':
                    unc, _ = block(('close',))
                    pos += 1
                items.append(('compute', e, comp, act, unc))
            else:
                items.append((a, e))
        return items, None

    items, _ = block(())
    return items


REGISTER_GATES = ('QFT', 'QFTdag', 'Entangle', 'Entangledag', 'QOp', 'TE', 'TE2', 'TEG', 'Flip', 'Prep', 'Prepdag', 'QPE', 'QPEdag', 'QAA', 'QAAdag')


class Runner:
    """Executes a specification program on a ProjectQ engine and compares every predicted observation."""

    canonical = ()  # gates that are always written in the same way

    def __init__(self, env, rng, mode='strict', negx=False, atol=ATOL, check_states=True, controls='any'):
        self.env = env
        self.eng = env.eng
        self.rng = rng
        self.mode = mode
        self.negx = negx
        self.atol = atol
        self.q = {}
        self.check_states = check_states
        self.observed = 0
        self.pending = []
        self.controls = controls
        self.nmeas = 0
        self.last = {}  # last recorded measurement results
        if rng.random() < 0.4:
            # ids that were handed out earlier
            for _ in range(rng.randrange(1, 12)):
                self.eng.get_new_qubit_id()

    # -- helpers
    def regs(self, t, widths):
        out, i = [], 0
        for w in widths:
            out.append([self.q[x] for x in t[i : i + w]])
            i += w
        assert i == len(t), (t, widths)
        return out

    def wrap(self, regs):
        """Tuple of registers as the user may write it."""
        res = []
        for r in regs:
            if len(r) == 1 and self.rng.random() < 0.6:
                res.append(r[0])
            else:
                res.append(list(r))
        if len(res) == 1 and self.rng.random() < 0.7:
            return res[0]
        return tuple(res)

    def ctrl_state(self, s):
        form = self.rng.randrange(4)
        if all(s) and form == 0:
            return CtrlAll.One
        if not any(s) and form <= 1:
            return CtrlAll.Zero
        if form == 2:
            return sum(b << i for i, b in enumerate(s))
        return ''.join(map(str, s))

    def ctrl_block(self, c, s, body):
        qs = [self.q[x] for x in c]
        flips = []
        if self.negx:
            flips = [q for q, b in zip(qs, s) if not b]
            s = [1] * len(s)
        for f in flips:
            X | f
        arg = qs[0] if len(qs) == 1 and self.rng.random() < 0.5 else qs
        if all(s) and self.rng.random() < 0.5:
            with Control(self.eng, arg):
                body()
        else:
            with Control(self.eng, arg, ctrl_state=self.ctrl_state(s)):
                body()
        for f in flips:
            X | f

    def gate(self, e):
        gate, widths = make_gate(e['g'], len(e['t']), None if e['g']['n'] in self.canonical else self.rng)
        regs = self.regs(e['t'], widths)
        n = e['g']['n']
        if n[0] == 'M' and n[1].isdigit() and len(regs) > 1 and self.rng.random() < 0.3:
            regs = [[q for r in regs for q in r]]
        if n in ('UCRy', 'UCRz'):
            target = (list(regs[0]), regs[1][0] if self.rng.random() < 0.5 else list(regs[1]))
        elif n in MATH_NAMES or n in REGISTER_GATES:
            target = tuple(list(r) for r in regs)
            if len(target) == 1 and self.rng.random() < 0.7:
                target = target[0]
        else:
            target = self.wrap(regs)
        c, s = e['c'], e['s']
        if not c:
            gate | target
            return
        if all(s) and self.rng.random() < 0.5:
            # C(), CNOT, Toffoli, ... forms
            cq = [self.q[x] for x in c]
            tup = target if isinstance(target, tuple) else (target,)
            if self.rng.random() < 0.5:
                if n in ('X', 'NOT') and len(c) == 1:
                    self.rng.choice([CNOT, CX]) | ((cq[0],) + tup)
                    return
                if n == 'Z' and len(c) == 1:
                    CZ | ((cq[0],) + tup)
                    return
                if n in ('X', 'NOT') and len(c) == 2:
                    Toffoli | ((cq[0], cq[1]) + tup)
                    return
                if n == 'Rz' and len(c) == 1:
                    CRz(2 * angle(*e['g']['p'])) | ((cq[0],) + tup)
                    return
            if n not in ('QOp', 'TE', 'TE2', 'TEG') and not (isinstance(tup[0], (list, tuple)) and len(tup[0]) == 0):
                if self.rng.random() < 0.5:
                    C(gate, len(c)) | ((cq,) + tup)
                else:
                    C(gate, len(c)) | (tuple(cq) + tup)
                return
        if len(c) > 1 and self.rng.random() < 0.3:
            # nested control blocks
            self.ctrl_block(c[:1], s[:1], lambda: self.ctrl_block(c[1:], s[1:], lambda: self.op(gate, target)))
            return
        self.ctrl_block(c, s, lambda: self.op(gate, target))

    @staticmethod
    def op(gate, target):
        gate | target

    def all(self, e):
        gate, _ = make_gate(e['g'], 1, None if e['g']['n'] in self.canonical else self.rng)
        qs = [self.q[x] for x in e['t']]
        form = self.rng.randrange(3)
        if form == 0:
            All(gate) | qs
        elif form == 1:
            Tensor(gate) | (qs,)
        else:
            for q in qs:
                gate | q

    # -- execution
    def items(self, items):
        i = 0
        while i < len(items):
            it = items[i]
            if it[0] == 'measure':
                group = [it[1]]
                while i + 1 < len(items) and items[i + 1][0] == 'measure' and self.rng.random() < 0.7:
                    i += 1
                    group.append(items[i][1])
                self.measure(group)
            else:
                self.item(it)
            i += 1

    def item(self, it):
        k, e = it[0], it[1]
        if k == 'gate':
            self.gate(e)
        elif k == 'all':
            self.all(e)
        elif k == 'alloc':
            self.q[e['q']] = self.alloc()
            try:
                int(self.q[e['q']])
            except NotYetMeasuredError:
                pass
            else:
                raise Mismatch(f'the new qubit {e["q"]} already has a measurement result')
        elif k == 'dealloc':
            qb = self.q.pop(e['q'])
            qb.__del__()
            del qb
        elif k == 'control':
            if not e['c']:
                with Control(self.eng, []):
                    self.items(it[2])
            else:
                self.ctrl_block(e['c'], e['s'], lambda: self.items(it[2]))
        elif k == 'dagger':
            with Dagger(self.eng):
                self.items(it[2])
        elif k == 'loop':
            with Loop(self.eng, e['n']):
                self.items(it[2])
        elif k == 'compute':
            before = set(self.q)
            with Compute(self.eng):
                self.items(it[2])
            mine = set(self.q) - before
            self.items(it[3])
            if it[4] is None:
                Uncompute(self.eng)
            else:
                with CustomUncompute(self.eng):
                    self.items(it[4])
            for x in mine:
                qb = self.q.pop(x)
                del qb
        elif k == 'flush':
            self.eng.flush()
            for x, r in self.last.items():
                if x in self.q and int(self.q[x]) != r:
                    raise Mismatch(f'qubit {x} was measured as {r} but now reads {int(self.q[x])}')
            if self.check_states:
                self.compare(e['s'])
            if 'flat' in e and getattr(self.env, 'recorder', None) is not None:
                self.stream(e['flat'])
        else:
            self.query(k, e)

    def alloc(self):
        if self.rng.random() < 0.5:
            return self.eng.allocate_qubit()[0]
        return self.eng.allocate_qureg(1)[0]

    def measure(self, group):
        # before/after handles
        qs = [self.q[e['q']] for e in group]
        form = self.rng.randrange(2)
        if len(qs) == 1:
            Measure | qs[0]
        elif form == 0:
            All(Measure) | qs
        else:
            for q in qs:
                Measure | q
        self.eng.flush()
        for e, q in zip(group, qs):
            out = int(q)
            self.nmeas += 1
            if bool(q) != bool(out):
                raise Mismatch('int(qubit) and bool(qubit) differ')
            if out != e['r']:
                if e['det'] != 2:
                    raise Mismatch(f'measuring qubit {e["q"]} in a certain state {e["det"]} gave {out}')
                raise Retry()
            self.last[e['q']] = out
            self.observed += 1

    # -- observations
    def location(self, x):
        """The id the backend knows qubit x by."""
        i = self.q[x].id
        m = self.eng.mapper
        if m is None:
            return i
        return m.current_mapping[i]

    def real_state(self, ids):
        mp, vec = self.env.backend.cheat()
        vec = np.asarray(vec)
        if len(mp) != len(ids):
            raise Mismatch(f'the simulator holds {len(mp)} qubits, the program {len(ids)}')
        n = len(ids)
        try:
            pos = [mp[self.location(x)] for x in ids]
        except KeyError as err:
            raise Mismatch(f'the simulator does not know qubit {err}') from None
        if sorted(pos) != list(range(n)) or len(vec) != 2**n:
            raise Mismatch(f'bad qubit order {mp} or length {len(vec)}')
        t = vec.reshape([2] * n) if n else vec
        # axis a of t is bit n-1-a;  wanted axis a <-> ids[n-1-a]
        return np.transpose(t, [n - 1 - pos[n - 1 - a] for a in range(n)]).reshape(-1) if n else vec

    def compare(self, s):
        ids, want = state_vector(s)
        norm = np.linalg.norm(want)
        want = want / norm
        got = self.real_state(ids)
        self.observed += 1
        self.same(want, got, 'wavefunction')

    def stream(self, flat):
        """The recorded commands are exactly the operations of the specification, in order."""
        cmds = [c for c in self.env.recorder.commands if not isinstance(c.gate, FlushGate)]
        names = {}

        def wrong(i, why):
            got = [f'{c.gate} {[[q.id for q in r] for r in c.qubits]} controls {[q.id for q in c.control_qubits]}'
                   f'/{c.control_state} tags {len(c.tags)}' for c in cmds[max(0, i - 1) : i + 2]]
            raise Mismatch(f'command {i} of the stream: {why}; expected {flat[i] if i < len(flat) else None}, near {got}')

        for i, op in enumerate(flat):
            if i >= len(cmds):
                wrong(i, 'missing')
            c = cmds[i]
            ids = [q.id for r in c.qubits for q in r]
            kind = 'adgm'[[isinstance(c.gate, AllocateQubitGate), isinstance(c.gate, DeallocateQubitGate), True].index(True)]
            if isinstance(c.gate, MeasureGate):
                kind = 'm'
            if kind != op['o']:
                wrong(i, 'wrong kind')
            if kind == 'a':
                names[op['t'][0]] = ids[0]
            if any(x not in names for x in op['t'] + op['c']):
                wrong(i, 'internal: unknown qubit')
            want = [names[x] for x in op['t']]
            if kind == 'g':
                g, _ = make_gate(op['g'], len(want))
                if not hasattr(g, 'matrix') or not hasattr(c.gate, 'matrix'):
                    if not g == c.gate:
                        wrong(i, f'gate {c.gate} instead of {g}')
                elif np.shape(g.matrix) != np.shape(c.gate.matrix) or not np.allclose(g.matrix, c.gate.matrix, atol=self.atol):
                    wrong(i, f'gate {c.gate} instead of {g}')
                if op['g']['n'] in INTERCHANGEABLE:
                    want, ids = sorted(want), sorted(ids)
            if want != ids:
                wrong(i, f'on qubits {ids} instead of {want}')
            k = len(op['c']) if op['k'] < 0 else op['k']
            ctl = sorted((names[x], str(b)) for x, b in list(zip(op['c'], op['s']))[:k])
            got = list(zip(*c.seen))
            if len(c.seen[0]) != len(c.seen[1]):
                wrong(i, 'control state and control qubits do not match')
            if got != ctl:
                wrong(i, f'controls {got} instead of {ctl}')
            tags = ''.join({'ComputeTag': 'C', 'UncomputeTag': 'U'}.get(type(t).__name__, '?') for t in c.tags)
            if tags != ''.join(op['tg']):
                wrong(i, f'tags {tags!r} instead of {"".join(op["tg"])!r}')
            self.observed += 1
        if len(cmds) != len(flat):
            wrong(len(flat), f'{len(cmds) - len(flat)} commands too many')

    def same(self, want, got, what):
        if self.mode == 'phase':
            ov = np.vdot(want, got)
            if abs(abs(ov) - 1) > 10 * self.atol or abs(np.linalg.norm(got) - 1) > 10 * self.atol:
                raise Mismatch(f'{what} differs (overlap {abs(ov):.6f}): expected {np.round(want, 5)} got {np.round(got, 5)}')
        else:
            d = np.max(np.abs(want - got))
            if not d <= self.atol:
                raise Mismatch(f'{what} differs by {d:.3g}: expected {np.round(want, 5)} got {np.round(got, 5)}')

    def near(self, want, got, what):
        if not abs(want - got) <= self.atol * 10:
            raise Mismatch(f'{what}: expected {want} got {got}')
        self.observed += 1

    def histogram(self, sim, qs, bits, want):
        """The histogram shows the probability of every outcome."""
        try:
            import matplotlib.pyplot as plt

            from projectq.libs.hist import histogram
        except ImportError:
            return
        from projectq.backends import Simulator

        if not isinstance(sim, Simulator):  # a second copy of the class, made for the Python back end
            return
        k = self.rng.randrange(len(qs) + 1)
        fig, axes, probs = histogram(sim, self.rng.choice([list(qs), [list(qs)], [list(qs[:k])] + list(qs[k:])]))
        try:
            if sorted(probs) != sorted(format(i, f'0{len(qs)}b') for i in range(2 ** len(qs))):
                raise Mismatch(f'histogram over {len(qs)} qubits has outcomes {sorted(probs)}')
            self.near(want, probs[bits], f'probability of {bits} in the histogram')
            self.near(1.0, sum(probs.values()), 'sum of the histogram')
            fig.canvas.draw()
            names = [t.get_text() for t in axes.get_xticklabels()]
            bars = {n: b.get_height() for n, b in zip(names, axes.patches)}
            if sorted(bars) != sorted(probs) or any(abs(bars[n] - probs[n]) > 1e-9 for n in probs):
                raise Mismatch(f'the bars {bars} do not show {probs}')
        finally:
            plt.close(fig)

    def query(self, k, e):
        sim = self.env.backend
        self.eng.flush()
        if k == 'bad':
            self.bad_query(e['k'])
            return
        if k == 'setwf':
            n = len(e['q'])
            v = e['w']['v']
            w = np.array([ring(v[str(i)] if isinstance(v, dict) else v[i]) for i in range(2**n)])
            w = w / (2.0 ** e['w']['e2'] * 5.0 ** e['w']['e5'])
            sim.set_wavefunction(w if self.rng.random() < 0.5 else list(w), [self.q[x] for x in e['q']])
            return
        qs = [self.q[x] for x in e['q']]
        if k == 'prob':
            bits = e['b'] if self.rng.random() < 0.5 else ''.join(map(str, e['b']))
            den = ring(e['den']).real
            self.near(ring(e['num']).real / den, sim.get_probability(bits, qs), f'probability of {bits}')
            if len(qs) <= 3 and self.rng.random() < 0.1:
                self.histogram(sim, qs, ''.join(map(str, e['b'])), ring(e['num']).real / den)
        elif k == 'amp':
            ids, vec = state_vector(e['s'])
            nrm = np.linalg.norm(vec)
            want = ring(e['num']) / (2.0 ** e['s']['e2'] * 5.0 ** e['s']['e5']) / nrm
            got = sim.get_amplitude(''.join(map(str, e['b'])), qs)
            if self.mode == 'phase':
                want, got = abs(want), abs(got)
            self.near(want, got, f'amplitude of {e["b"]}')
        elif k == 'expect':
            op = QubitOperator()
            want = 0
            for (coef, codes), num in zip(e['terms'], e['nums']):
                op += QubitOperator(pauli_terms(codes), coef)
                want += coef * ring(num).real
            self.near(want / ring(e['den']).real, sim.get_expectation_value(op, qs), f'expectation value of {op}')
        elif k == 'collapse':
            if e['ok']:
                sim.collapse_wavefunction(qs, e['b'])
            else:
                before = [np.array(sim.cheat()[1])]
                try:
                    sim.collapse_wavefunction(qs, e['b'])
                except RuntimeError:
                    if not np.allclose(before[0], sim.cheat()[1], atol=self.atol):
                        raise Mismatch('refused collapse changed the state') from None
                    return
                raise Mismatch(f'collapse onto {e["b"]} of probability 0 was accepted')
        elif k == 'qop':
            sim.apply_qubit_operator(
                QubitOperator(pauli_terms(e['codes']), cmath.exp(1j * math.pi * e['k'] / 8)), qs)
        else:
            raise KeyError(k)

    def bad_query(self, kind):
        sim = self.env.backend
        live = list(self.q.values())
        unknown = WeakQubitRef(self.eng, 10**6)
        n = len(live)
        what, how = kind.split('-')
        before = [dict(sim.cheat()[0]), np.array(sim.cheat()[1])]
        other = live[:-1] + [unknown]

        def attempt():
            if what == 'prob':
                sim.get_probability([0] * (n - (how == 'short')), other if how == 'unknown' else live)
            elif what == 'amp':
                sim.get_amplitude([0] * (n - (how == 'short') - (how == 'missing')),
                                  {'unknown': other, 'missing': live[:-1]}.get(how, live))
            elif what == 'setwf':
                m = {'long': 2 ** (n + 3), 'short': 2 ** (n - 1), 'missing': 2 ** (n - 1)}.get(how, 2**n)
                sim.set_wavefunction([1.0] + [0.0] * (m - 1), {'unknown': other, 'missing': live[:-1]}.get(how, live))
            elif what == 'collapse':
                sim.collapse_wavefunction(other if how == 'unknown' else live,
                                          [0] * {'short': n - 1, 'long': n + 1}.get(how, n))
            elif what == 'expect':
                sim.get_expectation_value(QubitOperator(f'X0 Z{n}') + QubitOperator('Y0'), live)
            elif what == 'qop':
                sim.apply_qubit_operator(QubitOperator(f'Z{n}'), live)
            elif what == 'read':
                free = [q for x, q in self.q.items() if x not in self.last]
                int(free[0]) if free else int(unknown)

        try:
            attempt()
        except NotYetMeasuredError:
            if what != 'read':
                raise Mismatch(f'{kind}: NotYetMeasuredError') from None
        except Exception as exc:
            if what == 'read':
                raise Mismatch(f'reading a qubit that was not measured: {type(exc).__name__}') from None
        else:
            raise Mismatch(f'{kind} was accepted')
        after = sim.cheat()
        if dict(after[0]) != before[0] or not np.allclose(after[1], before[1], atol=self.atol):
            raise Mismatch(f'refused {kind} changed the state')
        self.observed += 1

    def finish(self):
        """Measure and release what is left; nothing may remain in the backend."""
        qs = list(self.q.values())
        if qs:
            All(Measure) | qs
            self.eng.flush()
            for q in qs:
                int(q)
        while self.q:
            _, q = self.q.popitem()
            q.__del__()
        del qs
        self.eng.flush(deallocate_qubits=True)
        if hasattr(self.env.backend, 'cheat'):
            mp, _ = self.env.backend.cheat()
            if len(mp):
                raise Mismatch(f'{len(mp)} qubits are left in the simulator after everything was released')


_unraisable = []


def _hook(u):
    if 'projectq' in repr(getattr(u.exc_value, '__traceback__', None) and u.exc_value.__traceback__.tb_frame) or True:
        _unraisable.append(f'{type(u.exc_value).__name__}: {str(u.exc_value)[:300]}')


def run_trace(events, pipe, seed, tries=60):
    """Run one behaviour on one pipeline.  Returns statistics; raises Mismatch."""
    prog = parse(events)
    sys.unraisablehook = _hook
    for k in range(tries):
        rng = random.Random(seed)
        env = None
        r = None
        _unraisable.clear()
        try:
            env = pipe.make(seed % 65537 * 64 + k)
            r = pipe.runner(env, rng)
            r.items(prog)
            r.finish()
            out = pipe.after(env, r)
            ok = True
        except Retry:
            ok = False
        except (Mismatch, Skip):
            _drop(env, r)
            raise
        except Exception as exc:  # every exception of the code under test is a finding
            _drop(env, r)
            tb = exc.__traceback__
            where = ''
            while tb is not None:
                f = tb.tb_frame.f_code
                if 'projectq' in f.co_filename:
                    where = f'{f.co_filename.split("projectq/", 1)[-1]}:{tb.tb_lineno}'
                tb = tb.tb_next
            raise Mismatch(f'{type(exc).__name__}: {str(exc)[:400]} (at {where})') from None
        bad = list(_unraisable)
        _drop(env, r)
        if ok:
            if bad or _unraisable:
                raise Mismatch('error while qubits were released: ' + (bad or _unraisable)[0])
            res = {'observations': r.observed, 'tries': k + 1, 'measurements': r.nmeas}
            if out is not None:
                res['out'] = out
            return res
    return {'observations': 0, 'tries': tries, 'unrealised': 1}


def _drop(env, r):
    """Forget an engine without letting it flush into a broken pipeline."""
    if env is not None:
        env.close()
    if r is not None:
        for q in r.q.values():
            q.id = -1
        r.q.clear()
