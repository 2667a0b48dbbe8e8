"""Replay of PauliAlgebra.tla behaviours on projectq.ops.QubitOperator."""
import copy
import math
import random

import numpy as np
from projectq import MainEngine
from projectq.backends import Simulator
from projectq.cengines import DummyEngine
from projectq.ops import NotInvertible, NotMergeable, QubitOperator, TimeEvolution

ACT = {1: 'X', 2: 'Y', 3: 'Z'}
MAPS = ([0, 1, 2], [0, 1, 2], [0, 2, 12], [3, 4, 9], [0, 10, 11], [1, 5, 100])


def bad_calls(op, k, m):
    """Calls that must be refused (a list of (name, call))."""
    q = QubitOperator
    both = [
        ('short string', lambda: q('X')), ('unknown action', lambda: q(f'Q{m}')), ('negative index string', lambda: q('X-1')), ('lower case', lambda: q(f'x{m}')),
        ('fractional index', lambda: q('X1.5')), ('bad second factor', lambda: q(f'X{m} W{m + 1}')), ('tuple action', lambda: q(((m, 'Q'),))),
        ('tuple index type', lambda: q(((str(m), 'X'),))), ('tuple negative', lambda: q(((m, 'X'), (-1, 'X')))), ('one-element factor', lambda: q(((0,),))),
        ('list factor', lambda: q(([0, 'X'],))), ('three-element factor', lambda: q(((0, 'X', 'Y'),))), ('fractional tuple index', lambda: q(((1.5, 'X'),))),
        ('list term', lambda: q([(0, 'X')])), ('number term', lambda: q(5)), ('string coefficient', lambda: q('X0', '1')), ('None coefficient', lambda: q('X0', None)),
        ('add number', lambda: op + 1), ('subtract string', lambda: op - 'X0'), ('multiply by string', lambda: op * 'X0'), ('divide by operator', lambda: op / op),
        ('string times operator', lambda: 'a' * op), ('identity action', lambda: q(((m, 'I'),))),
    ]
    inplace = []
    for nm in ('__iadd__', '__isub__', '__imul__', '__itruediv__'):
        inplace.append((nm, lambda nm=nm: getattr(op, nm)([1])))
    return [both[k % len(both)], inplace[k % 4]]


class Replay:
    def __init__(self, seed, te=False):
        self.te = te
        self.rng = random.Random(seed)
        self.map = self.rng.choice(MAPS)
        self.bad = []
        self.checks = 0

    # terms and coefficients -------------------------------------------------
    def key(self, codes):
        return tuple((self.map[j], ACT[c]) for j, c in enumerate(codes) if c)

    def want(self, listed):
        return {self.key(t): complex(*c) / 2 ** listed['e'] for t, c in listed['t']}

    def scalar(self, c):
        v = complex(c[0], c[1]) / 2.0 ** c[2]
        forms = [v, np.complex128(v)]
        if v.imag == 0:
            forms += [v.real, np.float64(v.real)]
            if v.real == int(v.real):
                forms.append(int(v.real))
        return self.rng.choice(forms)

    def create(self, codes, c):
        key = list(self.key(codes))
        self.rng.shuffle(key)
        if self.rng.random() < 0.5:
            term = ' '.join(f'{a}{i}' for i, a in key)
            if self.rng.random() < 0.2:
                term = '  ' + term.replace(' ', '   ') + ' '
        else:
            term = tuple(key)
        c = self.scalar(c)
        if isinstance(c, (int, float)) and c == 1 and self.rng.random() < 0.5:
            return QubitOperator(term)
        return QubitOperator(term=term, coefficient=c)

    # observation -------------------------------------------------------------
    def compare(self, op, want, what):
        self.checks += 1
        got = {}
        for t, c in op.terms.items():
            if abs(c) > 1e-9:
                got[t] = c
            idx = [i for i, _ in t] if isinstance(t, tuple) else None
            if idx is None or idx != sorted(set(idx)) or any(a not in ('X', 'Y', 'Z') for _, a in t):
                self.bad.append((f'{what}: form', f'{what} leaves a term that is not in canonical form: {str(t)[:80]}'))
                return
        if set(got) != set(want) or any(abs(got[t] - want[t]) > 1e-9 * max(1, abs(want[t])) for t in want):
            self.bad.append((f'{what}: value', f'{what} gives {str(got)[:200]}, expected {str(want)[:200]}'))

    def zeros(self, *ops):
        return any(abs(c) <= 1e-9 for o in ops for c in o.terms.values())

    def refused(self, call, exc=Exception):
        try:
            call()
        except exc:
            return True
        return False

    def parse(self, text):
        if text == '0':
            return {}
        out = {}
        for part in text.split(' +\n'):
            w = part.split()
            t = tuple((int(x[1:]), x[0]) for x in w[1:] if x != 'I')
            out[t] = out.get(t, 0) + complex(w[0])
        return out

    # events ------------------------------------------------------------------
    def run(self, hist):
        reg = {v: QubitOperator() for v in (1, 2, 3)}
        model = {v: {} for v in (1, 2, 3)}
        for n, e in enumerate(hist):
            a, x, y, z = e['a'], e.get('x'), e.get('y'), e.get('z')
            before = {v: copy.deepcopy(reg[v]) for v in reg}
            ids = {v: reg[v] for v in reg}
            try:
                self.event(e, a, x, y, z, reg, model)
            except Exception as err:  # noqa: BLE001
                self.bad.append((f'{a}: {type(err).__name__}', f'{a} raises {type(err).__name__}: {str(err)[:120]}'))
            if self.bad:
                return n
            if z:
                model[z] = self.want(e['res'])
                for u in reg:   # a result never shares state with its operands
                    if u != z and reg[u] is reg[z]:
                        self.bad.append((f'{a}: alias', f'{a} returns one of its operands'))
            for v in reg:
                self.compare(reg[v], model[v], a if v == z else f'{a} on another variable')
                if v != z and (reg[v] is not ids[v] or reg[v].terms != before[v].terms):
                    self.bad.append((f'{a}: operand', f'{a} changes an operand'))
            if z and a in ('iadd', 'isub', 'imul', 'ismul', 'idiv') and reg[z] is not ids[z]:
                self.bad.append((f'{a}: in place', f'{a} makes a new object'))
            if self.bad:
                return n
            if z:
                o = reg[z]
                got, want = self.parse(str(o)), {t: complex(c) for t, c in o.terms.items()}
                if got != want:
                    self.bad.append(('str', f'{a}: the printed form reads back as another operator'))
                cp = copy.deepcopy(o)
                if not cp == o or hash(cp) != hash(o):
                    self.bad.append(('equality', 'a copy is not equal to its original'))
                for u in reg:
                    same = self.want_eq(reg[u], o)
                    if (reg[u] == o) != same or (same and hash(reg[u]) != hash(o)):
                        self.bad.append(('equality', f'equality of {str(reg[u].terms)[:80]} and {str(o.terms)[:80]} is wrong'))
            if self.bad:
                return n
        return None

    @staticmethod
    def want_eq(a, b):
        return a.terms.keys() == b.terms.keys() and all(a.terms[t] == b.terms[t] for t in a.terms)

    def event(self, e, a, x, y, z, reg, model):
        if a == 'new':
            reg[z] = self.create(e['t'], e['c'])
        elif a == 'add':
            reg[z] = reg[x] + reg[y]
        elif a == 'sub':
            reg[z] = reg[x] - reg[y]
        elif a == 'mul':
            reg[z] = reg[x] * reg[y]
        elif a == 'iadd':
            reg[x] += reg[y]
        elif a == 'isub':
            reg[x] -= reg[y]
        elif a == 'imul':
            reg[x] *= reg[y]
        elif a == 'smul':
            c = self.scalar(e['c'])
            if type(c).__module__ == 'numpy':
                c = complex(c)
            reg[z] = c * reg[x] if self.rng.random() < 0.5 else reg[x] * c
        elif a == 'ismul':
            reg[x] *= self.scalar(e['c'])
        elif a == 'div':
            reg[z] = reg[x] / self.scalar(e['c'])
        elif a == 'idiv':
            reg[x] /= self.scalar(e['c'])
        elif a == 'neg':
            reg[z] = -reg[x]
        elif a == 'compress':
            tol = 2.0 ** -e['k']
            reg[x].compress(tol)
            if any(abs(c) <= tol or (isinstance(c, complex) and c.imag != 0 and abs(c.imag) <= tol) for c in reg[x].terms.values()):
                self.bad.append(('compress: left', f'compress({tol}) leaves coefficients of that size'))
        elif a == 'close':
            r, s = 2.0 ** -e['rk'], 2.0 ** -e['ak']
            got = (reg[x].isclose(reg[y], r, s), reg[y].isclose(reg[x], rel_tol=r, abs_tol=s))
            want = e['ans']
            self.checks += 1
            if want != 'edge' and not (e['rk'] == 0 and self.zeros(reg[x], reg[y])) and (got != (want == 'yes',) * 2):
                self.bad.append(('isclose', f'isclose({r},{s}) says {got}, expected {want}: {str(reg[x].terms)[:90]} / {str(reg[y].terms)[:90]}'))
        elif a == 'inv':
            if self.zeros(reg[x]):
                reg[z] = self.of(self.want(e['res']))
            else:
                reg[z] = reg[x].get_inverse()
        elif a == 'noinv':
            if not self.refused(reg[x].get_inverse, NotInvertible):
                self.bad.append(('inverse of a non-unitary operator', f'get_inverse accepts {str(reg[x].terms)[:90]}'))
        elif a == 'merge':
            if self.zeros(reg[x], reg[y]):
                reg[z] = self.of(self.want(e['res']))
            else:
                reg[z] = reg[x].get_merged(reg[y])
        elif a == 'nomerge':
            if not self.zeros(reg[x], reg[y]) and not self.refused(lambda: reg[x].get_merged(reg[y]), NotMergeable):
                self.bad.append(('merge of sums', 'get_merged accepts operators with several terms'))
        elif a == 'bad':
            for name, call in bad_calls(reg[x], e['k'], self.map[0]):
                self.checks += 1
                if not self.refused(call):
                    self.bad.append((f'accepted: {name}', f'accepted: {name}'))
        elif a == 'hermitian':
            op = reg[x]
            if not self.te:
                return
            self.checks += 1
            if self.refused(lambda: TimeEvolution(0.5, op)) == e['ok']:
                self.bad.append(('hermitian', f'TimeEvolution {"refuses" if e["ok"] else "accepts"} {str(op.terms)[:120]}'))
        elif a == 'apply':
            self.apply(reg[x], e)
        else:
            raise KeyError(a)

    def of(self, want):
        op = QubitOperator()
        for t, c in want.items():
            op += QubitOperator(t, c)
        return op

    def apply(self, op, e):
        if self.zeros(op):
            return
        size = self.map[e['n'] - 1] + 1
        todo = [(e['te'], lambda q: TimeEvolution(0.5, op) | q)] if self.te else [(e['qop'], lambda q: op | q)]
        for ok, call in todo:
            rec = DummyEngine(save_commands=True)
            eng = MainEngine(backend=rec, engine_list=[])
            q = eng.allocate_qureg(size)
            k = len(rec.received_commands)
            self.checks += 1
            refused = self.refused(lambda: call(q))
            if refused == ok:
                self.bad.append(('apply', f'applying {"exp(-it" if self.te else ""} {str(op.terms)[:100]} to {size} qubits is {"refused" if refused else "accepted"}'))
            if refused and len(rec.received_commands) != k:
                self.bad.append(('apply: partial', f'applying {str(op.terms)[:100]} to {size} qubits is refused after gates were sent'))
            if not refused:
                ids = {x.id for x in q}
                if any(x.id not in ids for c in rec.received_commands[k:] for r in c.all_qubits for x in r):
                    self.bad.append(('apply: qubits', 'foreign qubits'))
            for x in q:
                x.id = -1


def walk(hist, seed, te=False):
    r = Replay(seed, te)
    at = r.run(hist)
    return r.bad, at, r.checks


def pairs(rows, seed):
    """All products, sums and differences of two terms."""
    r = Replay(seed)
    for row in rows:
        (s, cs), = row['s']['t']
        (t, ct), = row['t']['t']
        a, b = r.create(s, [1, 0, 0]), r.create(t, [1, 0, 0])
        r.compare(a * b, r.want(row['p']), f'product {a} * {b}')
        r.compare(a + b, r.want(row['a']), f'sum {a} + {b}')
        r.compare(a - b, r.want(row['d']), f'difference {a} - {b}')
        i = copy.deepcopy(a)
        i *= b
        r.compare(i, r.want(row['p']), f'in-place product {a} *= {b}')
        r.compare(b, {r.key(t): 1}, 'operand of a product')
        # one gate after the other is their merge, in application order
        r.compare(b.get_merged(a), r.want(row['p']), f'{b} then {a} merged')
    return r.bad, r.checks
