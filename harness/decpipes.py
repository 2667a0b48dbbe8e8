"""Pipelines around the automatic replacement: each predefined rule forced, and whole gate sets."""
import copy

import record
from pipes import CPP, Env, Pipe, _mods, default_rules
from projectq import MainEngine
from projectq.cengines import AutoReplacer, BasicEngine, DecompositionRuleSet, InstructionFilter
from projectq.ops import FlushGate
from pq import Mismatch
from record import Recorder, Tap, event, native, pat

HIGH = [pat('QFT'), pat('QFTdag'), pat('Entangle'), pat('Entangledag'), pat('UCRy'), pat('UCRz'), pat('QOp')]
BASE = ['entangle', 'qft2crandhadamard', 'uniformlycontrolledr2cnot', 'qubitop2onequbit', 'cnu2toffoliandcu', 'controlstate']
TWOQ = [pat('Rxx', 0), pat('Ryy', 0), pat('Rzz', 0)]


def ctl(n, lo, hi=3):
    return [pat(n, c) for c in range(lo, hi + 1)]


def named(part):
    """Chooser preferring the rule whose function name ends with part."""

    def choose(cmd, decomps):
        for d in decomps:
            if d.decompose.__name__.endswith(part):
                return d
        return decomps[0]

    return choose


def first(cmd, decomps):
    return decomps[0]


ANY = [pat()]
# name: (rule modules or None for all, gates in the set, gates not in the set, chooser)
TARGETS = {
    'one_cx': (None, [pat(c=0, k=1), pat('X', 1)] + TWOQ, [], first),
    'toffoli': (None, [pat(c=0, k=1), pat('X', 1), pat('X', 2)] + TWOQ, [], first),
    'rzrycx': (BASE + ['arb1qubit2rzandry', 'carb1qubit2cnotrzandry', 'crz2cxandrz', 'globalphase', 'ph2r', 'r2rzandph',
                       'sqrtswap2cnot', 'swap2cnot', 'toffoli2cnotandtgate', 'time_evolution'],
               [pat('Rz', 0), pat('Ry', 0), pat('X', 1)] + TWOQ, [], first),
    'rzhcx': (BASE + ['rx2rz', 'ry2rz', 'arb1qubit2rzandry', 'carb1qubit2cnotrzandry', 'crz2cxandrz', 'globalphase', 'ph2r', 'r2rzandph',
                      'sqrtswap2cnot', 'swap2cnot', 'toffoli2cnotandtgate', 'time_evolution'],
              [pat('Rz', 0), pat('H', 0), pat('X', 1)] + TWOQ, [], first),
    'one_cz': (BASE + ['carb1qubit2cnotrzandry', 'crz2cxandrz', 'cnot2cz', 'globalphase', 'ph2r', 'r2rzandph',
                       'sqrtswap2cnot', 'swap2cnot', 'toffoli2cnotandtgate', 'time_evolution'],
               [pat(c=0, k=1), pat('Z', 1)] + TWOQ, [], first),
    'rxryrxx': (None, [pat('Rx', 0), pat('Ry', 0)] + TWOQ, [], None),  # None: the trapped-ion chooser
    'r_arb1': (['arb1qubit2rzandry'], ctl('*', 1) + [pat(k=2), pat(k=3), pat('TE'), pat('Rz', 0), pat('Ry', 0), pat('Ph', 0)], [], first),
    'r_carb1': (['carb1qubit2cnotrzandry'], [pat('TE'), pat(c=0), pat(c=2), pat(c=3), pat('X', 1), pat('Ph', 1), pat(c=1, k=3), pat(c=1, k=4)], [], first),
    'r_crz': (['crz2cxandrz'], ANY, ctl('Rz', 1), first),
    'r_cnot2cz': (['cnot2cz'], ANY, [pat('X', 1)], first),
    'r_cnot2rxxM': (['cnot2rxx'], ANY, [pat('X', 1)], named('_M')),
    'r_cnot2rxxP': (['cnot2rxx'], ANY, [pat('X', 1)], named('_P')),
    'r_cnu': ([], ANY, [pat(c=3)] + [pat(n, 2) for n in ('Y', 'Z', 'H', 'S', 'T', 'Rx', 'Ry', 'Rz', 'R', 'Ph', 'SqrtX', 'M', 'Sdag', 'Tdag',
                                                        'SqrtXdag', 'Swap', 'TE')], first),
    'r_globalphase': (['globalphase'], ANY, [pat('Ph', 0)], first),
    'r_h2rxM': (['h2rx'], ANY, [pat('H', 0)], named('_M')),
    'r_h2rxN': (['h2rx'], ANY, [pat('H', 0)], named('_N')),
    'r_ph2r': (['ph2r'], ANY, ctl('Ph', 1), first),
    'r_r': (['r2rzandph'], ANY, [pat('R')], first),
    'r_rx': (['rx2rz'], ANY, [pat('Rx', 0)], first),
    'r_ry': (['ry2rz'], ANY, [pat('Ry', 0)], first),
    'r_rzP': (['rz2rx'], ANY, [pat('Rz', 0)], named('_P')),
    'r_rzM': (['rz2rx'], ANY, [pat('Rz', 0)], named('_M')),
    'r_sqrtswap': (['sqrtswap2cnot'], ANY, [pat('SqrtSwap'), pat('SqrtSwapdag')], first),
    'r_swap': (['swap2cnot'], ANY, [pat('Swap')], first),
    'r_te': (['time_evolution'], ANY, [pat('TE')], first),
    'r_toffoli': (['toffoli2cnotandtgate'], ANY, [pat('X', 2)], first),
}


class Sink(BasicEngine):
    """A backend that takes everything."""

    def __init__(self):
        super().__init__()
        self.is_last_engine = True

    def is_available(self, cmd):
        return True

    def receive(self, command_list):
        pass


def chooser_of(name):
    ch = TARGETS[name][3]
    if ch is None:
        from projectq.setups.trapped_ion_decomposer import chooser_Ry_reducer

        return chooser_Ry_reducer
    return ch


def in_set(name, e):
    _, yes, no, _ = TARGETS[name]
    return native(e, yes, no + HIGH, pos=True)


def engines(name, rec):
    mods = TARGETS[name][0]
    rules = default_rules() if mods is None else DecompositionRuleSet(modules=_mods(*(BASE + [m for m in mods if m not in BASE])))
    return [AutoReplacer(rules, chooser_of(name)), InstructionFilter(lambda eng, cmd: in_set(name, event(cmd))), rec]


def canonical(cmd, out):
    """Events with work qubits renamed, so that two runs can be compared."""
    names = {}
    for q in [q.id for r in cmd.qubits for q in r] + [q.id for q in cmd.control_qubits]:
        names[q] = len(names)
    res = []
    for c in out:
        e = event(c)
        for q in e['t'] + e['c']:
            names.setdefault(q, len(names))
        res.append((e['o'], str(c.gate), tuple(names[q] for q in e['t']), tuple(sorted((names[q], b) for q, b in zip(e['c'], e['s'])))))
    return res


def alone(name, cmd, memo):
    """What a fresh replacer makes of the command."""
    ids = [q.id for r in cmd.qubits for q in r] + [q.id for q in cmd.control_qubits]
    order = {q: k for k, q in enumerate(ids)}
    key = (name, str(cmd.gate), type(cmd.gate), tuple(tuple(order[q.id] for q in r) for r in cmd.qubits), tuple(order[q.id] for q in cmd.control_qubits),
           tuple(sorted(range(len(ids)), key=lambda i: ids[i])), cmd.control_state)
    if key in memo:
        return memo[key]
    out = []
    eng = MainEngine(Sink(), engines(name, Tap(lambda c: out.append(copy.deepcopy(c)))))
    fresh = eng.allocate_qureg(max(ids) + 1)
    out.clear()
    c2 = copy.deepcopy(cmd)
    c2.engine = eng
    eng.receive([c2])
    res = canonical(cmd, out)
    eng.active_qubits.clear()
    for q in fresh:
        q.id = -1
    memo[key] = res
    return res


MEMO = {}


def make(name):
    def factory(seed):
        s = CPP(seed)
        rec = Recorder()
        parts = []

        def mark(cmd):
            parts.append((copy.deepcopy(cmd), []))

        keep = Tap(lambda cmd: parts[-1][1].append(copy.deepcopy(cmd)))
        e = Env(MainEngine(s, [Tap(mark)] + engines(name, rec) + [keep]), s)
        e.recorder2, e.parts = rec, parts
        return e

    def after(env, runner):
        # the same command is always replaced in the same way (the trapped-ion chooser has a memory by design)
        for k, (cmd, out) in enumerate(env.parts if TARGETS[name][3] is not None else ()):
            if isinstance(cmd.gate, FlushGate) or event(cmd)['o'] != 'g':
                continue
            want = alone(name, cmd, MEMO)
            got = canonical(cmd, out)
            if got != want:
                raise Mismatch(f'command {k} ({cmd.gate}) was replaced by {len(got)} commands, but by {len(want)} in a fresh engine: '
                               f'{got[:6]} / {want[:6]}')
            for c in out:
                if c.tags[: len(cmd.tags)] != cmd.tags:
                    raise Mismatch(f'the replacement of {cmd.gate} lost its tags')
        _, yes, no, _ = TARGETS[name]
        return record.delivered(env.recorder2.events, yes, pos=True, no=no + HIGH)

    return Pipe('dec:' + name, factory, mode='phase', after=after)


D = {n: make(n) for n in TARGETS}
