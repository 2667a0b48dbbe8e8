"""Replay of modules Chain and CompareSeq: chains of engines that pass commands on."""
import gc
import sys

import numpy as np

import pipes
from pipes import Env, Pipe, Recorder
from pq import Mismatch, Runner
from projectq import MainEngine
from projectq.backends import (
    CircuitDrawer,
    CircuitDrawerMatplotlib,
    ClassicalSimulator,
    CommandPrinter,
    ResourceCounter,
    Simulator,
    UnitarySimulator,
)
from projectq.cengines import (
    AutoReplacer,
    BasicEngine,
    BasicMapperEngine,
    CommandModifier,
    CompareEngine,
    DecompositionRuleSet,
    DummyEngine,
    ForwarderEngine,
    InstructionFilter,
    LastEngineException,
    TagRemover,
)
from projectq.libs.math import AddConstant
from projectq.meta import ComputeTag, UncomputeTag
from projectq.ops import (
    Allocate,
    BasicGate,
    Command,
    Deallocate,
    FlushGate,
    H,
    MatrixGate,
    Measure,
    QFT,
    QubitOperator,
    Rz,
    Swap,
    TimeEvolution,
    X,
)
from projectq.types import WeakQubitRef


class Mine:
    def __eq__(self, other):
        return isinstance(other, Mine)


class Other:
    def __eq__(self, other):
        return isinstance(other, Other)


class Nomat(BasicGate):
    def __str__(self):
        return 'Nomat'


class ComputeSub(ComputeTag):
    pass


class MineSub(Mine):
    pass


TAGS = {'Csub': ComputeSub, 'minesub': MineSub, 'C': ComputeTag, 'U': UncomputeTag, 'mine': Mine, 'other': Other}
TAGNAME = {v: k for k, v in TAGS.items()}


def add_mine(cmd):
    cmd.tags = cmd.tags + [Mine()]
    return cmd


# name: gate, widths of the registers, control state
COMMANDS = {
    'X': (X, [1], ''), 'CX': (X, [1], '1'), 'nCX': (X, [1], '0'), 'H': (H, [1], ''), 'CH': (H, [1], '1'), 'Measure': (Measure, [1], ''),
    'Allocate': (Allocate, [1], ''), 'Deallocate': (Deallocate, [1], ''), 'AddC': (AddConstant(1), [2], ''),
    'TE': (TimeEvolution(0.3, QubitOperator('Z0 X1')), [2], ''), 'QFT': (QFT, [2], ''), 'Nomat': (Nomat(), [1], ''),
    'M6': (MatrixGate(np.eye(64)), [1] * 6, ''),
}


def kind_of(cmd):
    """The class of a command by the vocabulary of the specification."""
    for k, (g, w, s) in COMMANDS.items():
        same = cmd.gate == g or (k == 'TE' and isinstance(cmd.gate, TimeEvolution) and cmd.gate.time == g.time and cmd.gate.hamiltonian == g.hamiltonian)
        if same and cmd.control_state == s:
            return k
    return None


FILTER = {'X', 'CX', 'H', 'Measure', 'Allocate', 'Deallocate', 'Nomat'}
FILTERAND = {'X', 'H', 'CX', 'nCX', 'QFT', 'AddC', 'Measure', 'Allocate', 'Deallocate'}

ENGINES = {
    'id': lambda: CommandModifier(lambda cmd: cmd),
    'fwd': lambda: ForwarderEngine(BasicEngine()),
    'fwdtag': lambda: ForwarderEngine(BasicEngine(), add_mine),
    'tag': lambda: CommandModifier(add_mine),
    'tagrem': TagRemover,
    'remmine': lambda: TagRemover([Mine]),
    'filter': lambda: InstructionFilter(lambda eng, cmd: kind_of(cmd) in FILTER),
    'filterand': lambda: InstructionFilter(lambda eng, cmd: kind_of(cmd) in FILTERAND and eng.next_engine.is_available(cmd)),
    'dummy': DummyEngine,
    'dummysave': lambda: DummyEngine(save_commands=True),
    'compare': CompareEngine,
    'printer': lambda: CommandPrinter(accept_input=False),
    'drawer': CircuitDrawer,
    'drawerplt': CircuitDrawerMatplotlib,
    'counter': ResourceCounter,
    'replacer': lambda: AutoReplacer(DecompositionRuleSet()),
    'sim': lambda: Simulator(rnd_seed=1),
    'classical': ClassicalSimulator,
    'unitary': UnitarySimulator,
}


def kill(eng):
    eng.active_qubits.clear()
    eng.flush = lambda *a, **k: None
    eng.deallocate_qubit = lambda q: None


def command(eng, c, ids):
    g, widths, s = COMMANDS[c]
    ids = list(ids)
    regs = [[WeakQubitRef(eng, ids.pop(0)) for _ in range(w)] for w in widths]
    return Command(eng, g, tuple(regs), [WeakQubitRef(eng, ids.pop(0)) for _ in s], control_state=s)


def check_chain(rec):
    """Availability, delivery and bookkeeping of one chain."""
    chain = rec['chain']
    n = 0
    for c in sorted(rec['avail']):
        engines = [ENGINES[k]() for k in chain]
        eng = MainEngine(engines[-1], engines[:-1])
        # -- availability
        want = rec['avail'][c]
        cmd = command(eng, c, range(7))
        for e in (eng, engines[0]):
            try:
                got = {True: 'yes', False: 'no'}.get(e.is_available(cmd), 'neither')
            except LastEngineException:
                got = 'last'
            if got != want:
                raise Mismatch(f'{c} is available: {got}, expected {want}')
        n += 1
        kill(eng)
        # -- delivery
        engines = [ENGINES[k]() for k in chain]
        tap = Recorder()
        eng = MainEngine(engines[-1], engines[:-1] + [tap])
        wide = sum(COMMANDS[c][1]) + len(COMMANDS[c][2])
        first = 0
        sent = 0
        try:
            ids = []
            if not rec['arrives']['Allocate']:
                # nothing can be done with this chain
                try:
                    eng.allocate_qubit()
                except Exception:
                    n += 1
                    continue
                raise Mismatch('Allocate was silently dropped')
            if c == 'Allocate':
                ids = [eng.get_new_qubit_id()]
            else:
                for _ in range(wide):
                    ids.append(eng.get_new_qubit_id())
                    eng.receive([command(eng, 'Allocate', [ids[-1]])])
            eng.flush()
            first = len(tap.commands)
            cmd = command(eng, c, ids)
            cmd.tags = [TAGS[t]() for t in ('Csub', 'C', 'mine', 'U', 'minesub', 'other')]
            try:
                eng.receive([cmd])
                eng.flush()
                ok = True
            except Exception:
                ok = False
            if ok != rec['arrives'][c]:
                raise Mismatch(f'{c} was ' + ('accepted, but cannot be executed' if ok else 'refused'))
            if not ok:
                n += 1
                continue
            got = tap.commands[first:]
            if len(got) != 2 or kind_of(got[0]) != c or not isinstance(got[1].gate, FlushGate):
                raise Mismatch(f'{c} and a flush arrived as {[str(g) for g in got]}')
            tags = [TAGNAME.get(type(t)) for t in got[0].tags]
            if tags != rec['tags']:
                raise Mismatch(f'{c} arrived with tags {tags}, expected {rec["tags"]}')
            mine = [[q.id for q in r] for r in got[0].qubits], [q.id for q in got[0].control_qubits], got[0].control_state
            orig = command(eng, c, ids)
            if mine != ([[q.id for q in r] for r in orig.qubits], [q.id for q in orig.control_qubits], orig.control_state):
                raise Mismatch(f'{c} arrived on other qubits: {got[0]}')
            kinds = [str(x) for x in tap.commands]
            for k, e in zip(chain, engines):
                if k == 'dummysave' and [str(x) for x in e.received_commands] != kinds:
                    raise Mismatch(f'the dummy engine saved {[str(x) for x in e.received_commands]} of {kinds}')
                if k == 'dummy' and e.received_commands:
                    raise Mismatch('a dummy engine that is not to save commands did')
                if k == 'compare':
                    for i in ids:
                        have = [str(x) for x in e._l[i]]
                        want = [str(x) for x in tap.commands if any(q.id == i for r in x.all_qubits for q in r)]
                        if have != want:
                            raise Mismatch(f'the comparison engine noted {have} of {want}')
            n += 2
        finally:
            kill(eng)
    return n


# ------------------------------------------------------------------ refused chains
class Map(BasicMapperEngine):
    def receive(self, command_list):
        self.send(command_list)


def build(chain, form):
    objs = []
    for k in chain:
        if k == 'most':
            objs.extend(ENGINES['id']() for _ in range(99))
            continue
        objs.append({'id': ENGINES['id'], 'dummy': DummyEngine, 'dummysave': ENGINES['dummysave'], 'map': Map,
                     'class': lambda: DummyEngine, 'none': lambda: None, 'again': lambda: objs[-1]}[k]())
    return MainEngine(objs[-1], form(objs[:-1]))


def check_broken(rec):
    bad = []
    sys.unraisablehook = lambda u: bad.append(f'{type(u.exc_value).__name__}: {str(u.exc_value)[:100]}')
    for form, want in ((list, rec['verdict']), (tuple, rec['tuple'])):
        if rec['chain'][-1] == 'again' and form is tuple and want == 'ok':
            continue
        eng = None
        try:
            eng = build(rec['chain'], form)
            got = 'ok'
        except Exception as exc:
            got = type(exc).__name__
            del exc
        if eng is not None:
            kill(eng)
            del eng
        else:
            gc.collect()
        if got != want:
            raise Mismatch(f'building the chain {rec["chain"]} as {form.__name__}: {got}, expected {want}')
        if bad:
            raise Mismatch(f'building the chain {rec["chain"]}: {bad[0]} in the destructor')
    return 2


# ------------------------------------------------------------------ programs
class ChainRunner(Runner):
    def item(self, it):
        super().item(it)
        if it[0] == 'flush':
            cmds = self.env.recorder.commands
            n = it[1].get('nf', len(it[1].get('flat', ())))
            if not cmds or not isinstance(cmds[-1].gate, FlushGate):
                raise Mismatch('the flush did not reach the backend last')
            k = sum(not isinstance(c.gate, FlushGate) for c in cmds)
            if k != n:
                raise Mismatch(f'{k} commands have arrived at the flush, expected {n}')
            for e in self.env.savers:
                if [str(c) for c in e.received_commands] != [str(c) for c in cmds]:
                    raise Mismatch(f'the dummy engine saved {len(e.received_commands)} of {len(cmds)} commands, or others')

    def stream(self, flat):
        # tags as the chain leaves them
        tags = self.env.tags
        kept = ''.join(t for t in ('C', 'U') if t in tags)
        mine = tags[tags.index('other') + 1 :]
        new = []
        for op in flat:
            new.append(dict(op, tg=[t for t in op['tg'] if t in kept] + ['?'] * len(mine)))
        super().stream(new)


PASSING = {'id', 'fwd', 'fwdtag', 'tag', 'tagrem', 'remmine', 'dummy', 'dummysave', 'compare', 'printer', 'drawer', 'drawerplt', 'counter', 'replacer'}


def chain_pipe(rec, i):
    kinds = [k for k in rec['chain'][:-1] if k in PASSING]

    def make(seed):
        engines = [ENGINES[k]() for k in kinds]
        for j, k in enumerate(kinds):
            if k == 'replacer':
                # nothing to replace: what follows takes everything
                engines.insert(j + 1, DummyEngine()) if False else None
        out = []
        for k, e in zip(kinds, engines):
            out.append(e)
            if k == 'replacer':
                out.append(InstructionFilter(lambda eng, cmd: True))
        sim = Simulator(rnd_seed=seed)
        r = Recorder()
        env = Env(MainEngine(sim, out + [r, pipes.high_replacer('qubitop2onequbit', *pipes.MORE)]), sim)
        env.recorder = r
        env.tags = rec['tags']
        env.savers = [e for k, e in zip(kinds, engines) if k == 'dummysave']
        return env

    return Pipe('chain ' + ' '.join(kinds), make, runner=ChainRunner)


# ------------------------------------------------------------------ comparison engines
def fill(prog):
    e = CompareEngine()
    eng = MainEngine(e, [])
    q = eng.allocate_qureg(3)
    for o in prog:
        g = {'X': X, 'H': H, 'Swap': Swap, 'Measure': Measure, 'tagged': X}.get(o['g']) or Rz(o['p'])
        cmd = Command(eng, g, tuple([q[i]] for i in o['t']), [q[i] for i in o['c']], control_state=''.join(map(str, o['s'])))
        if o['g'] == 'tagged':
            cmd.tags = [Mine()]
        eng.receive([cmd])
    for x in q:
        x.id = -1
    kill(eng)
    return e, eng


def check_compare(rec):
    (a, ea), (b, eb) = fill(rec['a']), fill(rec['b'])
    got = a == b
    if got != rec['same'] or (a != b) == got or (b == a) != got:
        raise Mismatch(f'two comparison engines compare as {got}, expected {rec["same"]}')
    return 3


def run_records(ctx, recs, fn, what):
    def one(rec):
        try:
            return fn(rec), None
        except Mismatch as m:
            return 0, str(m)

    for i, (n, bad) in ctx.pmap(one, recs):
        ctx.count('observations', n)
        ctx.cov['traces_validated_against_impl'] += 1
        if bad:
            name = recs[i].get('chain') or [[o['g'] for o in recs[i][x]] for x in 'ab']
            ctx.violation(f'{what}: {bad}'[:200], f'[{what}] {bad}\n{name}', {'kind': what, 'record': recs[i]})
