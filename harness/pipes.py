"""Compiler pipelines a program is run through."""
import copy
import importlib.util
import os
import random
import sys

import numpy as np

import projectq
from env import REPO
from projectq import MainEngine
from projectq.backends import ClassicalSimulator, Simulator, UnitarySimulator
from projectq.cengines import (
    AutoReplacer,
    BasicEngine,
    DecompositionRuleSet,
    InstructionFilter,
    LocalOptimizer,
    ManualMapper,
    TagRemover,
)
from projectq.meta import LoopTag
from projectq.ops import BasicMathGate, FlushGate, Measure, TimeEvolution
from pq import Mismatch, Runner, state_vector


def _py_simulator():
    """A second copy of the simulator module, imported as where the C++ extension does not exist."""
    name = 'projectq.backends._sim._cppsim'
    keep = sys.modules.get(name)
    sys.modules[name] = None
    try:
        spec = importlib.util.spec_from_file_location(
            'projectq.backends._sim._simulator_py', os.path.join(REPO, 'projectq/backends/_sim/_simulator.py')
        )
        mod = importlib.util.module_from_spec(spec)
        sys.modules[spec.name] = mod
        spec.loader.exec_module(mod)
    finally:
        sys.modules[name] = keep
    assert mod.FALLBACK_TO_PYSIM
    return mod.Simulator


PySimulator = _py_simulator()


class Env:
    def __init__(self, eng, backend):
        self.eng, self.backend = eng, backend

    def close(self):
        # no destructor may flush into a pipeline that failed half-way
        if self.eng is not None:
            self.eng.active_qubits.clear()
            self.eng.deallocate_qubit = lambda q: None
            self.eng.flush = lambda *a, **k: None
        self.eng = None


class Pipe:
    """name, engine factory (seed -> Env), comparison mode."""

    def __init__(self, name, factory, mode='strict', negx=False, atol=1e-7, runner=None, after=None):
        self.name, self.factory, self.mode, self.negx, self.atol = name, factory, mode, negx, atol
        self._runner = runner
        self._after = after

    def make(self, seed):
        return self.factory(seed)

    def runner(self, env, rng):
        if self._runner:
            return self._runner(env, rng, self.mode, self.negx, self.atol)
        return Runner(env, rng, self.mode, self.negx, self.atol)

    def after(self, env, runner):
        return self._after(env, runner) if self._after else None


def sim_env(engines, sim=None):
    def f(seed):
        s = sim(seed) if sim else Simulator(rnd_seed=seed)
        return Env(MainEngine(s, engines(seed) if engines else []), s)

    return f


def _mods(*names):
    import importlib

    return [importlib.import_module('projectq.setups.decompositions.' + n) for n in names]


def controlstate_rules():
    return DecompositionRuleSet(modules=_mods('controlstate'))


HIGHMODS = ('controlstate', 'qft2crandhadamard', 'entangle', 'uniformlycontrolledr2cnot')


def high_replacer(*more):
    return AutoReplacer(DecompositionRuleSet(modules=_mods(*(HIGHMODS + more))))


def default_rules():
    import projectq.setups.decompositions

    return DecompositionRuleSet(modules=[projectq.setups.decompositions])


class Recorder(BasicEngine):
    """Keeps a copy of every command that passes."""

    def __init__(self):
        super().__init__()
        self.commands = []

    def receive(self, command_list):
        for cmd in command_list:
            c = copy.deepcopy(cmd)
            c.seen = ([q.id for q in cmd.control_qubits], cmd.control_state)  # a copy sorts its controls anew
            self.commands.append(c)
            self.send([cmd])


def recorded_env(seed):
    s = Simulator(rnd_seed=seed)
    rec = Recorder()
    e = Env(MainEngine(s, [rec, high_replacer()]), s)
    e.recorder = rec
    return e


class LoopTagHandler(BasicEngine):
    """An engine that executes loops itself: it gets each loop body once, tagged."""

    def __init__(self):
        super().__init__()
        self.buffer = []
        self.seen = 0

    def is_meta_tag_handler(self, meta_tag):
        return meta_tag == LoopTag

    def _tag(self, cmd):
        loops = [t for t in cmd.tags if isinstance(t, LoopTag)]
        return loops[-1] if loops else None

    def _run(self, cmds):
        i = 0
        while i < len(cmds):
            tag = self._tag(cmds[i])
            if tag is None:
                self.send([copy.deepcopy(cmds[i])])
                i += 1
                continue
            body = []
            while i < len(cmds) and self._tag(cmds[i]) == tag:
                c = copy.deepcopy(cmds[i])
                c.tags.pop(len(c.tags) - 1 - [t == tag for t in c.tags[::-1]].index(True))
                body.append(c)
                i += 1
            self.seen += 1
            for _ in range(tag.num):
                self._run(body)

    def receive(self, command_list):
        for cmd in command_list:
            if isinstance(cmd.gate, FlushGate):
                self._run(self.buffer)
                self.buffer = []
                self.send([cmd])
            else:
                self.buffer.append(cmd)


CPP = lambda s: Simulator(rnd_seed=s)
CPPFUS = lambda s: Simulator(gate_fusion=True, rnd_seed=s)
PY = lambda s: PySimulator(rnd_seed=s)

P = {}


def add(p):
    P[p.name] = p


add(Pipe('cpp', sim_env(None, CPP)))
add(Pipe('cppfus', sim_env(None, CPPFUS)))
add(Pipe('py', sim_env(None, PY)))
add(Pipe('neg', sim_env(lambda s: [AutoReplacer(controlstate_rules())], CPP)))
add(Pipe('negfus', sim_env(lambda s: [AutoReplacer(controlstate_rules())], CPPFUS)))
add(Pipe('negpy', sim_env(lambda s: [AutoReplacer(controlstate_rules())], PY)))
for m in (1, 2, 3, 5, 1000):
    add(Pipe(f'opt{m}', sim_env(lambda s, m=m: [LocalOptimizer(m)], CPP)))
    add(
        Pipe(
            f'optdec{m}',
            sim_env(lambda s, m=m: [LocalOptimizer(m), AutoReplacer(default_rules()), LocalOptimizer(m)], CPP),
            mode='phase',
        )
    )
    add(
        Pipe(
            f'optneg{m}',
            sim_env(lambda s, m=m: [LocalOptimizer(m), AutoReplacer(controlstate_rules())], CPP),
        )
    )


def default_env(seed):
    s = Simulator(rnd_seed=seed)
    return Env(MainEngine(s), s)


add(Pipe('default', default_env, mode='phase'))
MORE = ('stateprep2cnot', 'phaseestimation', 'amplitudeamplification')
add(Pipe('qcpp', sim_env(lambda s: [high_replacer(*MORE)], CPP)))
add(Pipe('qfus', sim_env(lambda s: [high_replacer(*MORE)], CPPFUS)))
add(Pipe('qopt', sim_env(lambda s: [LocalOptimizer(5), high_replacer(*MORE)], CPP)))
for m in (1, 2, 5):
    add(Pipe(f'qoptop{m}', sim_env(lambda s, m=m: [LocalOptimizer(m), high_replacer('qubitop2onequbit')], CPP)))
TEMODS = ('qubitop2onequbit',)
add(Pipe('tecpp', sim_env(lambda s: [high_replacer(*TEMODS)], CPP)))
add(Pipe('tefus', sim_env(lambda s: [high_replacer(*TEMODS)], CPPFUS)))
add(Pipe('tepy', sim_env(lambda s: [high_replacer(*TEMODS)], PY)))
add(Pipe('teopt', sim_env(lambda s: [LocalOptimizer(4), high_replacer(*TEMODS)], CPP)))
for k, sim in (('cpp', CPP), ('py', PY)):
    add(Pipe('tedec' + k, sim_env(lambda s: [high_replacer('qubitop2onequbit', 'time_evolution'),
                                             InstructionFilter(lambda e, c: not isinstance(c.gate, TimeEvolution) and e.next_engine.is_available(c))], sim)))
add(Pipe('hpy', sim_env(lambda s: [high_replacer()], PY)))
add(Pipe('hcpp', sim_env(lambda s: [high_replacer()], CPP)))
add(Pipe('hnegfus', sim_env(lambda s: [high_replacer()], CPPFUS)))
for m in (1, 2, 3, 5):
    add(Pipe(f'hopt{m}', sim_env(lambda s, m=m: [LocalOptimizer(m), high_replacer()], CPP)))
add(Pipe('hoptneg5', sim_env(lambda s: [LocalOptimizer(5), high_replacer()], CPP)))
add(Pipe('stream', recorded_env))
add(Pipe('looptag', sim_env(lambda s: [LoopTagHandler(), high_replacer()], CPP)))


def mapper_env(kind):
    """Simulator behind a mapper; queries use the logical qubits."""
    from projectq.cengines import GridMapper, LinearMapper, SwapAndCNOTFlipper
    from projectq.ops import Swap  # noqa

    def f(seed):
        s = Simulator(rnd_seed=seed)
        m = {
            'linear': lambda: LinearMapper(num_qubits=8),
            'cyclic': lambda: LinearMapper(num_qubits=8, cyclic=True),
            'grid': lambda: GridMapper(num_rows=2, num_columns=4),
        }[kind]()
        # one- and two-qubit gates only reach the mapper
        rules = default_rules()
        filt = InstructionFilter(lambda eng, cmd: not isinstance(cmd.gate, (BasicMathGate, TimeEvolution))
                                 and len(cmd.all_qubits[0]) + sum(len(r) for r in cmd.qubits) <= 2 and no_neg(eng, cmd))
        engines = [AutoReplacer(rules), filt, m]
        e = Env(MainEngine(s, engines), s)
        return e

    return f


def no_neg(eng, cmd):
    return '0' not in cmd.control_state


for k in ('linear', 'cyclic', 'grid'):
    add(Pipe('map' + k, mapper_env(k), mode='phase'))


# ------------------------------------------------------------------ the unitary simulator
class UnitaryRunner(Runner):
    """The predicted unitaries of all segments, and measurements drawn from the state."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.check_states = False

    def measure(self, group):
        self.eng.flush()
        super().measure(group)

    def item(self, it):
        if it[0] == 'unitary':
            self.unitary(it[1])
        else:
            super().item(it)

    def unitary(self, e):
        self.eng.flush()
        sim = self.env.backend
        want = []
        for seg in e['segs']:
            n = len(seg['ids'])
            cols = [state_vector({'ids': seg['ids'], **c})[1] for c in seg['cols']]
            want.append(np.array(cols).T.reshape(2**n, 2**n))
        got = [np.asarray(u, dtype=complex) for u in sim.history] + [np.asarray(sim.unitary, dtype=complex)]
        if len(got) != len(want):
            raise Mismatch(f'{len(got) - 1} earlier unitaries instead of {len(want) - 1}')
        for i, (w, g) in enumerate(zip(want, got)):
            g = g.reshape(1, 1) if g.size == 1 else g
            what = f'unitary {i} of {len(want)}'
            if g.shape != w.shape:
                raise Mismatch(f'{what} has shape {g.shape} instead of {w.shape}')
            d = np.max(np.abs(w - g))
            if not d <= self.atol:
                raise Mismatch(f'{what} differs by {d:.3g} (columns {sorted(set(np.argwhere(np.abs(w - g) > self.atol)[:, 1].tolist()))})')
            self.observed += 1
        ids, vec = state_vector(e['s'])
        qs = [self.q[x] for x in ids]
        for q in qs:
            Measure | q
        self.eng.flush()
        k = sum(int(q) << i for i, q in enumerate(qs))
        self.observed += 1
        if abs(vec[k]) < 1e-9:
            raise Mismatch(f'measuring gave {k:b}, which has amplitude 0')


def unitary_env(engines=None):
    def f(seed):
        random.seed(seed)
        s = UnitarySimulator()
        return Env(MainEngine(s, engines() if engines else []), s)

    return f


for _name, _engines in (
    ('unit', None),
    ('unitneg', lambda: [AutoReplacer(controlstate_rules())]),
    ('unitmap', lambda: [ManualMapper(lambda i: 3 * i + 2)]),
):
    add(Pipe(_name, unitary_env(_engines), runner=UnitaryRunner))
