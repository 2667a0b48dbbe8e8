"""Pipelines for arithmetic gates."""
import importlib

import numpy as np
import projectq.libs.math
from pipes import CPP, CPPFUS, PY, Env, Pipe, _mods, sim_env
from pq import Mismatch, Runner, state_vector
from projectq import MainEngine
from projectq.backends import ClassicalSimulator, Simulator
from projectq.cengines import AutoReplacer, DecompositionRuleSet, InstructionFilter, LocalOptimizer
from projectq.ops import BasicMathGate, ClassicalInstructionGate, XGate

importlib.import_module('projectq.libs.math')
P = {}


def add(p):
    P[p.name] = p


def math_rules(*more):
    return DecompositionRuleSet(modules=[projectq.libs.math] + _mods('qft2crandhadamard', 'swap2cnot', 'controlstate', *more))


def is_user(gate):
    from pq import UserMath, UserMathPlain

    return type(gate) is BasicMathGate or isinstance(gate, (UserMath, UserMathPlain))


def no_math(eng, cmd):
    return not isinstance(cmd.gate, BasicMathGate) and eng.next_engine.is_available(cmd) and '0' not in cmd.control_state


for n, s in (('cpp', CPP), ('fus', CPPFUS), ('py', PY)):
    add(Pipe('m' + n, sim_env(None, s)))
add(Pipe('mdec', sim_env(lambda s: [AutoReplacer(math_rules()), InstructionFilter(no_math)], CPP)))


def cx_only(eng, cmd):
    if isinstance(cmd.gate, ClassicalInstructionGate):
        return True
    n = sum(len(r) for r in cmd.qubits)
    k = len(cmd.control_qubits)
    return '0' not in cmd.control_state and n == 1 and (k == 0 or (k == 1 and isinstance(cmd.gate, XGate))) and eng.next_engine.is_available(cmd)


def all_rules():
    import projectq.setups.decompositions

    return DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])


add(Pipe('mcx', sim_env(lambda s: [AutoReplacer(all_rules()), InstructionFilter(cx_only)], CPP), mode='phase'))
add(Pipe('mdecopt', sim_env(lambda s: [LocalOptimizer(5), AutoReplacer(math_rules()), InstructionFilter(no_math), LocalOptimizer(5)], CPP)))


class ClassicalRunner(Runner):
    def compare(self, s):
        ids, vec = state_vector(s)
        (i,) = np.flatnonzero(np.abs(vec) > 1e-9)
        bits = {x: (int(i) >> k) & 1 for k, x in enumerate(ids)}
        sim = self.env.backend
        self.observed += 1
        for x in ids:
            if sim.read_bit(self.q[x]) != bits[x]:
                raise Mismatch(f'qubit {x} holds {sim.read_bit(self.q[x])}, expected {bits[x]}')
        order = list(ids)
        self.rng.shuffle(order)
        k = self.rng.randrange(len(order) + 1)
        got = sim.read_register([self.q[x] for x in order[:k]])
        if got != sum(bits[x] << j for j, x in enumerate(order[:k])):
            raise Mismatch(f'register {order[:k]} reads {got}')

    def query(self, k, e):
        if k != 'write':
            return super().query(k, e)
        sim = self.env.backend
        self.eng.flush()
        if len(e['q']) == 1 and self.rng.random() < 0.6:
            sim.write_bit(self.q[e['q'][0]], self.rng.choice([e['b'][0], bool(e['b'][0])]))
        else:
            sim.write_register([self.q[x] for x in e['q']], sum(b << j for j, b in enumerate(e['b'])))


def classical_env(engines):
    def f(seed):
        s = ClassicalSimulator()
        return Env(MainEngine(s, engines()), s)

    return f


def runner(env, rng, *a):
    return ClassicalRunner(env, rng)


add(Pipe('classical', classical_env(list), runner=runner))
