"""Pipelines with a resource counter."""
import math
import re

import pipes
from pipes import Env, Pipe, add
from pq import Mismatch, Runner, make_gate
from projectq import MainEngine
from projectq.backends import ResourceCounter, Simulator
from projectq.cengines import BasicMapperEngine
from projectq.ops import Allocate, AllocateQubitGate, Deallocate, DeallocateQubitGate, MatrixGate, Measure, QubitOperator, TimeEvolution


class Renumber(BasicMapperEngine):
    """Hands the backend the lowest free id."""

    def __init__(self):
        super().__init__()
        self.current_mapping = {}

    def receive(self, command_list):
        for cmd in command_list:
            if isinstance(cmd.gate, AllocateQubitGate):
                used = set(self.current_mapping.values())
                m = dict(self.current_mapping)
                m[cmd.qubits[0][0].id] = min(i for i in range(len(used) + 1) if i not in used)
                self.current_mapping = m
            if any(q.id == -1 for r in cmd.all_qubits for q in r):
                self.send([cmd])
                continue
            self._send_cmd_with_mapped_ids(cmd)
            if isinstance(cmd.gate, DeallocateQubitGate):
                m = dict(self.current_mapping)
                del m[cmd.qubits[0][0].id]
                self.current_mapping = m


class Everything:
    def __contains__(self, x):
        return True


def same(g, h):
    """The same gate up to rounding."""
    if type(g) is not type(h):
        return False
    if g == h or (type(g) is TimeEvolution and str(g) == str(h)):
        return True
    if type(g) is QubitOperator:
        return g.isclose(h)
    near = lambda a, b: abs((a - b + 1) % (4 * math.pi) - 1) < 1e-9
    if hasattr(g, 'angles'):
        return len(g.angles) == len(h.angles) and all(map(near, g.angles, h.angles))
    return hasattr(g, 'angle') and near(g.angle, h.angle)


class CountRunner(Runner):
    canonical = Everything()

    def __init__(self, env, *a, **k):
        super().__init__(env, *a, **k)
        self.check_states = env.backend is not env.counter

    def measure(self, group):
        if self.check_states:
            return super().measure(group)
        for e in group:
            q = self.q[e['q']]
            Measure | q
            self.nmeas += 1
            self.eng.flush()
            if int(q) != 0:
                raise Mismatch(f'the counter measured {int(q)}')
            self.last[e['q']] = 0

    def item(self, it):
        if it[0] == 'count':
            self.count(it[1])
        elif it[0] != 'bad':
            super().item(it)

    def count(self, e):
        self.eng.flush()
        ctr = self.env.counter
        want = []  # [gate, controls, number]
        for x in e['counts']:
            k = x['key']
            g = make_gate(k['g'], k['w'])[0] if k['o'] == 'g' else {'a': Allocate, 'd': Deallocate, 'm': Measure}[k['o']]
            for w in want:
                if same(w[0], g) and w[1] == k['n']:
                    w[2] += x['num']
                    break
            else:
                want.append([g, k['n'], x['num']])
        classes, lines, entries = {}, {}, 0
        for g, n, num in want:
            classes[type(g), n] = classes.get((type(g), n), 0) + num
            got = [(h, v) for (h, m), v in ctr.gate_counts.items() if m == n and same(h, g)]
            entries += len(got)
            if sum(v for _, v in got) != num:
                raise Mismatch(f'{g} with {n} controls was applied {num} times, counted {got}')
            # matrices are equal up to rounding, but listed by their digits
            if type(g) is not MatrixGate and any(a[0] == b[0] for i, a in enumerate(got) for b in got[:i]):
                raise Mismatch(f'{g} with {n} controls is listed {len(got)} times')
            for h, v in got:
                name = f'{"C" * n}{h}'
                lines[name] = lines.get(name, 0) + v
        if len(ctr.gate_counts) != entries:
            raise Mismatch(f'{len(ctr.gate_counts)} kinds of gates counted, {entries} applied')
        if sum(ctr.gate_counts.values()) != e['total']:
            raise Mismatch(f'{sum(ctr.gate_counts.values())} commands counted, {e["total"]} applied')
        if ctr.gate_class_counts != classes:
            raise Mismatch(f'class counts {ctr.gate_class_counts}, expected {classes}')
        for what, got in (('width', ctr.max_width), ('depth', ctr.depth_of_dag)):
            if got != e[what]:
                raise Mismatch(f'{what} {got}, expected {e[what]}')
            self.observed += 1
        # the report has the same numbers
        names = {}
        for (c, n), num in classes.items():
            names[f'{"C" * n}{c.__name__}'] = names.get(f'{"C" * n}{c.__name__}', 0) + num
        parts = str(ctr).split('\n\n')
        got = [self.parse(part) for part in parts[:2]]
        if len(parts) != 3 or got != [names, lines] or re.findall(r'\d+', parts[2]) != [str(e['width'])]:
            raise Mismatch(f'report {str(ctr)!r}, expected {names} {lines} {e["width"]}')
        self.observed += len(want) + 1

    @staticmethod
    def parse(part):
        """Lines "name : number" below a title; a name may go over several lines (matrices)."""
        out = {}
        body = part.split('\n', 1)[1] if '\n' in part else ''
        for name, num in re.findall(r'\s*(.*?) : (\d+)(?=\n|$)', body, re.S):
            out[name] = out.get(name, 0) + int(num)
        return out


def count_env(engines, last):
    def f(seed):
        ctr = ResourceCounter()
        if last:
            e = Env(MainEngine(ctr, engines()), ctr)
        else:
            s = Simulator(rnd_seed=seed)
            e = Env(MainEngine(s, engines() + [ctr, pipes.high_replacer('qubitop2onequbit', *pipes.MORE)]), s)
        e.counter = ctr
        return e

    return f


add(Pipe('count', count_env(list, True), runner=CountRunner))
add(Pipe('countsim', count_env(list, False), runner=CountRunner))
add(Pipe('countre', count_env(lambda: [Renumber()], True), runner=CountRunner))
add(Pipe('countresim', count_env(lambda: [Renumber()], False), runner=CountRunner))
