"""Recorded command streams in the vocabulary of the specification."""
import copy

from projectq.cengines import BasicEngine
from projectq.ops import (
    AllocateQubitGate,
    BarrierGate,
    DaggeredGate,
    DeallocateQubitGate,
    FlushGate,
    MatrixGate,
    MeasureGate,
)

NAMES = {
    'XGate': 'X', 'YGate': 'Y', 'ZGate': 'Z', 'HGate': 'H', 'SGate': 'S', 'TGate': 'T', 'SqrtXGate': 'SqrtX', 'SwapGate': 'Swap',
    'SqrtSwapGate': 'SqrtSwap', 'MatrixGate': 'M', 'QFTGate': 'QFT', 'EntangleGate': 'Entangle',
    'UniformlyControlledRy': 'UCRy', 'UniformlyControlledRz': 'UCRz', 'TimeEvolution': 'TE', 'QubitOperator': 'QOp',
}


def gate_name(gate):
    if isinstance(gate, DaggeredGate):
        return gate_name(gate._gate) + 'dag'
    n = type(gate).__name__
    return NAMES.get(n, n)


def event(cmd):
    """One command as a record of the specification."""
    g = cmd.gate
    kind = 'g'
    for o, cls in (('a', AllocateQubitGate), ('d', DeallocateQubitGate), ('m', MeasureGate), ('f', FlushGate), ('b', BarrierGate)):
        if isinstance(g, cls):
            kind = o
    return {'o': kind, 'n': gate_name(g), 't': [q.id for r in cmd.qubits for q in r], 'c': [q.id for q in cmd.control_qubits],
            's': [int(b) for b in cmd.control_state]}


def pat(n='*', c=-1, k=-1):
    return {'n': n, 'c': c, 'k': k}


NOTOPO = {'k': 'none'}


def matches(e, p):
    return ((p['n'] == '*' or p['n'] == e['n']) and (p['c'] == -1 or p['c'] == len(e['c']))
            and (p['k'] == -1 or p['k'] == len(e['t']) + len(e['c'])))


def native(e, yes, no=(), pos=False):
    """The declared gate set as an engine's is_available would state it."""
    if e['o'] != 'g':
        return True
    if pos and 0 in e['s']:
        return False
    return any(matches(e, p) for p in yes) and not any(matches(e, p) for p in no)


def delivered(events, patterns=None, pos=False, topo=None, loc=False, open_=False, no=()):
    return {'set': patterns or [pat()], 'no': list(no), 'pos': pos, 'topo': topo or NOTOPO, 'loc': loc, 'open': open_,
            'ev': [e for e in events if e['o'] not in 'fb']}


class Tap(BasicEngine):
    """Notes every command that passes, as the given function sees it."""

    def __init__(self, note):
        super().__init__()
        self.note = note

    def receive(self, command_list):
        for cmd in command_list:
            self.note(cmd)
            self.send([cmd])


class Recorder(Tap):
    def __init__(self):
        super().__init__(lambda cmd: self.events.append(event(cmd)))
        self.events = []


class Keeper(Tap):
    """Keeps copies of the commands themselves."""

    def __init__(self):
        super().__init__(lambda cmd: self.commands.append(copy.deepcopy(cmd)))
        self.commands = []
