"""Setups: programs compiled by the engine lists of projectq.setups, in front of a simulator."""
from unittest import mock

import projectq.setups.awsbraket
import record
from pipes import CPP, Env, Pipe, high_replacer
from pq import Runner, Skip
from projectq import MainEngine
from projectq.ops import (
    CNOT,
    CRz,
    QFT,
    Barrier,
    C,
    H,
    R,
    Rx,
    Rxx,
    Ry,
    Rz,
    S,
    Sdag,
    Swap,
    T,
    Tdag,
    TimeEvolution,
    Toffoli,
    UniformlyControlledRy,
    X,
    Y,
    Z,
)
from projectq.setups import aqt, default, grid, ibm, ionq, linear, restrictedgateset, trapped_ion_decomposer
from record import Recorder, pat

awsbraket = projectq.setups.awsbraket

BOW = [[2, 1], [4, 2], [2, 0], [3, 2], [3, 4], [1, 0]]
MELBOURNE = [[1, 0], [1, 2], [2, 3], [4, 3], [4, 10], [5, 4], [5, 6], [5, 9], [6, 8], [7, 8], [9, 8], [9, 10], [11, 3], [11, 10],
             [11, 12], [12, 2], [13, 1], [13, 12], [14, 0], [14, 13]]
IBM = {'ibmqx4': {'nq': 5, 'coupling_map': BOW, 'version': '0'},
       'ibmq_qasm_simulator': {'nq': 99, 'coupling_map': [], 'version': '0'},
       'ibmq_16_melbourne': {'nq': 15, 'coupling_map': MELBOURNE, 'version': '0'},
       'ibmq_new': {'nq': 27, 'coupling_map': BOW, 'version': '0'}}
AQT = {'aqt_simulator': {'nq': 99, 'version': '0'}, 'aqt_device': {'nq': 4, 'version': '0'}}
AWS = {'SV1': {'nq': 34}, 'Aspen-8': {'nq': 32}, 'IonQ Device': {'nq': 11}, 'Other': {'nq': 3}}
IONQ = {'ionq_simulator': {'nq': 29, 'target': 'simulator'}, 'ionq_qpu': {'nq': 11, 'target': 'qpu'}}


def with_devices(mod, devices, **kw):
    """The engine list of a device setup, the service knowing the given devices."""
    if mod is ionq:
        with mock.patch.object(ionq.IonQ, 'show_devices', lambda self: devices):
            return mod.get_engine_list(**kw)
    with mock.patch.object(mod, 'show_devices', lambda *a, **k: devices):
        return mod.get_engine_list(**kw)


ONE = pat(c=0, k=1)
P = lambda *names: [pat(n, 0, 1) for n in names]
P2 = lambda *names: [pat(n, 0, 2) for n in names]
CX, CZ, SW = pat('X', 1), pat('Z', 1), pat('Swap', 0)
AWSONE = P('R', 'H', 'Rx', 'Ry', 'Rz', 'S', 'Sdag', 'T', 'Tdag', 'X', 'Y', 'Z')
NONE = record.NOTOPO


class JobRunner(Runner):
    """Programs a mapper without swaps cannot place are not compiled at all."""

    def items(self, prog):
        try:
            return super().items(prog)
        except RuntimeError as err:
            if 'cannot be mapped' in str(err):
                raise Skip() from None
            raise

    def finish(self):
        try:
            return super().finish()
        except RuntimeError as err:
            if 'cannot be mapped' in str(err):
                raise Skip() from None
            raise


def make(name, engines, gates, topo=NONE, job=False):
    def factory(seed):
        s = CPP(seed)
        rec = Recorder()
        # behind the recorder: what a gate set of "any" gate contains and the simulator does not
        e = Env(MainEngine(s, engines() + [rec, high_replacer()]), s)
        e.recorder2 = rec
        return e

    def after(env, runner):
        return record.delivered(env.recorder2.events, gates, pos=True, topo=topo, loc=topo is not NONE)

    return Pipe('setup:' + name, factory, mode='phase', after=after, runner=JobRunner if job else None)


def rg(one='any', two=(CNOT,), other=(), **kw):
    return lambda: restrictedgateset.get_engine_list(one, two, other, **kw)


FULL = (Rz, Ry, Rx, H)
S_ = {p.name[6:]: p for p in [
    make('default', default.get_engine_list, [pat()]),
    make('rg', rg(), [ONE, CX]),
    make('rg any any', rg('any', 'any'), [ONE, pat(k=2)]),
    make('rg full', rg(FULL, (CNOT,)), P('Rz', 'Ry', 'Rx', 'H') + [CX]),
    make('rg RzRx', rg((Rz, Rx), (CNOT,)), P('Rz', 'Rx') + [CX]),
    make('rg RzH', rg((Rz, H), (CNOT,)), P('Rz', 'H') + [CX]),
    make('rg XTRzH SwapCX', rg((X, T, Rz, H), (Swap, CNOT)), P('X', 'T', 'Rz', 'H') + [CX, SW]),
    make('rg two other', rg(FULL, (CNOT, C(Rz(0.5)), C(Z)), (TimeEvolution, QFT, Toffoli, UniformlyControlledRy)),
         P('Rz', 'Ry', 'Rx', 'H') + [CX, CZ, pat('Rz', 1), pat('TE'), pat('QFT', 0), pat('X', 2), pat('UCRy')]),
    make('linear', lambda: linear.get_engine_list(6), [ONE, CX, SW], {'k': 'line', 'n': 6}),
    make('ring full', lambda: linear.get_engine_list(6, True, FULL, (CNOT,)), P('Rz', 'Ry', 'Rx', 'H') + [CX], {'k': 'ring', 'n': 6}),
    make('ring RzRx any', lambda: linear.get_engine_list(5, True, (Rz, Rx), 'any'), P('Rz', 'Rx') + [pat(k=2)], {'k': 'ring', 'n': 5}),
    make('line XRzH', lambda: linear.get_engine_list(5, False, (X, Rz, H), (CNOT, Swap)), P('X', 'Rz', 'H') + [CX, SW], {'k': 'line', 'n': 5}),
    make('grid', lambda: grid.get_engine_list(2, 3), [ONE, CX, SW], {'k': 'grid', 'n': 6, 'cols': 3}),
    make('grid full', lambda: grid.get_engine_list(3, 2, FULL, (CNOT,)), P('Rz', 'Ry', 'Rx', 'H') + [CX], {'k': 'grid', 'n': 6, 'cols': 2}),
    make('grid any any', lambda: grid.get_engine_list(2, 4, 'any', 'any'), [ONE, pat(k=2)], {'k': 'grid', 'n': 8, 'cols': 4}),
    make('ion', trapped_ion_decomposer.get_engine_list, P('Rx', 'Ry') + P2('Rxx')),
    make('ibm sim', lambda: with_devices(ibm, IBM, device='ibmq_qasm_simulator'), P('Rz', 'Ry', 'Rx', 'H') + [CX]),
    make('ibm 16', lambda: with_devices(ibm, IBM, device='ibmq_16_melbourne'), P('Rz', 'Ry', 'Rx', 'H') + [CX], {'k': 'arrows', 'n': 15, 'e': MELBOURNE}),
    make('ibm 5', lambda: with_devices(ibm, IBM, device='ibmqx4'), P('Rz', 'Ry', 'Rx', 'H') + [CX], {'k': 'arrows', 'n': 5, 'e': BOW}, job=True),
    make('aqt', lambda: with_devices(aqt, AQT, device='aqt_simulator'), P('Rx', 'Ry') + P2('Rxx')),
    make('ionq', lambda: with_devices(ionq, IONQ, device='ionq_qpu'),
         P('X', 'Y', 'Z', 'Rx', 'Ry', 'Rz', 'H', 'S', 'Sdag', 'T', 'Tdag', 'SqrtX') + P2('Swap', 'Rxx', 'Ryy', 'Rzz')),
    make('SV1', lambda: with_devices(awsbraket, AWS, device='SV1'), AWSONE + P('SqrtX') + [SW]),
    make('Aspen-8', lambda: with_devices(awsbraket, AWS, device='Aspen-8'), AWSONE + [SW]),
    make('IonQ Device', lambda: with_devices(awsbraket, AWS, device='IonQ Device'), AWSONE[1:] + P('SqrtX') + [SW]),
]}
ANY = [S_[n] for n in S_ if n not in ('ibm 16', 'ibm 5', 'ionq', 'SV1', 'Aspen-8', 'IonQ Device')]
JOB2 = [S_['ionq']]
CXONLY = [S_['ibm 16'], S_['ibm 5']]
ALONE = [S_[n] for n in ('SV1', 'Aspen-8', 'IonQ Device')]

# ------------------------------------------------------------------ requests
GATESET = {'any': 'any', 'classes': (Rz, Rx), 'gates': (X, CNOT), 'mixed': (Rz, H), 'empty': (), 'list': [Rz, H], 'class': Rz, 'gate': CNOT,
           'string': 'all', 'none': None, 'function': (Rz, CRz), 'text': (Rz, 'H')}
DEVICE = {'ibm': {'five': 'ibmqx4', 'simulator': 'ibmq_qasm_simulator', 'melbourne': 'ibmq_16_melbourne', 'other': 'ibmq_new'},
          'aqt': {'simulator': 'aqt_simulator', 'other': 'aqt_device'},
          'awsbraket': {'SV1': 'SV1', 'Aspen-8': 'Aspen-8', 'IonQ Device': 'IonQ Device', 'other': 'Other'},
          'ionq': {'simulator': 'ionq_simulator', 'qpu': 'ionq_qpu'}}
SERVICE = {'ibm': (ibm, IBM), 'aqt': (aqt, AQT), 'awsbraket': (awsbraket, AWS), 'ionq': (ionq, IONQ)}


def request(r):
    try:
        if r['s'] == 'restrictedgateset':
            lst = restrictedgateset.get_engine_list(GATESET[r['one']], GATESET[r['two']], GATESET[r['other']])
        elif r['s'] == 'linear':
            lst = linear.get_engine_list(4, False, GATESET[r['one']], GATESET[r['two']])
        elif r['s'] == 'grid':
            lst = grid.get_engine_list(2, 2, GATESET[r['one']], GATESET[r['two']])
        else:
            mod, devices = SERVICE[r['s']]
            lst = with_devices(mod, devices, device=None if r['one'] == 'none' else DEVICE[r['s']].get(r['one'], 'nowhere'))
    except Exception as exc:
        return type(exc).__name__
    return 'accepted' if isinstance(lst, list) and lst else f'{type(lst).__name__}'
