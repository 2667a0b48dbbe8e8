"""Hardware backends: programs of module HwJob against simulated services; what goes over the wire and what is reported."""
import contextlib
import io
import json
import math
import random
import re
import time
from unittest import mock
from urllib.parse import parse_qs, urlparse

import azure.quantum.target as azure
import boto3
import numpy as np
import requests
from projectq import MainEngine
from projectq import ops as o
from projectq.backends import AQTBackend, AWSBraketBackend, AzureQuantumBackend, IBMBackend, IonQBackend
from projectq.cengines import ManualMapper
from projectq.meta import Control
from projectq.ops import Command
from projectq.types import WeakQubitRef

import jobs

SHOTS = 12
VAL = {'pi': math.pi, 'pi/2': math.pi / 2, '-pi/2': -math.pi / 2, 'pi/4': math.pi / 4}
GATES = {'X': o.X, 'Y': o.Y, 'Z': o.Z, 'H': o.H, 'S': o.S, 'T': o.T, 'Sdag': o.Sdag, 'Tdag': o.Tdag, 'SqrtX': o.SqrtX,
         'SqrtXdag': o.get_inverse(o.SqrtX), 'Swap': o.Swap, 'SqrtSwap': o.SqrtSwap}


def num(s):
    return VAL[s] if s in VAL else float(s)


def gate(g, a):
    return GATES[g] if g in GATES else getattr(o, g)(num(a))


class Wire(Exception):
    """Something is wrong with what was sent."""


# ------------------------------------------------------------------ services that always succeed
class Service:
    jobid = 'job-77'

    def __init__(self, svc):
        self.svc = svc
        self.received = []
        self.retrieved = 0
        self.flush = None

    def patches(self, st):
        st.enter_context(mock.patch.object(requests.adapters.HTTPAdapter, 'send', lambda s, req, **kw: self.http(req)))

    def job(self, circ, meas, nq, shots):
        self.received.append((circ, meas, nq, shots))
        self.nq = nq

    def outcomes(self):
        """[(bit of each location, how often)]"""
        return [({int(k): v for k, v in a['o'].items()} if isinstance(a['o'], dict) else dict(enumerate(a['o'])), a['n']) for a in self.flush['answer']]


def ins(n, p, c, t):
    return (n, tuple(float(x) for x in p), tuple(c), tuple(t))


class IbmService(Service):
    device = 'ibmq_good'

    def backend(self, **kw):
        return IBMBackend(use_hardware=True, token='t', device=self.device, num_runs=SHOTS, **kw)

    def http(self, req):
        url = urlparse(req.url)
        p = url.path
        if url.netloc.startswith('auth.'):
            return jobs.response(req, 200, {'id': 'x'})
        if url.netloc == 'store':
            if req.method == 'PUT':
                d = json.loads(req.body)
                circ, meas = [], []
                for i in d['experiments'][0]['instructions']:
                    q = i['qubits']
                    if i['name'] == 'measure':
                        meas.append((q[0], i['memory'][0]))
                    else:
                        if meas:
                            raise Wire('gates after the measurements')
                        cx = i['name'] == 'cx'
                        circ.append(ins(i['name'], i.get('params', ()), q[:1] if cx else (), q[1:] if cx else q))
                if d['experiments'][0]['header']['n_qubits'] != d['config']['n_qubits']:
                    raise Wire('two different numbers of qubits')
                self.job(circ, meas, d['config']['n_qubits'], d['config']['shots'])
                return jobs.response(req, 200, {})
            counts = {}
            for bits, n in self.outcomes():
                meas = self.received[-1][1] if not self.flush['ret'] else [(k, k) for k in self.flush['locs']]
                key = hex(sum(bits[q] << c for q, c in meas))
                counts[key] = counts.get(key, 0) + n
            return jobs.response(req, 200, {'results': [{'data': {'counts': counts}}]})
        if p.endswith('devices/v/1'):
            return jobs.response(req, 200, [{'backend_name': self.device, 'n_qubits': 20, 'coupling_map': None, 'backend_version': '1'}])
        if p.endswith('/Jobs'):
            return jobs.response(req, 200, {'id': self.jobid, 'objectStorageInfo': {'uploadUrl': 'https://store/up'}})
        if p.endswith('/jobDataUploaded') or p.endswith('/resultDownloaded'):
            return jobs.response(req, 200, {})
        self.retrieved += p.endswith('/' + self.jobid)
        return jobs.response(req, 200, {'status': 'COMPLETED', 'url': 'https://store/down'})


class AqtService(Service):
    def backend(self, **kw):
        return AQTBackend(use_hardware=True, token='t', device='aqt_simulator', num_runs=SHOTS, **kw)

    def http(self, req):
        d = parse_qs(req.body)
        if 'data' in d:
            circ = [ins(n, [a * math.pi], (), q) for n, a, q in json.loads(d['data'][0])]
            self.job(circ, None, int(d['no_qubits'][0]), int(d['repetitions'][0]))
            return jobs.response(req, 200, {'status': 'queued', 'id': self.jobid})
        self.retrieved += d['id'] == [self.jobid]
        samples = [sum(b << q for q, b in bits.items()) for bits, n in self.outcomes() for _ in range(n)]
        random.Random(1).shuffle(samples)
        return jobs.response(req, 200, {'status': 'finished', 'id': self.jobid, 'samples': samples})


class IonqService(Service):
    def backend(self, **kw):
        return IonQBackend(use_hardware=True, token='t', device='aria', num_runs=SHOTS, **kw)

    def http(self, req):
        p = urlparse(req.url).path
        if p == '/v0.2/backends':
            return jobs.response(req, 200, [{'backend': 'aria', 'qubits': 20}])
        if req.method == 'POST':
            d = json.loads(req.body)
            self.ids, self.locs = d['metadata']['meas_qubit_ids'], d['registers']['meas_mapped']
            if json.loads(self.ids) != self.flush['meas']:
                raise Wire(f'names the qubits {self.ids} instead of {self.flush["meas"]}')
            circ = [ins(i['gate'], [i['rotation']] if 'rotation' in i else [], i.get('controls', ()), i['targets']) for i in d['body']['circuit']]
            self.job(circ, [(q, q) for q in self.locs], d['body']['qubits'], d['shots'])
            return jobs.response(req, 200, {'id': self.jobid, 'status': 'ready'})
        self.retrieved += p.endswith('/' + self.jobid)
        if self.flush['ret']:
            self.ids, self.locs = json.dumps(self.flush['meas']), self.flush['locs']
        probs = {}
        for bits, n in self.outcomes():
            key = str(sum(bits[q] << k for k, q in enumerate(self.locs)))
            probs[key] = probs.get(key, 0) + n / SHOTS
        return jobs.response(req, 200, {'id': self.jobid, 'status': 'completed', 'qubits': 9, 'registers': {'meas_mapped': self.locs},
                                       'metadata': {'meas_qubit_ids': self.ids}, 'data': {'registers': {'meas_mapped': probs}}})


class AwsService(Service):
    DEV = {'aspen': 'Aspen-8', 'awsionq': 'IonQ Device', 'sv1': 'SV1'}
    jobid = 'arn:aws:braket:us-west-1:123:quantum-task/77'

    def backend(self, **kw):
        return AWSBraketBackend(use_hardware=True, device=self.DEV[self.svc], credentials={'AWS_ACCESS_KEY_ID': 'i', 'AWS_SECRET_KEY': 'k'}, s3_folder=['S3', 'd'],
                                num_runs=SHOTS, **kw)

    def patches(self, st):
        st.enter_context(mock.patch.object(boto3, 'client', lambda service, region_name=None, **kw: AwsClient(self, region_name)))


class AwsClient:
    def __init__(self, srv, region):
        self.srv, self.region = srv, region

    def search_devices(self, filters):
        s = self.srv
        return {'devices': [{'deviceName': s.DEV[s.svc], 'deviceArn': 'arn:dev', 'deviceType': 'SIMULATOR' if s.svc == 'sv1' else 'QPU', 'deviceStatus': 'ONLINE',
                             'providerName': 'p'}] if self.region == 'us-west-1' else []}

    def get_device(self, deviceArn):
        cap = json.loads(json.dumps(jobs.CAP))
        cap['paradigm']['qubitCount'] = 34
        return {'deviceCapabilities': json.dumps(cap), 'deviceType': 'SIMULATOR' if self.srv.svc == 'sv1' else 'QPU'}

    def create_quantum_task(self, action, deviceArn, deviceParameters, outputS3Bucket, outputS3KeyPrefix, shots):
        circ = []
        for i in json.loads(action)['instructions']:
            c = i.get('controls', [i['control']] if 'control' in i else [])
            t = i.get('targets', [i['target']] if 'target' in i else [])
            circ.append(ins(i['type'], [i['angle']] if 'angle' in i else [], c, t))
        self.srv.job(circ, None, json.loads(deviceParameters)['paradigmParameters']['qubitCount'], shots)
        return {'quantumTaskArn': self.srv.jobid}

    def get_quantum_task(self, quantumTaskArn):
        self.srv.retrieved += quantumTaskArn == self.srv.jobid
        return {'quantumTaskArn': quantumTaskArn, 'status': 'COMPLETED', 'outputS3Bucket': 'b', 'outputS3Directory': 'd', 'deviceArn': 'arn:dev'}

    def get_object(self, Bucket, Key):
        rows = [([bits[q] for q in sorted(bits)], n) for bits, n in self.srv.outcomes()]
        if self.srv.svc == 'sv1':
            body = {'measurements': [r for r, n in rows for _ in range(n)], 'measuredQubits': list(range(len(rows[0][0]))), 'measurementProbabilities': None}
        else:
            probs = {}
            for r, n in rows:
                key = ''.join(map(str, r))
                probs[key] = probs.get(key, 0) + n / SHOTS
            body = {'measurementProbabilities': probs, 'measurements': None}
        return {'Body': io.BytesIO(json.dumps(body).encode())}


QASM = re.compile(r'\s*(\w+)\s*(?:\(([^()]*)\))?\s*((?:q\[\d+\]\s*,\s*)*q\[\d+\])\s*(?:->\s*c\[(\d+)\])?\s*;')


def qasm(text, head=True):
    """(instructions, measurements, qubits) of an OpenQASM program."""
    nq = None
    if head:
        m = re.match(r'\s*OPENQASM 2\.0;\s*include "qelib1\.inc";\s*qreg q\[(\d+)\];\s*creg c\[(\d+)\];', text)
        if not m or m.group(1) != m.group(2):
            raise Wire(f'no OpenQASM: {text[:80]!r}')
        nq, text = int(m.group(1)), text[m.end():]
    circ, meas, at = [], [], 0
    while text[at:].strip():
        m = QASM.match(text, at)
        if not m:
            raise Wire(f'no OpenQASM: {text[at:at + 40]!r}')
        at = m.end()
        q = [int(x) for x in re.findall(r'q\[(\d+)\]', m.group(3))]
        name = m.group(1)
        if name == 'measure':
            meas.append((q[0], int(m.group(4))))
            continue
        if meas:
            raise Wire('gates after the measurements')
        par = [] if m.group(2) is None else [param(x.strip()) for x in m.group(2).split(',')]
        k = len(name) - len(name.lstrip('c'))
        circ.append(ins(name, par, q[:k], q[k:]))
    return circ, meas, nq


def param(x):
    m = re.fullmatch(r'(-?)pi(?:/(\d+))?', x)
    if m:
        return (-1 if m.group(1) else 1) * math.pi / int(m.group(2) or 1)
    return float(x)


class AzureService(Service):
    TARGET = {'azionq': azure.IonQ.target_names[0], 'azquant': azure.Quantinuum.target_names[0]}
    current_availability = 'Available'
    id = 'job-77'

    def append_user_agent(self, _):
        pass

    @property
    def workspace(self):
        return self

    def backend(self, **kw):
        return AzureQuantumBackend(use_hardware=True, workspace=self, target_name=self.TARGET[self.svc], num_runs=SHOTS, **kw)

    def patches(self, st):
        st.enter_context(mock.patch.object(AzureQuantumBackend, '_target_factory', lambda *a, **kw: self))

    def submit(self, circuit=None, num_shots=None, metadata=None, **kw):
        if self.svc == 'azionq':
            circ = [ins(i['gate'], [i['rotation']] if 'rotation' in i else [], i.get('controls', ()), i['targets']) for i in circuit['circuit']]
            self.job(circ, [(q, q) for q in metadata['meas_map']], circuit['qubits'], num_shots)
        else:
            circ, meas, nq = qasm(circuit)
            self.job(circ, meas, nq, num_shots)
        return self

    def get_job(self, job_id):
        if job_id != self.id:
            raise Wire(f'asks for the job {job_id}')
        self.nq = 8
        return self

    def get_results(self, timeout_secs=None):
        self.retrieved += 1
        meas = self.received[-1][1] if not self.flush['ret'] else [(k, k) for k in self.flush['locs']]
        if self.svc == 'azionq':
            probs = {}
            for bits, n in self.outcomes():
                key = str(sum(bits[q] << k for k, (q, _) in enumerate(meas)))
                probs[key] = probs.get(key, 0) + n / SHOTS
            return {'histogram': probs}
        res = []
        for bits, n in self.outcomes():
            row = ['0'] * self.nq
            for q, c in meas:
                row[c] = str(bits[q])
            res += [''.join(row)] * n
        return {'c': res}


SERVICE = {'ibm': IbmService, 'aqt': AqtService, 'ionq': IonqService, 'aspen': AwsService, 'awsionq': AwsService, 'sv1': AwsService,
           'azionq': AzureService, 'azquant': AzureService}
KW = {'aspen', 'awsionq', 'sv1'}


def make(svc, mode, program, verbose):
    srv = SERVICE[svc](svc)
    kw = dict(retrieve_execution=srv.jobid) if mode['ret'] else {}
    kw['verbose'] = verbose
    backend = srv.backend(**kw)
    loc = {s['id']: s['l'] for s in program if s['k'] == 'a'}
    return srv, backend, [ManualMapper(lambda i: loc[i])] if mode['map'] else []


# ------------------------------------------------------------------ drawing an outcome
class Dice:
    """Stands in for the random number generators; u is what the next draw gives."""

    def __init__(self):
        self.u, self.used = 0.5, 0

    def random(self):
        self.used += 1
        return self.u

    def choice(self, a, size=None, replace=True, p=None):
        if size is not None or p is None:
            raise Wire('an unexpected draw')
        self.used += 1
        s = 0.0
        for x, q in zip(a, p):
            s += q
            if s >= self.u:
                return x
        return a[-1]


def same(svc, want, got):
    """Is the instruction what the specification wants?"""
    name, par, c, t = got
    if name != want['n'] or sorted(c) != sorted(want['c']) or len(par) != len(want['p']):
        return False
    if (sorted(t) != sorted(want['t'])) if want['sym'] else (list(t) != want['t']):
        return False
    tol = 0.0051 * math.pi if svc == 'aqt' else 1e-7
    turn = 2 * math.pi if 'phase' in name or svc == 'ibm' and name == 'u1' else 4 * math.pi
    return all(abs(math.remainder(num(a) - b, turn)) < tol for a, b in zip(want['p'], par))


def check_job(svc, f, job, run):
    circ, meas, nq, shots = job
    if len(circ) != len(f['circ']):
        return f'{len(circ)} instructions instead of {len(f["circ"])}: {circ}'
    for k, (w, g) in enumerate(zip(f['circ'], circ)):
        if not same(svc, w, g):
            return f'instruction {k} is {g} instead of {w}'
    if meas is not None and [q for q, _ in meas] != f['locs'] and (svc == 'ionq' or svc == 'azionq' or sorted(q for q, _ in meas) != sorted(f['locs'])):
        return f'measures {meas} instead of {f["locs"]}'
    if meas is not None and len({c for _, c in meas}) != len(meas):
        return f'measures twice into the same bit: {meas}'
    if not f['need'] <= nq <= run['top'] + 1:
        return f'asks for {nq} qubits; the job needs {f["need"]}'
    if shots != SHOTS:
        return f'asks for {shots} shots instead of {SHOTS}'
    return ''


def near(a, b):
    return abs(a - b) < 1e-9


def check_probs(svc, backend, f, qb):
    for q in f['query']:
        reg = [qb[i] for i in q['reg']]
        want = {''.join(map(str, p)): n / SHOTS for p, n in q['want']}
        got = backend.get_probabilities(reg)
        for s in set(want) | set(got):
            if not near(want.get(s, 0), got.get(s, 0)):
                return f'the probability of {s} for the qubits {q["reg"]} is {got.get(s, 0)} instead of {want.get(s, 0)}'
        if hasattr(backend, 'get_probability'):
            for s in [format(k, f'0{len(reg)}b') for k in range(2 ** len(reg))][:8]:
                if not near(backend.get_probability(s, reg), want.get(s, 0)):
                    return f'get_probability({s}) for the qubits {q["reg"]} is {backend.get_probability(s, reg)} instead of {want.get(s, 0)}'
    return ''


def check_qasm(backend, f):
    """Everything that is wrong with the text of the circuit."""
    circ, meas, _ = qasm(backend.get_qasm(), head=False)
    bad = []
    if len(circ) != len(f['circ']) or meas != [(q, q) for q in f['locs']]:
        bad.append(f'get_qasm() shows {len(circ)} gates and the measurements {meas}')
    for w, g in zip(f['circ'], circ):
        if not same('ibm', w, g):
            par = ','.join(f'{x:.4g}' for x in g[1])
            bad.append(f'get_qasm() shows {g[0]}({par}) instead of {w["n"]}({",".join(w["p"])})')
    return bad


def one_pass(beh, turn, drawn):
    """Run the program once; the draws of this pass are number `turn`.  Returns what is wrong, or ''."""
    svc, mode = beh['service'], beh['mode']
    prog = [s for s in beh['prog'] if s['k'] != 'end']
    srv, backend, engines = make(svc, mode, prog, turn == 3)
    dice, notes = Dice(), []
    run = {'top': 0}
    with contextlib.ExitStack() as st:
        st.enter_context(contextlib.redirect_stdout(io.StringIO()))
        st.enter_context(mock.patch.object(time, 'sleep', lambda s: None))
        st.enter_context(mock.patch('getpass.getpass', side_effect=Wire('asks for a token')))
        st.enter_context(mock.patch.object(random, 'random', dice.random))
        st.enter_context(mock.patch.object(np.random, 'choice', dice.choice))
        srv.patches(st)
        eng = MainEngine(backend, engines)
        qb, done = {}, set()
        try:
            for n, s in enumerate(prog):
                k = s['k']
                where = f'step {n} ({k}): '
                if k == 'a':
                    q = eng.allocate_qubit()
                    qb[s['id']] = q[0]
                    if q[0].id != s['id']:
                        return where + 'another id'
                    run['top'] = max(run['top'], s['l'])
                elif k == 'd':
                    q = qb.pop(s['id'])
                    q.__del__()
                    q.id = -1
                    done.discard(s['id'])
                elif k in ('g', 'refused'):
                    t = [qb[i] for i in s['t']]
                    arg = t[0] if len(t) == 1 else tuple(t) if s['g'] in ('Swap', 'SqrtSwap', 'Rxx', 'Ryy', 'Rzz') else t
                    try:
                        with Control(eng, [qb[i] for i in s['c']]):
                            gate(s['g'], s['a']) | arg
                    except Exception as err:
                        if k == 'refused' and type(err).__name__ in ('InvalidCommandError', 'MidCircuitMeasurementError'):
                            return '', notes
                        raise
                    if k == 'refused':
                        return where + 'a gate on a measured qubit is not refused', notes
                elif k == 'b':
                    o.Barrier | [qb[i] for i in s['t']]
                elif k == 'm':
                    o.Measure | qb[s['id']]
                elif k == 'f':
                    before, polled = len(srv.received), srv.retrieved
                    srv.flush = s
                    dice.u = ((turn + n) % SHOTS + 0.5) / SHOTS
                    dice.used = 0
                    eng.flush()
                    sent = len(srv.received) - before
                    if sent != (1 if s['runs'] and not s['ret'] else 0):
                        return where + f'{sent} jobs were sent', notes
                    if s['runs'] != (srv.retrieved > polled):
                        return where + 'the result of the job was not asked for', notes
                    if sent:
                        bad = check_job(svc, s, srv.received[-1], run)
                        if bad:
                            return where + bad, notes
                    if svc == 'ibm' and s['runs']:
                        notes += check_qasm(backend, s)
                    if s['runs']:
                        bad = check_probs(svc, backend, s, qb)
                        if bad:
                            return where + bad, notes
                        got = []
                        for i in s['meas']:
                            if i in qb:
                                v = int(qb[i])
                                if v not in (0, 1) or bool(qb[i]) != bool(v):
                                    return where + f'qubit {i} gives {v}', notes
                                got.append(v)
                            else:
                                got.append(None)
                        fit = [tuple(a['res']) for a in s['answer'] if all(x is None or x == y for x, y in zip(got, a['res']))]
                        if not fit:
                            return where + f'the qubits {s["meas"]} give {got}, which is none of the outcomes {[a["res"] for a in s["answer"]]}', notes
                        if all(x is not None for x in got):
                            drawn.setdefault(n, []).append((tuple(got), dice.used))
                    else:
                        for i in s['meas']:
                            with contextlib.suppress(Exception):
                                int(qb[i])
                                return where + f'qubit {i} has a result without a job', notes
        except Wire as err:
            return where + str(err), notes
        except Exception as err:
            return where + f'{type(err).__name__}: {err}', notes
        finally:
            for q in qb.values():
                q.id = -1
            eng.flush = lambda *a, **k: None  # when the engine goes
    return '', notes


def replay(beh):
    drawn, notes = {}, []
    for turn in range(SHOTS):
        res = one_pass(beh, turn, drawn)
        bad, nt = res if isinstance(res, tuple) else (res, [])
        notes += nt
        if bad:
            return bad, notes
    # every outcome is drawn as often as it occurred
    for n, seen in drawn.items():
        f = beh['prog'][n]
        if not f['meas'] or any(u != 1 for _, u in seen) or len(seen) != SHOTS:
            continue
        want = {}
        for a in f['answer']:
            want[tuple(a['res'])] = want.get(tuple(a['res']), 0) + a['n']
        got = {}
        for g, _ in seen:
            got[g] = got.get(g, 0) + 1
        if got != want:
            return f'step {n} (f): over {SHOTS} evenly spaced draws the outcomes come {got} instead of {want}', notes
    return '', notes


def table(rows):
    """is_available against the table of the specification; yields what is wrong."""
    for svc in SERVICE:
        srv = SERVICE[svc](svc)
        b = srv.backend()
        for r in rows[svc]:
            g = gate(r['g'], '0.5')
            nt = 2 if r['g'] in ('Swap', 'SqrtSwap', 'Rxx', 'Ryy', 'Rzz') else 1
            cmd = Command(None, g, tuple([WeakQubitRef(None, k)] for k in range(nt)), controls=[WeakQubitRef(None, 5 + k) for k in range(r['nc'])],
                          control_state='1' * (r['nc'] - 1) + ('0' if r['neg'] else '1') if r['nc'] else '')
            got = bool(b.is_available(cmd))
            if got != r['ok']:
                yield svc, r, got
