"""Remote jobs: the clients of the five services against a server scripted by module Jobs."""
import contextlib
import copy
import io
import json
import random
import signal
import time
from unittest import mock
from urllib.parse import parse_qs, urlparse

import boto3
import botocore.exceptions
import requests
from projectq.backends._aqt import _aqt_http_client as aqt
from projectq.backends._awsbraket import _awsbraket_boto3_client as aws
from projectq.backends._azure import _azure_quantum_client as azure
from projectq.backends._exceptions import (
    DeviceOfflineError,
    DeviceTooSmall,
    JobSubmissionError,
    RequestTimeoutError,
)
from projectq.backends._ibm import _ibm_http_client as ibm
from projectq.backends._ionq import _ionq_http_client as ionq

CLIENT = {'ibm': ibm, 'aqt': aqt, 'ionq': ionq, 'aws': aws, 'azure': azure}


class Overrun(BaseException):
    """The client did something the protocol does not allow; no client catches this."""


class Server:
    """What is common: the script, the job and what is checked on every request."""

    def __init__(self, svc, beh, rng):
        self.svc, self.beh, self.rng = svc, beh, rng
        self.job = beh['job']
        self.script = [s for s in beh['script'] if s[0] != 'ack']
        self.at = 0
        self.token = f'tok{rng.randrange(10**6)}'
        self.jobid = f'j{rng.randrange(10**9):x}-0'
        self.device = {'ibm': 'ibmq_good', 'aqt': rng.choice(['aqt_simulator', 'aqt_device']), 'ionq': 'aria', 'aws': 'Aspen-8'}.get(svc)
        self.nq = {'aqt_simulator': 11, 'aqt_device': 4}.get(self.device, rng.randrange(1, 9))
        self.submitted = 0
        self.sleeps = []

    def next(self, kind):
        if self.at >= len(self.script):
            raise Overrun(f'request "{kind}" after the end')
        want, answer = self.script[self.at]
        if kind == 'devices' and want != 'devices':
            return 'there'  # looked up once more
        if want != kind:
            raise Overrun(f'request "{kind}" where "{want}" comes next')
        self.at += 1
        return answer

    def sleep(self, seconds):
        self.sleeps.append(seconds)
        if len(self.sleeps) > 200:
            raise Overrun('waits without end')
        if self.at < len(self.script) and self.script[self.at][0] == 'sleep':
            if self.next('sleep') == 'interrupt':
                signal.raise_signal(signal.SIGINT)
                raise Overrun('the interrupt was ignored')

    def done(self):
        return self.at == len(self.script) or self.script[self.at][0] == 'devices'

    def must(self, cond, text):
        if not cond:
            raise Overrun(text)


# ------------------------------------------------------------------ the HTTP services
def response(req, code=200, body=b'{}'):
    r = requests.Response()
    r.status_code = code
    r._content = body if isinstance(body, bytes) else json.dumps(body).encode()
    r.request = req
    r.url = req.url
    r.headers['Content-Type'] = 'application/json'
    return r


class Http(Server):
    def send(self, session, req, **kw):
        url = urlparse(req.url)
        kind = self.kind(req, url)
        self.must(kind, f'unknown request {req.method} {req.url}')
        if kind == 'ack':
            return response(req)
        a = self.next(kind)
        if a == 'conn':
            raise requests.exceptions.ConnectionError('no route')
        if a.startswith('http'):
            body = {'error': 'Oh', 'message': 'no'}
            return response(req, int(a[4:]), body)
        if a == 'garbage':
            return response(req, 200, b'<html>')
        if a == 'missing':
            return response(req, 200, [{}] if kind == 'devices' else {})
        if kind in ('submit', 'create'):
            self.submitted += 1
        return response(req, 200, self.answer(kind, a, req))


class Ibm(Http):
    BASE = '/api/Network/ibm-q/Groups/open/Projects/main/'

    def info(self):
        n = self.nq + (self.job['dev'] == 'small')
        self.circuit = [{'name': 'u3', 'params': [0.25, 0, 1.5], 'qubits': [self.rng.randrange(n)]} for _ in range(3)]
        return {'json': self.circuit, 'nq': n, 'shots': self.rng.randrange(1, 2000), 'maxCredits': 10,
                'backend': {'name': self.device}}

    def kind(self, req, url):
        q = parse_qs(url.query)
        if url.netloc.startswith('auth.'):
            self.must(json.loads(req.body) == {'apiToken': self.token}, 'authenticates with another token')
            return 'auth'
        if url.netloc == 'store':
            self.must('access_token' not in q, 'sends the token to the storage')
            return {'/up': 'upload', '/down': 'download'}[url.path] if (req.method, url.path) in (('PUT', '/up'), ('GET', '/down')) else None
        self.must(q.get('access_token') == ['access-' + self.token], 'does not use its access token')
        p = url.path[len(self.BASE):]
        one = 'Jobs/' + self.jobid
        return {('GET', 'devices/v/1'): 'devices', ('POST', 'Jobs'): 'create', ('POST', one + '/jobDataUploaded'): 'confirm', ('GET', one): 'poll',
                ('GET', one + '/resultDownloadUrl'): 'url', ('POST', one + '/resultDownloaded'): 'ack'}.get((req.method, p))

    def answer(self, kind, a, req):
        if kind == 'auth':
            return {'id': 'access-' + self.token}
        if kind == 'devices':
            there = [{'backend_name': self.device, 'n_qubits': self.nq, 'coupling_map': [[0, 1]], 'backend_version': '1.2'}]
            return [{'backend_name': 'other', 'n_qubits': 99, 'coupling_map': None, 'backend_version': '0'}] + (there if a == 'there' else [])
        if kind == 'create':
            self.must(json.loads(req.body)['backend']['name'] == self.device, 'submits to another device')
            return {'id': self.jobid, 'objectStorageInfo': {'uploadUrl': 'https://store/up'}}
        if kind == 'upload':
            d = json.loads(req.body)
            i = self.sent
            self.must(d['experiments'][0]['instructions'] == self.circuit, 'uploads another circuit')
            self.must(d['config']['shots'] == i['shots'] and d['config']['n_qubits'] == i['nq'], 'uploads other numbers of shots or qubits')
            self.must(d['header']['backend_name'] == self.device, 'uploads for another device')
            return {}
        if kind == 'confirm':
            return {}
        if kind == 'poll':
            return {'status': a, 'id': self.jobid}
        if kind == 'url':
            return {'url': 'https://store/down'}
        self.result = {'data': {'counts': {hex(self.rng.randrange(2**self.nq)): self.rng.randrange(1, 99) for _ in range(3)}}, 'x': self.jobid}
        return {'results': [self.result, {'data': 'second'}]}

    def call(self):
        kw = dict(device=self.device if self.job['dev'] != 'unknown' else 'ibmq_gone', token=self.token, num_retries=self.job['retries'], interval=7)
        if self.job['op'] == 'retrieve':
            return ibm.retrieve(jobid=self.jobid, **kw)
        return ibm.send(self.sent, **kw)


class Aqt(Http):
    def info(self):
        n = self.nq + (self.job['dev'] == 'small')
        self.circuit = json.dumps([['X', 0.5, [self.rng.randrange(n)]] for _ in range(3)])
        return {'circuit': self.circuit, 'nq': n, 'shots': self.rng.randrange(1, 200), 'backend': {'name': self.device}}

    def kind(self, req, url):
        d = parse_qs(req.body)
        self.must(req.method == 'PUT' and url.path == {'aqt_simulator': '/marmot/sim/', 'aqt_device': '/marmot/lint/'}[self.device], f'talks to {url.path}')
        self.must(d.get('access_token') == [self.token], 'does not send its token')
        if 'id' in d:
            self.must(d['id'] == [self.jobid] and 'data' not in d, f'asks for job {d["id"]}')
            return 'poll'
        self.must(d['data'] == [self.circuit] and d['repetitions'] == [str(self.sent['shots'])] and d['no_qubits'] == [str(self.sent['nq'])],
                  'submits another job')
        return 'submit'

    def answer(self, kind, a, req):
        if kind == 'submit':
            return {'status': a, 'id': self.jobid}
        res = {'status': 'running' if a == 'samples' else a, 'id': self.jobid}
        if a in ('finished', 'samples'):
            self.result = res['samples'] = [self.rng.randrange(2**self.nq) for _ in range(5)]
            res['status'] = 'finished'
        return res

    def call(self):
        kw = dict(device=self.device if self.job['dev'] != 'unknown' else 'aqt_gone', token=self.token, num_retries=self.job['retries'], interval=7)
        if self.job['op'] == 'retrieve':
            return aqt.retrieve(jobid=self.jobid, **kw)
        return aqt.send(self.sent, **kw)


class IonQ(Http):
    def info(self):
        n = self.nq + (self.job['dev'] == 'small')
        self.circuit = [{'gate': 'x', 'targets': [self.rng.randrange(n)]} for _ in range(3)]
        self.ids = [self.rng.randrange(50) for _ in range(n)]
        return {'circuit': self.circuit, 'nq': n, 'shots': self.rng.randrange(1, 200), 'meas_mapped': list(range(n))[::-1], 'meas_qubit_ids': self.ids}

    def kind(self, req, url):
        self.must(req.headers.get('Authorization') == 'apiKey ' + self.token, 'does not send its token')
        return {('GET', '/v0.2/backends'): 'devices', ('POST', '/v0.2/jobs'): 'submit', ('GET', '/v0.2/jobs/' + self.jobid): 'poll'}.get((req.method, url.path))

    def answer(self, kind, a, req):
        if kind == 'devices':
            return [{'backend': 'qpu', 'qubits': 3}] + ([{'backend': 'aria', 'qubits': self.nq}] if a == 'there' else [])
        if kind == 'submit':
            d = json.loads(req.body)
            i = self.sent
            self.must(d['target'] == 'aria' and d['shots'] == i['shots'] and d['body'] == {'qubits': i['nq'], 'circuit': self.circuit}
                      and d['registers'] == {'meas_mapped': i['meas_mapped']} and json.loads(d['metadata']['meas_qubit_ids']) == self.ids,
                      'submits another job')
            self.failure = a != 'ready' and self.rng.randrange(2) == 0
            return {'id': self.jobid, 'status': a, **({'failure': {'code': 'Bad', 'error': 'so bad'}} if self.failure else {})}
        res = {'id': self.jobid, 'status': a}
        if a == 'completed':
            m, ids = [2, 0, 1], [7, 5, 9]
            probs = {str(k): p for k, p in ((0, 0.25), (5, 0.5), (6, 0.25))}
            self.result = {'nq': self.nq, 'output_probs': probs, 'meas_mapped': m, 'meas_qubit_ids': ids}
            res.update(qubits=self.nq, registers={'meas_mapped': m}, metadata={'meas_qubit_ids': json.dumps(ids)},
                       data={'registers': {'meas_mapped': probs}})
        return res

    def call(self):
        kw = dict(device='aria' if self.job['dev'] != 'unknown' else 'gone', token=self.token, num_retries=self.job['retries'], interval=7)
        if self.job['op'] == 'retrieve':
            return ionq.retrieve(jobid=self.jobid, **kw)
        return ionq.send(self.sent, **kw)


# ------------------------------------------------------------------ AWS
CAP = {'paradigm': {'connectivity': {'connectivityGraph': {}}}, 'braketSchemaHeader': {'version': '1'},
       'deviceParameters': {'properties': {'braketSchemaHeader': {'const': {'name': 'n', 'version': '1'}}},
                            'definitions': {'GateModelParameters': {'properties': {'braketSchemaHeader': {'const': {'name': 'm', 'version': '1'}}}}}}}


class AwsClient:
    def __init__(self, srv, service, region):
        self.srv, self.service, self.region = srv, service, region

    def _answer(self, kind):
        a = self.srv.next(kind)
        if a == 'denied':
            raise botocore.exceptions.ClientError({'Error': {'Code': self.srv.rng.choice(['AccessDeniedException', 'ValidationException']), 'Message': 'no'}}, kind)
        if a == 'conn':
            raise botocore.exceptions.EndpointConnectionError(endpoint_url='x')
        return a

    def search_devices(self, filters):
        s = self.srv
        if self.region == 'us-west-1':
            if self._answer('devices') == 'missing':
                return {}
        return {'devices': [{'deviceName': s.device if self.region == 'us-west-1' else 'SV1', 'deviceArn': 'arn:dev:' + self.region,
                             'deviceType': 'QPU' if self.region == 'us-west-1' else 'SIMULATOR', 'deviceStatus': 'ONLINE', 'providerName': 'p'},
                            {'deviceName': 'annealer', 'deviceArn': 'arn:x', 'deviceType': 'OTHER', 'deviceStatus': 'ONLINE', 'providerName': 'p'}]}

    def get_device(self, deviceArn):
        s = self.srv
        if s.polled:
            s.must(deviceArn == 'arn:dev:us-west-1', 'asks for another device')
            a = self._answer('kind')
            s.simulator = a == 'SIMULATOR'
            return {} if a == 'missing' else {'deviceType': a}
        cap = copy.deepcopy(CAP)
        cap['paradigm']['qubitCount'] = s.nq if deviceArn == 'arn:dev:us-west-1' else 34
        return {'deviceCapabilities': json.dumps(cap)}

    def create_quantum_task(self, action, deviceArn, deviceParameters, outputS3Bucket, outputS3KeyPrefix, shots):
        s = self.srv
        a = self._answer('submit')
        s.must(action == s.circuit and deviceArn == 'arn:dev:us-west-1' and shots == s.sent['shots'] and self.region == 'us-west-1'
               and (outputS3Bucket, outputS3KeyPrefix) == tuple(s.folder), 'submits another job')
        s.must(json.loads(deviceParameters)['paradigmParameters']['qubitCount'] == s.sent['nq'], 'submits another number of qubits')
        if a == 'missing':
            return {}
        s.submitted += 1
        return {'quantumTaskArn': s.jobid}

    def get_quantum_task(self, quantumTaskArn):
        s = self.srv
        s.must(quantumTaskArn == s.jobid, f'asks for task {quantumTaskArn}')
        s.must(self.region == 'us-west-1', f'asks in region {self.region}')
        a = self._answer('poll')
        s.polled = True
        if a == 'missing':
            return {}
        return {'quantumTaskArn': s.jobid, 'status': a, 'outputS3Bucket': 'bucket', 'outputS3Directory': 'dir/' + s.jobid[-5:], 'failureReason': 'because',
                'deviceArn': 'arn:dev:us-west-1'}

    def get_object(self, Bucket, Key):
        s = self.srv
        a = self._answer('download')
        s.must(self.service == 's3' and Bucket == 'bucket' and Key == f'dir/{s.jobid[-5:]}/results.json', f'downloads {Bucket} {Key}')
        if a == 'missing':
            body = {}
        elif s.simulator:
            n, shots = s.rng.randrange(1, 4), s.rng.choice([1, 4, 8])
            rows = [[s.rng.randrange(2) for _ in range(n)] for _ in range(shots)]
            keys = [''.join(map(str, r)) for r in rows]
            s.result = {k: keys.count(k) / shots for k in keys}
            body = {'measurements': rows, 'measuredQubits': list(range(n)), 'measurementProbabilities': None}
        else:
            s.result = {format(k, '03b'): s.rng.randrange(1, 9) / 8 for k in range(3)}
            body = {'measurementProbabilities': s.result, 'measurements': None}
        return {'Body': io.BytesIO(json.dumps(body).encode())}


class Aws(Server):
    def __init__(self, *a):
        super().__init__(*a)
        self.polled = False
        self.jobid = f'arn:aws:braket:us-west-1:123:quantum-task/{self.jobid}'
        self.folder = ['S3' + self.token, 'dir']

    def info(self):
        n = self.nq + (self.job['dev'] == 'small')
        self.circuit = json.dumps({'instructions': [{'type': 'x', 'target': self.rng.randrange(n)}]})
        return {'circuit': self.circuit, 'nq': n, 'shots': self.rng.randrange(1, 200), 'backend': {'name': self.device}}

    def client(self, service, region_name=None, aws_access_key_id=None, aws_secret_access_key=None, **kw):
        self.must((aws_access_key_id, aws_secret_access_key) == ('id' + self.token, 'key' + self.token), 'uses other credentials')
        return AwsClient(self, service, region_name)

    def call(self):
        cred = {'AWS_ACCESS_KEY_ID': 'id' + self.token, 'AWS_SECRET_KEY': 'key' + self.token}
        kw = dict(credentials=cred, num_retries=self.job['retries'], interval=7)
        if self.job['op'] == 'retrieve':
            return aws.retrieve(task_arn=self.jobid, **kw)
        return aws.send(self.sent, device=self.device if self.job['dev'] != 'unknown' else 'gone', s3_folder=self.folder, **kw)


# ------------------------------------------------------------------ Azure
class AzureJob:
    def __init__(self, srv):
        self.srv, self.id = srv, srv.jobid

    def get_results(self, timeout_secs=None):
        s = self.srv
        a = s.next('poll')
        s.must(timeout_secs == s.job['retries'] * 7, f'waits {timeout_secs} s')
        if a == 'late':
            raise TimeoutError('late')
        if a == 'error':
            raise RuntimeError('the job failed')
        s.result = {'histogram': {'0': 0.5, '7': 0.5}, 'id': s.jobid}
        return s.result


class Azure(Server):
    @property
    def current_availability(self):
        return 'Available' if self.job['dev'] != 'unknown' else self.rng.choice(['Degraded', 'Unavailable', 'Deleted'])

    @property
    def workspace(self):
        return self

    def info(self):
        self.circuit = {'circuit': [{'gate': 'h'}], 'qubits': self.nq}
        self.shots = self.rng.randrange(1, 99)
        return self.circuit

    def submit(self, circuit=None, num_shots=None, **kw):
        a = self.next('submit')
        self.must(circuit == self.circuit and num_shots == self.shots and kw == {'name': 'n'}, 'submits another job')
        if a == 'conn':
            raise OSError('no route')
        self.submitted += 1
        return AzureJob(self)

    def get_job(self, job_id):
        a = self.next('getjob')
        self.must(job_id == self.jobid, 'asks for another job')
        if a == 'conn':
            raise OSError('no route')
        return AzureJob(self)

    def call(self):
        kw = dict(target=self, num_retries=self.job['retries'], interval=7)
        if self.job['op'] == 'retrieve':
            return azure.retrieve(job_id=self.jobid, **kw)
        return azure.send(self.sent, self.shots, name='n', **kw)


SERVER = {'ibm': Ibm, 'aqt': Aqt, 'ionq': IonQ, 'aws': Aws, 'azure': Azure}


# ------------------------------------------------------------------ one behaviour
def replay(beh, seed):
    """Returns what is wrong, or ''."""
    svc = beh['job']['s']
    srv = SERVER[svc](svc, beh, random.Random(seed))
    srv.sent = srv.info()
    before = copy.deepcopy(srv.sent)

    def mine(*_):
        raise Overrun('the interrupt went to the handler of the user')

    old = signal.signal(signal.SIGINT, mine)
    value = exc = None
    try:
        with contextlib.ExitStack() as st:
            st.enter_context(contextlib.redirect_stdout(io.StringIO()))
            st.enter_context(mock.patch.object(time, 'sleep', srv.sleep))
            st.enter_context(mock.patch('getpass.getpass', side_effect=Overrun('asks for a token')))
            if isinstance(srv, Http):
                st.enter_context(mock.patch.object(requests.adapters.HTTPAdapter, 'send', lambda s, req, **kw: srv.send(s, req, **kw)))
            if svc == 'aws':
                st.enter_context(mock.patch.object(boto3, 'client', srv.client))
            try:
                value = srv.call()
            except Overrun as err:
                return str(err)
            except BaseException as err:
                exc = err
        if signal.getsignal(signal.SIGINT) is not mine:
            return 'the handler of SIGINT is not the one before the call'
    finally:
        signal.signal(signal.SIGINT, old)
    if srv.sent != before:
        return 'the description of the job was changed'
    if any(x != 7 for x in srv.sleeps):
        return f'waits {srv.sleeps} s instead of the interval'
    return verdict(beh, srv, value, exc)


def verdict(beh, srv, value, exc):
    want, svc, op = beh['outcome'], beh['job']['s'], beh['job']['op']
    got = f'returned {str(value)[:120]}' if exc is None else f'raised {type(exc).__name__}: {str(exc)[:120]}'
    if not srv.done():
        return f'{got} although the server still had {srv.script[srv.at:]} to answer'
    if want == 'result':
        return '' if exc is None and value == srv.result else f'{got} instead of the result {srv.result}'
    if want == 'failed':
        if exc is None and not (value is None and op == 'send' and svc in ('ibm', 'aqt', 'ionq')):
            return f'{got} instead of an error'
        return ''
    kinds = {'offline': DeviceOfflineError, 'too small': DeviceTooSmall, 'rejected': JobSubmissionError, 'unauthorised': requests.HTTPError,
             'timeout': Exception if svc == 'ibm' else RequestTimeoutError, 'interrupted': Exception}
    if not isinstance(exc, kinds[want]):
        return f'{got} instead of an error of kind {want}'
    if (want in ('timeout', 'interrupted') or (want == 'offline' and beh['job']['dev'] == 'good')) and srv.jobid not in str(exc):
        return f'{got}: does not name the job {srv.jobid}'
    if want == 'timeout' and svc == 'ibm' and 'imeout' not in str(exc):
        return f'{got} instead of a timeout'
    if want == 'rejected' and getattr(srv, 'failure', False) and 'so bad' not in str(exc):
        return f'{got}: does not say why'
    return ''
