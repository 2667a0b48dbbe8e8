"""Replay of module Lifecycle: qubit handles in registers, and the commands that reach the backend."""
import atexit
import copy
import gc
import os
import pickle
import random
import sys
import weakref

import numpy as np

import pipes
import pq
import record
from pq import Mismatch, Retry, Skip, state_vector
from projectq import MainEngine
from projectq.backends import ClassicalSimulator
from projectq.cengines import AutoReplacer, BasicEngine, LinearMapper, LocalOptimizer, ManualMapper, NotYetMeasuredError
from projectq.meta import Compute, Control, Dagger, DirtyQubitTag, Loop, Uncompute
from projectq.ops import CNOT, All, C, H, Measure, X
from projectq.types import Qureg

GATES = {'X': X, 'H': H}


class DirtyHandler(BasicEngine):
    def is_meta_tag_handler(self, tag):
        return tag == DirtyQubitTag

    def receive(self, command_list):
        self.send(command_list)


class Tap(BasicEngine):
    """Notes the commands that are accepted behind it."""

    def __init__(self, events):
        super().__init__()
        self.events = events

    def receive(self, command_list):
        for cmd in command_list:
            e = record.event(cmd)
            e['d'] = any(isinstance(t, DirtyQubitTag) for t in cmd.tags)
            self.send([cmd])
            self.events.append(e)


class Pipe:
    def __init__(self, name, sim, engines=None, direct=True, dirty=False, states=True, loc=False, classical=False):
        self.name, self.sim, self.engines, self.direct, self.dirty = name, sim, engines, direct, dirty
        self.states, self.loc, self.classical = states, loc, classical


def basis_only(events):
    return not any(e['a'] == 'gate' and e['g'] == 'H' for e in events)


PIPES = {p.name: p for p in (
    Pipe('cpp', pipes.CPP),
    Pipe('py', pipes.PY),
    Pipe('fus', pipes.CPPFUS),
    Pipe('dirty', pipes.CPP, lambda: [DirtyHandler()], dirty=True),
    Pipe('classical', lambda s: ClassicalSimulator(), states=False, classical=True),
    Pipe('opt', pipes.CPP, lambda: [LocalOptimizer(3)], direct=False),
    Pipe('default', pipes.CPP, lambda: None, direct=False),
    Pipe('linear', pipes.CPP, lambda: [LinearMapper(num_qubits=6)], direct=False, loc=True),
    Pipe('manual', pipes.CPP, lambda: [LocalOptimizer(2), ManualMapper(lambda i: 3 * i + 1)], direct=False),
)}


class Run:
    def __init__(self, pipe, rng, seed):
        self.pipe, self.rng = pipe, rng
        self.sim = pipe.sim(seed)
        self.events = []  # and no reference to the engine that fills it
        engines = pipe.engines() if pipe.engines else []
        if engines is None:
            import projectq.setups.default

            engines = projectq.setups.default.get_engine_list()
        engines = [Tap(self.events)] + engines if pipe.direct else engines + [Tap(self.events)]
        self.eng = MainEngine(self.sim, engines)
        self.v = {}
        self.seen = 0
        self.names = {}
        self.observed = 0
        self.raised = []

    # ---- registers
    def same(self, r):
        k = self.rng.randrange(6)
        return [lambda: Qureg(r), lambda: list(r), lambda: r[:], lambda: copy.copy(r), lambda: copy.deepcopy(r), lambda: r + []][k]()

    def alloc(self, k, dirty):
        if dirty:
            r = Qureg()
            for _ in range(k):
                r += self.eng.allocate_qubit(dirty=True)
            return r
        if k == 1 and self.rng.random() < 0.6:
            return self.eng.allocate_qubit()
        return self.eng.allocate_qureg(k)

    def step(self, e):
        a = e['a']
        v = self.v
        x = e.get('x')
        if a == 'new':
            v[x] = self.alloc(e['k'], e['dirty'])
        elif a == 'copy':
            v[x] = self.same(v[e['y']])
        elif a == 'concat':
            if e['x'] == e['y'] and self.rng.random() < 0.5:
                v[x] += v[e['z']]
            else:
                v[x] = v[e['y']] + v[e['z']]
        elif a == 'slice':
            v[x] = v[e['y']][e['i'] - 1 : e['j']]
        elif a == 'del':
            del v[x]
        elif a == 'delitem':
            if self.rng.random() < 0.5:
                del v[x][e['i'] - 1]
            else:
                v[x].pop(e['i'] - 1)
        elif a == 'gate':
            self.use(GATES[e['g']], v[x][e['i'] - 1])
        elif a == 'cx':
            c, t = v[x][e['i'] - 1], v[e['y']][e['j'] - 1]
            k = self.rng.randrange(3)
            if k == 0:
                CNOT | (c, t)
            elif k == 1:
                C(X) | ([c], [t])
            else:
                with Control(self.eng, c):
                    X | t
        elif a == 'measure':
            self.use(Measure, v[x][e['i'] - 1])
            if not e['err']:
                if not self.pipe.direct:
                    self.eng.flush()
                r = int(v[x][e['i'] - 1])
                if r != e['r']:
                    if e['det'] != 2:
                        raise Mismatch(f'measuring a qubit in state {e["det"]} gave {r}')
                    raise Retry()
        elif a == 'read':
            self.eng.flush()
            q = v[x][e['i'] - 1]
            r = bool(q) if self.rng.random() < 0.5 else int(q)
            if r != e['r']:
                raise Mismatch(f'a qubit last measured as {e["r"]} reads {r}')
        elif a == 'release':
            if e['how'] == 'handle':
                v[x][e['i'] - 1].__del__()
            else:
                self.eng.deallocate_qubit(v[x][e['i'] - 1])
        elif a == 'flush':
            self.eng.flush()
            if self.pipe.states:
                self.compare(e['s'])
        elif a == 'flushall':
            self.eng.flush(deallocate_qubits=True)
            for r in v.values():
                if any(q.id != -1 for q in r):
                    raise Mismatch('a handle is still valid after flush(deallocate_qubits=True)')
        elif a == 'work':
            self.work(e)
        else:
            raise KeyError(a)

    def use(self, gate, q):
        k = self.rng.randrange(4)
        if k == 0:
            gate | q
        elif k == 1:
            gate | (q,)
        elif k == 2 or gate is H:
            gate | [q]
        else:
            All(gate) | [q]

    def work(self, e):
        q = self.v[e['x']][e['i'] - 1]

        def body():
            a = self.eng.allocate_qubit()
            CNOT | (q, a)
            CNOT | (q, a)

        if e['kind'] == 'loop':
            with Loop(self.eng, e['k']):
                body()
        elif e['kind'] == 'dagger':
            with Dagger(self.eng):
                body()
        elif e['kind'] == 'compute':
            with Compute(self.eng):
                a = self.eng.allocate_qubit()
                CNOT | (q, a)
            Uncompute(self.eng)
            if a[0].id != -1:
                raise Mismatch('the qubit of the compute section is still valid')
        else:
            body()

    # ---- comparison
    def commands(self, e):
        """The new commands are those of the event."""
        got = self.events[self.seen :]
        self.seen += len(got)
        if e['err'] and e['a'] == 'end':
            return
        if e['err'] and e['a'] in ('new', 'copy', 'concat', 'slice', 'del', 'delitem', 'flushall', 'end', 'release') and e['out']:
            return
        i = 0
        for g in e['out']:
            part = got[i : i + len(g)]
            i += len(g)
            if len(part) < len(g):
                raise Mismatch(f'{e["a"]}: expected {len(g)} more commands {[(w["o"], w["t"]) for w in g]}, got {show(got)}')
            left = list(part)
            for w in g:
                for p in left:
                    if self.match(w, p):
                        left.remove(p)
                        break
                else:
                    raise Mismatch(f'{e["a"]}: expected {w["o"]} {w["g"]} on {w["t"]}{w["c"]} (dirty {w["d"]}), got {show(got)}')
        if len(got) != i:
            raise Mismatch(f'{e["a"]}: unexpected commands {show(got[i:])}')
        self.observed += 1

    def match(self, w, p):
        if w['o'] != p['o']:
            return False
        if w['o'] == 'f':
            return True
        if w['o'] == 'a':
            if len(p['t']) != 1 or p['c'] or p['t'][0] in self.names.values():
                return False
            if p['d'] != (w['d'] and self.pipe.dirty):
                return False
            self.names[w['t'][0]] = p['t'][0]
            return True
        if [self.names[k] for k in w['t']] != p['t'] or [self.names[k] for k in w['c']] != p['c']:
            return False
        if w['o'] == 'g':
            return p['n'] == w['g'] and all(p['s'])
        return w['o'] != 'd' or p['d'] == (w['d'] and self.pipe.dirty)

    def compare(self, s):
        ids, want = state_vector(s)
        want = want / np.linalg.norm(want)
        mp, vec = self.sim.cheat()
        if not self.pipe.direct:
            if len(mp) < len(ids):
                raise Mismatch(f'the simulator holds {len(mp)} qubits, the program {len(ids)}')
            return
        if len(mp) != len(ids):
            raise Mismatch(f'the simulator holds {len(mp)} qubits, the program {len(ids)}')
        n = len(ids)
        try:
            pos = [mp[self.names[q]] for q in ids]
        except KeyError as k:
            raise Mismatch(f'the simulator does not know qubit {k}') from None
        got = np.asarray(vec)
        if n:
            got = np.transpose(got.reshape([2] * n), [n - 1 - pos[n - 1 - a] for a in range(n)]).reshape(-1)
        if not np.max(np.abs(want - got)) < 1e-7:
            raise Mismatch(f'wavefunction differs: expected {np.round(want, 5)}, got {np.round(got, 5)}')
        self.observed += 1

    # ---- the end of the program
    def end(self, e):
        how = self.rng.random()
        if e['err']:
            self.eng.__del__()
            return
        if how < 0.85:
            self.eng.__del__()
            for r in self.v.values():
                if any(q.id != -1 for q in r):
                    raise Mismatch('a handle is still valid after the engine was destroyed')
        elif how < 0.95:
            # all references are dropped, in either order
            self.sim = None
            if self.rng.random() < 0.5:
                self.v.clear()
                self.eng = None
            else:
                self.eng = None
                self.v.clear()
            gc.collect()
        else:
            self.exit()

    def exit(self):
        """The interpreter ends: in a child, which reports the commands it sent then."""
        rfd, wfd = os.pipe()
        n = len(self.events)
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                atexit._run_exitfuncs()
                os.write(wfd, pickle.dumps(self.events[n:]))
            finally:
                os._exit(0)
        os.close(wfd)
        data = b''
        while True:
            b = os.read(rfd, 1 << 16)
            if not b:
                break
            data += b
        os.close(rfd)
        os.waitpid(pid, 0)
        if not data:
            raise Mismatch('the program did not end properly')
        self.events.extend(pickle.loads(data))
        self.close()

    def close(self):
        if self.eng is not None:
            self.eng.active_qubits.clear()
            self.eng.deallocate_qubit = lambda q: None
            self.eng.flush = lambda *a, **k: None
        for r in self.v.values():
            for q in r:
                q.id = -1
        self.v.clear()
        self.eng = None


def show(events):
    return [(p['o'], p['n'], p['t'], p['c'], p['d']) for p in events[:8]]


REFUSED = {'read': NotYetMeasuredError}


def run(events, pipe, seed, tries=40):
    """Statistics, or Mismatch.  Buffering pipelines return the stream the backend saw."""
    if pipe.classical and not basis_only(events):
        raise Skip()
    if not pipe.direct and any(e['err'] and not (e['a'] == 'read' or e.get('why') == 'twice') for e in events):
        raise Skip()
    unraisable = []
    sys.unraisablehook = lambda u: unraisable.append(f'{type(u.exc_value).__name__}: {str(u.exc_value)[:200]}')
    for k in range(tries):
        rng = random.Random(seed)
        r = Run(pipe, rng, seed % 65537 * 64 + k)
        try:
            for e in events:
                del unraisable[:]
                try:
                    (r.end if e['a'] == 'end' else r.step)(e)
                    got = unraisable[0] if unraisable else ''
                except (Mismatch, Retry):
                    raise
                except Exception as exc:
                    got = f'{type(exc).__name__}: {str(exc)[:200]}'
                    if e['err'] and e['a'] in REFUSED and not isinstance(exc, REFUSED[e['a']]):
                        raise Mismatch(f'{e["a"]} was refused with {got}') from None
                    if e['err'] and e.get('why') == 'twice' and not isinstance(exc, ValueError):
                        raise Mismatch(f'releasing twice was refused with {got}') from None
                if got:
                    gc.collect()  # the error refers to the frames it went through, and they to the qubits
                if bool(got) != e['err']:
                    raise Mismatch(f'{describe(e)} ' + (f'failed: {got}' if got else 'was accepted, but must be refused'))
                if pipe.direct:
                    r.commands(e)
                    r.observed += bool(e['err'])
        except Retry:
            r.close()
            continue
        except BaseException:
            r.close()
            raise
        notes = r.events
        r.close()
        if unraisable and not events[-1]['err']:
            raise Mismatch('error while qubits were released: ' + unraisable[0])
        out = None if pipe.direct else record.delivered(notes, loc=pipe.loc)
        return {'observations': r.observed, 'tries': k + 1, 'events': len(events)}, out
    return {'unrealised': 1}, None


def describe(e):
    return e['a'] + str({k: x for k, x in e.items() if k not in ('a', 'out', 'err', 's')})


def text(events):
    return ' ; '.join(describe(e) + ('!' if e['err'] else '') for e in events)


def run_all(ctx, traces, names):
    """Replay, and validate the streams of the buffering pipelines."""
    seed = ctx.seed

    def one(task):
        i, events = task
        stats, bad, outs = {}, [], []
        for n in names:
            try:
                st, out = run(events, PIPES[n], seed * 1000003 + i)
                for k, v in st.items():
                    stats[k] = stats.get(k, 0) + v
                stats['runs'] = stats.get('runs', 0) + 1
                if out is not None:
                    outs.append((n, out))
            except Skip:
                stats['skipped'] = stats.get('skipped', 0) + 1
            except Mismatch as m:
                bad.append((n, str(m)))
        return stats, bad, outs

    streams = []
    for i, (stats, bad, outs) in ctx.pmap(one, list(enumerate(traces))):
        ctx.cov['traces_validated_against_impl'] += stats.pop('runs', 0)
        for k, v in stats.items():
            ctx.count('replay_' + k, v)
        streams.extend((n, i, o) for n, o in outs)
        if i == 0:
            ctx.sample(text(traces[0]))
        for n, msg in bad:
            ctx.violation(f'{n}: {msg}'[:300], f'[{n}] {msg}\n{text(traces[i])}',
                          {'kind': 'lifecycle', 'pipeline': n, 'index': i, 'seed': seed, 'events': traces[i]})
    if streams:
        ctx.validate('Delivered', [s[2] for s in streams], lambda k: streams[k][0], lambda k: text(traces[streams[k][1]]))
