"""check.py ID TIER: decide one property on /repo's working tree."""
import gc
import importlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import sys
import time
import traceback

import env

OUT = os.fdopen(os.dup(1), 'w')


def say(*a):
    print(*a, file=OUT, flush=True)


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout('no answer in time')


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.violations = []  # (signature, text, replay data)
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.rng = random.Random(seed)
        self.t0 = time.time()

    # ---- specification side
    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def model(self, module, consts, **kw):
        """Exhaustive TLC run over the specification."""
        import tlc

        res = tlc.check(module, consts, **kw)
        self.cov['states'] += res.states
        self.cov['transitions'] += res.transitions
        self.cov.setdefault('models', []).append({'module': module, 'constants': str(consts), 'distinct_states': res.states,
                                                  'states_generated': res.transitions,
                                                  'invariants': list(kw.get('invariants', ()))})
        return res

    def behaviours(self, module, consts, num, depth=100, invariants=(), seed_off=0, **kw):
        """Random behaviours of the specification."""
        import tlc

        res = tlc.simulate(module, consts, num, depth, self.seed + 100 * seed_off, invariants, **kw)
        self.cov['states'] += res.states
        self.cov['transitions'] += max(0, res.states - len(res))
        self.cov.setdefault('simulations', []).append(
            {'module': module, 'constants': str(consts), 'behaviours': len(res), 'states_visited': res.states,
             'invariants': list(invariants)})
        return res

    # ---- implementation side
    def violation(self, sig, text, replay=None):
        self.violations.append((sig, text, replay))

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if len(self.cov['samples']) < 3:
            self.cov['samples'].append(s)

    def pmap(self, fn, tasks, limit=None, per_task=60, procs=8):
        """fn(task) in forked workers; yields (task index, result).  A crash or hang becomes a violation."""
        tasks = list(tasks)
        limit = limit or (420 if self.quick else 3000)
        procs = max(1, min(procs, len(tasks)))
        kids = {}
        sys.stdout.flush()
        sys.stderr.flush()
        for w in range(procs):
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                self._worker(fn, tasks, range(w, len(tasks), procs), wfd, per_task)
                os._exit(0)
            os.close(wfd)
            kids[rfd] = [pid, b'', None, False]
        deadline = time.time() + limit
        results = []
        while kids:
            ready, _, _ = select.select(list(kids), [], [], max(0.0, min(5.0, deadline - time.time())))
            if not ready and time.time() >= deadline:
                for rfd, (pid, _, cur, _) in kids.items():
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    self.violation('hang', f'no answer within {limit} s (task {cur})', {'task': _plain(tasks[cur]) if cur is not None else None})
                break
            for rfd in ready:
                k = kids[rfd]
                data = os.read(rfd, 1 << 20)
                if not data:
                    os.close(rfd)
                    _, status = os.waitpid(k[0], 0)
                    if not k[3]:
                        self.violation('crash', f'the process died (status {status}) in task {k[2]}',
                                       {'task': _plain(tasks[k[2]]) if k[2] is not None else None})
                    del kids[rfd]
                    continue
                k[1] += data
                while len(k[1]) >= 8:
                    n = struct.unpack('<Q', k[1][:8])[0]
                    if len(k[1]) < 8 + n:
                        break
                    msg = pickle.loads(k[1][8 : 8 + n])
                    k[1] = k[1][8 + n :]
                    if msg[0] == 'start':
                        k[2] = msg[1]
                    elif msg[0] == 'end':
                        k[3] = True
                    elif msg[0] == 'error':
                        raise RuntimeError(f'harness error in task {msg[1]}:\n{msg[2]}')
                    else:
                        results.append((msg[1], msg[2]))
        results.sort(key=lambda x: x[0])
        return results

    def _worker(self, fn, tasks, idx, wfd, per_task):
        def put(m):
            b = pickle.dumps(m)
            b = struct.pack('<Q', len(b)) + b
            while b:
                n = os.write(wfd, b)
                b = b[n:]

        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGALRM, _alarm)
            d = os.path.join(os.getcwd(), f'w{os.getpid()}')
            os.mkdir(d)
            os.chdir(d)
            gc.collect()
            gc.freeze()  # what exists now need not be looked at again
            for i in idx:
                put(('start', i))
                signal.alarm(per_task)
                try:
                    r = fn(tasks[i])
                except Exception:
                    signal.alarm(0)
                    put(('error', i, traceback.format_exc()))
                    return
                signal.alarm(0)
                put(('res', i, r))
            put(('end',))
        finally:
            os._exit(0)

    def run_traces(self, traces, pipes, per=None, tag='trace'):
        """Replay behaviours through the pipelines; per[i] optionally restricts the pipelines of trace i."""
        import pq

        tasks = [(i, t, per(i) if per else pipes) for i, t in enumerate(traces)]
        seed = self.seed

        def one(task):
            i, events, ps = task
            stats, bad, outs = {}, [], []
            for p in ps:
                try:
                    st = pq.run_trace(events, p, seed * 1000003 + i)
                    if 'out' in st:
                        outs.append((p.name, st.pop('out')))
                    for k, v in st.items():
                        stats[k] = stats.get(k, 0) + v
                    stats['runs'] = stats.get('runs', 0) + 1
                except pq.Skip:
                    stats['skipped'] = stats.get('skipped', 0) + 1
                except pq.Mismatch as m:
                    bad.append((p.name, str(m)))
                except Timeout:
                    bad.append((p.name, 'no answer in 60 s'))
            return stats, bad, outs

        streams = []
        for i, (stats, bad, outs) in self.pmap(one, tasks):
            streams.extend((name, i, o) for name, o in outs)
            self.cov['traces_validated_against_impl'] += stats.pop('runs', 0)
            for k, v in stats.items():
                self.count('replay_' + k, v)
            if i == 0:
                self.sample(program_text(traces[0]))
            for name, msg in bad:
                self.violation(f'{name}: {msg}'[:300], f'[{name}] {msg}\n{program_text(traces[i])}',
                               {'kind': tag, 'pipeline': name, 'index': i, 'seed': seed, 'events': traces[i]})
        return streams

    def validate(self, module, traces, label, show=None, **kw):
        """Trace validation by TLC: traces recorded from the implementation must be behaviours of the module."""
        import tlc

        bad, res = tlc.validate(module, traces, **kw)
        self.cov['states'] += res.states
        self.cov['transitions'] += res.transitions
        self.cov['traces_validated_against_impl'] += len(traces)
        self.cov.setdefault('validations', []).append({'module': module, 'traces': len(traces), 'states': res.states, 'left_early': res.left})
        for k, (at, why) in sorted(bad.items()):
            t = traces[k]
            ev = t['ev'][at - 1] if 'ev' in t and at <= len(t['ev']) else None
            self.violation(f'{label(k)}: {module}: {why}: {ev and ev.get("n")}'[:300],
                           f'[{label(k)}] recorded trace is not a behaviour of {module}: event {at} {ev}: {why}\n'
                           + (show(k) if show else ''), {'trace': t, 'at': at, 'why': why})

    def validate_streams(self, streams, programs, module='Delivered'):
        """streams: (pipeline, program index, trace) as returned by run_traces."""
        self.validate(module, [s[2] for s in streams], lambda k: streams[k][0], lambda k: program_text(programs[streams[k][1]]))


def _plain(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return repr(x)[:5000]


def program_text(events):
    """Short human-readable form of a behaviour."""
    out = []
    for e in events:
        a = e['a']
        if a == 'gate':
            g = e['g']['n'] + (str(tuple(e['g']['p'])) if e['g']['p'] else '')
            c = ''.join(f'{"" if s else "!"}{q},' for q, s in zip(e['c'], e['s']))
            out.append(f'{g}[{c and c[:-1] + "->"}{",".join(map(str, e["t"]))}]')
        elif a == 'all':
            out.append(f'All({e["g"]["n"]}{tuple(e["g"]["p"]) or ""}){e["t"]}')
        elif a in ('flush',):
            out.append('flush')
        else:
            out.append(a + str({k: v for k, v in e.items() if k not in ('a', 's', 'w', 'num', 'den', 'nums') or (k == 's' and isinstance(v, list))} or ''))
    return ' ; '.join(out)


def known_findings(prop):
    path = os.path.join(env.VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get('known', []) if k['property'] == prop]


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    home = os.getcwd()
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 1)
    err = os.fdopen(os.dup(2), 'w')
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)
    pid = os.getpid()
    scratch = None
    try:
        scratch = env.setup()
        ctx = Ctx(prop, tier, seed)
        mod = importlib.import_module('checks.' + prop.lower())
        mod.run(ctx)
    except Exception:
        if os.getpid() == pid:
            traceback.print_exc(file=err)
            err.flush()
            say(f'ERROR: check {prop} could not decide (see stderr)')
        os.chdir('/')
        if scratch and os.getpid() == pid:
            shutil.rmtree(scratch, ignore_errors=True)
        os._exit(2)
    known = known_findings(prop)
    seen, fresh = {}, []
    for sig, text, rep in ctx.violations:
        k = next((k for k in known if k['signature'] in sig), None)
        if k is not None:
            seen.setdefault(k['signature'], k)
        else:
            fresh.append((sig, text, rep))
    rdir = os.path.join(env.VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for sig, k in seen.items():
        say(f'KNOWN-FINDING: property={prop} {k["what"]}')
    groups = {}
    for v in fresh:
        groups.setdefault(v[0], []).append(v)
    for n, (sig, vs) in enumerate(sorted(groups.items(), key=lambda x: -len(x[1]))[:8]):
        path = os.path.join(rdir, f'{prop}-{n}.json')
        best = min(vs, key=lambda v: len(v[1]))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': seed, 'signature': sig, 'count': len(vs), 'text': best[1],
                       'replay': _plain(best[2])}, f)
        say(f'VIOLATION property={prop} replay={path}')
        say(f'  {len(vs)}x {best[1][:1500]}')
    cov = {k: v for k, v in ctx.cov.items()}
    ev = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': getattr(mod, 'LEVEL', 'model_checking'),
        'coverage': cov,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
        'assumptions': ctx.assumptions or getattr(mod, 'ASSUMPTIONS', []),
    }
    with open(os.path.join(env.VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    say(f'{prop} {tier}: {"FAILED" if fresh else "held"}; '
        + ', '.join(f'{k}={v}' for k, v in cov.items() if isinstance(v, int)) + f'; {ev["wall_s"]} s')
    os.chdir('/')
    shutil.rmtree(scratch, ignore_errors=True)
    os._exit(1 if fresh else 0)


if __name__ == '__main__':
    main()
