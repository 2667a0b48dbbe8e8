"""Run TLC: generate behaviours, or check invariants exhaustively."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from env import SPEC

JAR = '/opt/veriftools/tla/tla2tools.jar'
NCPU = min(8, os.cpu_count() or 1)


class TLCError(Exception):
    pass


def _cfg(consts, init, nxt, invariants=(), constraint=None, properties=(), extra=''):
    out = ''
    if consts:
        out += 'CONSTANTS\n'
        for k, v in consts.items():
            out += f'  {k} = {fmt(v)}\n'
    out += f'INIT {init}\nNEXT {nxt}\nCHECK_DEADLOCK FALSE\n'
    if invariants:
        out += 'INVARIANTS ' + ' '.join(invariants) + '\n'
    if properties:
        out += 'PROPERTIES ' + ' '.join(properties) + '\n'
    if constraint:
        out += f'CONSTRAINT {constraint}\n'
    return out + extra


def fmt(v):
    """A Python value as TLA+ configuration value."""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(fmt(x) for x in sorted(v)) + '}'
    return str(v)


def _run(module, cfg, args, timeout, workers='1', heap='1200m', files=None):
    """Returns the output lines.  Runs in its own copy of the specification."""
    work = tempfile.mkdtemp(prefix='tlc-')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), work)
        with open(os.path.join(work, 'M.cfg'), 'w') as f:
            f.write(cfg)
        for name, text in (files or {}).items():
            with open(os.path.join(work, name), 'w') as f:
                f.write(text)
        cp = JAR
        for extra in os.listdir(os.path.dirname(JAR)):
            if extra.endswith('.jar') and extra != os.path.basename(JAR):
                cp += ':' + os.path.join(os.path.dirname(JAR), extra)
        cmd = ['java', f'-Xmx{heap}', '-XX:+UseSerialGC', '-Xss16m', '-XX:TieredStopAtLevel=4', '-cp', cp, 'tlc2.TLC']
        cmd += ['-config', 'M.cfg', '-metadir', os.path.join(work, 'md'), '-workers', workers, '-noGenerateSpecTE']
        cmd += list(args) + [module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=work, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            raise TLCError(f'TLC timed out after {timeout} s on {module}') from e
        return p.returncode, p.stdout.splitlines(), p.stderr
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _parse(lines):
    res = []
    for ln in lines:
        if ln.startswith('"'):
            try:
                res.append(json.loads(json.loads(ln)))
            except ValueError:
                pass
    return res


def _fail(lines, err):
    i = next((k for k, ln in enumerate(lines) if ln.startswith('Error')), max(0, len(lines) - 20))
    raise TLCError('\n'.join(lines[i : i + 40]) + err)


def _stats(lines):
    st = {'states': 0, 'transitions': 0}
    for ln in lines:
        m = re.search(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', ln)
        if m:
            st = {
                'transitions': int(m.group(1).replace(',', '')),
                'states': int(m.group(2).replace(',', '')),
            }
        m = re.search(r'The number of states generated: (\d+)', ln)
        if m:
            st = {'transitions': int(m.group(1)), 'states': int(m.group(1))}
    return st


class Result(list):
    """Behaviours with the statistics of the TLC runs."""

    states = 0
    transitions = 0
    left = 0        # traces that were not followed to the end


def simulate(module, consts, num, depth, seed, invariants=(), init='GInit', nxt='GNext', procs=NCPU, timeout=600):
    """num random behaviours, generated by several TLC processes with seeds derived from seed."""
    procs = max(1, min(procs, num))
    per = (num + procs - 1) // procs
    cfg = _cfg(consts, init, nxt, invariants)

    def one(i):
        rc, lines, err = _run(
            module, cfg, ['-simulate', f'num={per}', '-depth', str(depth), '-seed', str(seed * 1000 + i)], timeout
        )
        if any(ln.startswith('Error') for ln in lines) or rc != 0:
            _fail(lines, err)
        return _parse(lines), _stats(lines)

    res = Result()
    with ThreadPoolExecutor(procs) as ex:
        for traces, st in ex.map(one, range(procs)):
            res.extend(traces)
            res.states += st['states']
            res.transitions += st['transitions']
    return res


def check(module, consts, init='Init', nxt='Next', invariants=(), constraint=None, properties=(), timeout=800,
          workers='auto', extra='', files=None):
    """Exhaustive breadth-first check.  Returns the printed values and statistics; a violated invariant raises."""
    cfg = _cfg(consts, init, nxt, invariants, constraint, properties, extra)
    rc, lines, err = _run(module, cfg, [], timeout, workers, heap='6g', files=files)
    if any(ln.startswith('Error') for ln in lines) or rc != 0:
        _fail(lines, err)
    res = Result(_parse(lines))
    st = _stats(lines)
    res.states, res.transitions = st['states'], st['transitions']
    return res


def validate(module, traces, consts=None, init='Init', nxt='Next', timeout=800, procs=4, extra=''):
    """Trace validation.  Returns {trace index: (position, reason)} of the rejected traces, and the statistics."""
    if not traces:
        return {}, Result()
    procs = max(1, min(procs, (len(traces) + 199) // 200))
    parts = [list(range(k, len(traces), procs)) for k in range(procs)]
    cfg = _cfg(dict(consts or {}, TraceFile='traces.json'), init, nxt, extra=extra)

    def one(idx):
        rc, lines, err = _run(module, cfg, [], timeout, '1', '3g', {'traces.json': json.dumps([traces[k] for k in idx])})
        if any(ln.startswith('Error') for ln in lines) or rc != 0:
            _fail(lines, err)
        return idx, _parse(lines), _stats(lines)

    bad, ok, res = {}, set(), Result()
    with ThreadPoolExecutor(procs) as ex:
        for idx, msgs, st in ex.map(one, parts):
            for m in msgs:
                res.left += m.get('left', 0)
                if 'ok' in m:
                    ok.add(idx[m['ok'] - 1])
                else:
                    # several ways to explain a trace: the one that comes furthest
                    k = idx[m['stuck'] - 1]
                    bad[k] = max(bad.get(k, (0, '')), (m['at'], m['why']))
            res.states += st['states']
            res.transitions += st['transitions']
    for k in ok:
        bad.pop(k, None)
    for k in range(len(traces)):
        if k not in ok and k not in bad:
            raise TLCError(f'trace {k} was neither accepted nor rejected by {module}')
    return bad, res
