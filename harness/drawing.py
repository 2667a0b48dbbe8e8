"""Circuit drawers and printer: programs of module Drawing, their pictures read back."""
import builtins
import contextlib
import io
import os
import re
import tempfile
from unittest import mock

import matplotlib

matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.collections import LineCollection, PatchCollection  # noqa: E402
from matplotlib.patches import Arc, Circle, Rectangle  # noqa: E402
from projectq import MainEngine  # noqa: E402
from projectq import ops as o  # noqa: E402
from projectq.backends import CircuitDrawer, CircuitDrawerMatplotlib, CommandPrinter  # noqa: E402
from projectq.cengines import BasicEngine  # noqa: E402
from projectq.meta import LogicalQubitIDTag  # noqa: E402
from projectq.types import WeakQubitRef  # noqa: E402


class Wrong(Exception):
    """the picture or the text does not show the program"""


class G(o.BasicGate):
    """A gate with parameters and no inverse of its own."""

    def __init__(self, *args):
        super().__init__()
        self.args = args

    def __str__(self):
        return f'G({",".join(map(str, self.args))})'

    def __eq__(self, other):
        return isinstance(other, G) and self.args == other.args

    def __hash__(self):
        return hash(self.args)


def gate(e):
    g, k = e['g'], e['k']
    if g in ('Rx', 'Ph', 'Rxx'):
        return getattr(o, g)([0.5, 0.123456, 3.0, 1.25, 2.5, 0.75, 3.125][k])
    if g in ('G', 'Gdag', 'G2'):
        v = G(*[(1.23456,), (3,), ('abc', 2.5), ('averylongname', 1), (0.5, 0.25), ('x', ), (10, 11, 12)][k])
        return o.get_inverse(v) if g == 'Gdag' else v
    if g == 'TE':
        return o.TimeEvolution([0.5, 1.5][k % 2], [o.QubitOperator('X0 Y1', 0.5) + o.QubitOperator('Z0', 1.0), o.QubitOperator('X0 X1', 0.25)][k % 2])
    if g == 'SqrtSwapDag':
        return o.get_inverse(o.SqrtSwap)
    return {'Ent': o.Entangle, 'Bar': o.Barrier, 'Sdag': o.get_inverse(o.S)}.get(g) or getattr(o, g)


LATEX = {'Sdag': 'S${}^\\dagger$', 'SqrtX': '$\\sqrt{X}$', 'Ent': 'Entangle', 'Bar': 'Barrier'}


def latex_label(e, gt):
    g = e['g']
    if g in ('Rx', 'Rxx'):
        return f'{g}$_{{{round(gt.angle / 3.141592653589793, 3)}\\pi}}$'
    if g == 'Ph':
        return f'Ph$_{{{gt.angle}}}$'
    if g == 'Gdag':
        return str(G(*gt._gate.args)) + '${}^\\dagger$'
    return LATEX.get(g, str(gt))


def plot_label(e, gt):
    g = e['g']
    if g == 'TE':
        return None
    if g in ('G', 'G2', 'Gdag', 'Rx', 'Ph', 'Rxx'):
        v = gt._gate if g == 'Gdag' else gt
        args = v.args if isinstance(v, G) else (v.angle,)
        txt = []
        for a in args:
            try:
                txt.append(f'{float(a):.2f}')
            except ValueError:
                txt.append(a if len(a) < 8 else a[:5] + '...')
        return ('G' if isinstance(v, G) else g) + f'({",".join(txt)})' + ('^\\dagger' if g == 'Gdag' else '')
    return {'Sdag': 'S^\\dagger', 'SqrtSwapDag': 'SqrtSwap^\\dagger', 'Ent': 'Entangle', 'Bar': 'Barrier'}.get(g, g)


def print_label(e, gt):
    g = e['g']
    if g in ('Rx', 'Ph', 'Rxx'):
        return f'{g}({gt.angle})'
    return {'Sdag': 'S^\\dagger', 'SqrtSwapDag': 'SqrtSwap^\\dagger', 'Ent': 'Entangle', 'Bar': 'Barrier'}.get(g) or str(gt)


def reg(ids):
    out, k = [], 0
    while k < len(ids):
        j = k
        while j + 1 < len(ids) and ids[j + 1] == ids[j] + 1:
            j += 1
        out.append(f'{ids[k]}-{ids[j]}' if j > k else f'{ids[k]}')
        k = j + 1
    return f'Qureg[{", ".join(out)}]'


# ------------------------------------------------------------------ engines


class Front(BasicEngine):
    """What a mapper does: commands get the places of their qubits; hidden qubits stay behind."""

    def __init__(self, relabel):
        super().__init__()
        self.relabel, self.place, self.hidden, self.hiding, self.mute = relabel, {}, set(), False, False

    def is_available(self, cmd):
        return True

    def receive(self, command_list):
        for cmd in command_list:
            if self.mute:
                continue
            if isinstance(cmd.gate, o.FlushGate):
                self.send([cmd])
                continue
            ids = [q.id for qr in cmd.all_qubits for q in qr]
            if cmd.gate == o.Allocate and self.hiding:
                self.hidden.add(ids[0])
            if ids[0] in self.hidden:
                continue
            if self.relabel:
                tags = [LogicalQubitIDTag(ids[0])] if cmd.gate in (o.Measure, o.Allocate, o.Deallocate) else []
                new = o.Command(cmd.engine, cmd.gate, tuple([WeakQubitRef(cmd.engine, self.place[q.id]) for q in qr] for qr in cmd.qubits),
                                [WeakQubitRef(cmd.engine, self.place[q.id]) for q in cmd.control_qubits], list(cmd.tags) + tags)
                # controls are sorted by place: so are their states
                new._control_state = ''.join(s for _, s in sorted(zip([self.place[q.id] for q in cmd.control_qubits], cmd.control_state)))
                cmd = new
            self.send([cmd])


def key(cmd):
    return (repr(type(cmd.gate)), str(cmd.gate), tuple(tuple(q.id for q in qr) for qr in cmd.qubits), tuple(q.id for q in cmd.control_qubits),
            cmd.control_state, tuple(map(repr, map(type, cmd.tags))))


class Tap(BasicEngine):
    def __init__(self):
        super().__init__()
        self.got = []

    def receive(self, command_list):
        self.got += [key(c) for c in command_list]
        self.send(command_list)


class Back(BasicEngine):
    def __init__(self):
        super().__init__()
        self.got, self.result, self.yes = [], None, True

    def is_available(self, cmd):
        return self.yes

    def receive(self, command_list):
        for cmd in command_list:
            self.got.append(key(cmd))
            if cmd.gate == o.Measure:
                q = cmd.qubits[0][0]
                for t in cmd.tags:
                    if isinstance(t, LogicalQubitIDTag):
                        q = WeakQubitRef(q.engine, t.logical_qubit_id)
                self.main_engine.set_measurement_result(q, self.result)


# ------------------------------------------------------------------ reading LaTeX
NODE = re.compile(r'\\node\[(?P<style>[^\]]*)\]\s*\((?P<name>[^()]*)\)\s*at\s*\((?P<x>-?[0-9.e+-]+),\s*(?P<y>-{0,2}[0-9.e+-]+)\)\s*\{(?P<text>.*)\}\Z', re.S)
REF = re.compile(r'\((?:\[[^\]]*\])?([A-Za-z][^()\[\],.]*)(\.[a-z ]+)?\)')


class Item:
    def __init__(self, sym=(), x=0.0, text='', mark=''):
        self.sym, self.lo, self.hi, self.text, self.mark = set(sym), x, x, text, mark

    @property
    def lines(self):
        return {l for l, _ in self.sym}


def read_latex(text):
    """-> items of the picture, wires (line, from item, to item, double)"""
    head, _, body = text.partition('\\begin{tikzpicture}')
    if 'end{tikzpicture}' not in body or not text.rstrip().endswith('\\end{document}'):
        raise Wrong('LaTeX: no picture')
    for style in ('operator', 'phase', 'none', 'measure', 'xstyle', 'swapstyle', 'edgestyle', 'basic'):
        if f'\\tikzstyle{{{style}}}=[' not in text:
            raise Wrong(f'LaTeX: style {style} is not defined')
    body = body[body.index('edgestyle}=['):]
    body = body[body.index('\n'):body.index('\\end{tikzpicture}')]
    nodes, boxes, links, wires, ticks, order = {}, [], [], [], set(), []
    for st in re.split(r'\n\s*(?=\\(?:node|draw))', body):
        st = st.strip()
        if not st:
            continue
        if not st.endswith(';'):
            raise Wrong(f'LaTeX: strange statement {st[:80]!r}')
        st = st[:-1]
        if st.startswith('\\node'):
            m = NODE.match(st)
            if not m:
                raise Wrong(f'LaTeX: strange node {st[:120]!r}')
            if m['name'] in nodes:
                raise Wrong(f'LaTeX: two nodes {m["name"]}')
            y = m['y'][1:] if m['y'].startswith('-') else m['y']
            nodes[m['name']] = dict(style=m['style'].split(','), x=float(m['x']), y=float(y), text=m['text'], name=m['name'], n=len(order))
            order.append(m['name'])
            continue
        label = None
        if 'rectangle' in st:
            m = re.search(r'node\[pos=\.5\] \{(.*)\}\Z', st, re.S)
            if not m:
                raise Wrong(f'LaTeX: box without a name {st[:80]!r}')
            label, st = m[1], st[:m.start()]
        opts = re.match(r'\\draw(\[[^\]]*\])?', st)
        refs = REF.findall(st[opts.end():])
        for r, _ in refs:
            if r not in nodes:
                raise Wrong(f'LaTeX: a line to the node {r}, which is not there')
        names = [r for r, _ in refs]
        if label is not None:
            boxes.append((names[0], names[1], label))
        elif ' edge' in st:
            if len(names) != 2:
                raise Wrong(f'LaTeX: strange line {st[:80]!r}')
            a, b = names
            if a == b:
                ticks.add(a)
            elif nodes[a]['y'] != nodes[b]['y']:
                links.append((a, b))
            else:
                wires.append((a, b, 'shift' in st))
    # items
    item = {}
    for a, b, label in boxes:
        la, lb = sorted((nodes[a]['y'], nodes[b]['y']))
        it = Item(text=label)
        it.lo, it.hi = nodes[a]['x'], nodes[b]['x']
        it.first = min(n['n'] for n in nodes.values() if la <= n['y'] <= lb and it.lo <= n['x'] <= it.hi)
        if it.lo >= it.hi:
            raise Wrong('LaTeX: an empty box')
        it.sym = {(int(l), 'box') for l in range(int(la), int(lb) + 1)}
        for n in nodes.values():
            if 'none' in n['style'] and not n['text'] and n['name'] not in ticks and la <= n['y'] <= lb and it.lo - 1e-9 <= n['x'] <= it.hi + 1e-9:
                if n['name'] in item:
                    raise Wrong('LaTeX: boxes on top of each other')
                item[n['name']] = it
    halves = {}
    for n in nodes.values():
        if n['name'] in item:
            continue
        if n['y'] != int(n['y']) or 'frac' in n['text']:
            if 'xstyle' not in n['style'] or not re.fullmatch(r'\\scriptsize ?\$\\frac\{1\}\{2\}(\^\{+\\dagger\}+)?\$', n['text']):
                raise Wrong(f'LaTeX: strange node {n["name"]} {n["text"]!r}')
            it = Item(x=n['x'], mark='halfdag' if 'dagger' in n['text'] else 'half')
            it.mid = n['y']
        else:
            st = n['style']
            text = ''
            if 'xstyle' in st:
                kind = 'not'
            elif 'phase' in st:
                kind = 'odot' if 'fill=white' in st else 'dot'
            elif 'measure' in st:
                kind = 'meter'
            elif 'swapstyle' in st:
                kind = 'cross'
            elif '\\Ket{0}' in n['text']:
                kind, text = 'ket', n['text']
            elif n['name'] in ticks:
                kind = 'end'
            else:
                raise Wrong(f'LaTeX: a node without a symbol: {n["name"]} {n["text"]!r}')
            it = Item({(int(n['y']), kind)}, n['x'], text)
        it.first = n['n']
        item[n['name']] = it

    for a, b in links:
        x, y = item[a], item[b]
        if x is y:
            continue
        if x.text and y.text and x.text != y.text or x.mark and y.mark:
            raise Wrong('LaTeX: a line between different gates')
        keep, drop = (x, y) if any(k == 'box' for _, k in x.sym) or not any(k == 'box' for _, k in y.sym) else (y, x)
        if not keep.lo - 1e-9 <= drop.lo <= keep.hi + 1e-9:
            raise Wrong('LaTeX: a gate is drawn aslant')
        keep.sym |= drop.sym
        keep.mark = keep.mark or drop.mark
        keep.first = min(keep.first, drop.first)
        if hasattr(drop, 'mid'):
            keep.mid = drop.mid
        for name in item:
            if item[name] is drop:
                item[name] = keep
    for it in item.values():
        if hasattr(it, 'mid') and it.mid != sum(l for l, k in it.sym if k == 'cross') / 2:
            raise Wrong('LaTeX: the circle of a root of Swap is not in the middle')
    # a control between the targets of a swap lies on their line
    for x in [it for it in item.values() if any(k == 'cross' for _, k in it.sym)]:
        ends = [l for l, k in x.sym if k == 'cross']
        for y in [it for it in item.values() if it is not x and it.lo == x.lo]:
            if y.sym and all(k in ('dot', 'odot') and min(ends) < l < max(ends) for l, k in y.sym):
                x.sym |= y.sym
                x.first = min(x.first, y.first)
                for name in item:
                    if item[name] is y:
                        item[name] = x
    flow = {}
    for a, b, double in wires:
        flow.setdefault((a, b), []).append(double)
    wires = []
    for (a, b), d in flow.items():
        if d not in ([False], [True, True]):
            raise Wrong('LaTeX: a wire drawn twice')
        if nodes[a]['x'] > nodes[b]['x']:
            a, b = b, a
        if item[a] is not item[b]:
            wires.append((int(nodes[a]['y']), item[a], item[b], d[0]))
            lo = nodes[b]['x'] - item[b].lo
            hi = item[a].hi - nodes[a]['x']
            if any(k == 'box' for l, k in item[a].sym if l == nodes[a]['y']) and abs(hi) > 1e-9 or \
                    any(k == 'box' for l, k in item[b].sym if l == nodes[b]['y']) and abs(lo) > 1e-9:
                raise Wrong('LaTeX: a wire does not begin or end at its gate')
    uniq = []
    for it in item.values():
        if not any(it is u for u in uniq):
            uniq.append(it)
    return uniq, wires


# ------------------------------------------------------------------ reading a plot


def extent(paths):
    v = [tuple(p) for path in paths for p in path.vertices if len(path.vertices) > 1]
    xs, ys = [p[0] for p in v], [p[1] for p in v]
    return min(xs), max(xs), min(ys), max(ys)


def read_plot(axes, labels):
    """-> items of the figure"""
    wire = None
    for c in axes.collections:
        if c.get_label() == 'qubit_wires':
            wire = sorted(seg[0][1] for seg in c.get_segments())
    if wire is None:
        raise Wrong('plot: no wires')

    def line(y):
        k = min(range(len(wire)), key=lambda j: abs(wire[j] - y))
        if abs(wire[k] - y) > 1e-6:
            raise Wrong('plot: a symbol beside the wires')
        return k

    where, items, dots, bars, boxes, texts = {}, [], [], [], [], []
    left = min(t.get_position()[0] for t in axes.texts)
    for t in axes.texts:
        x, y = t.get_position()
        if x == left and t.get_text() in labels:
            where[t.get_text()] = line(y)
        else:
            texts.append((x, y, t.get_text()))
    for p in axes.patches:
        if isinstance(p, Circle):
            dots.append((p.center[0], line(p.center[1]), 'dot' if sum(p.get_facecolor()[:3]) < 1 else 'odot'))
        elif isinstance(p, Arc):
            pass
        elif isinstance(p, Rectangle):
            boxes.append((p.get_x() + p.get_width() / 2, p.get_y(), p.get_y() + p.get_height()))
        else:
            raise Wrong('plot: an unknown shape')
    for c in axes.collections:
        name = c.get_label()
        if name == 'qubit_wires':
            continue
        if isinstance(c, LineCollection):
            segs = c.get_segments()
            ends = [(s[0][0] + s[1][0]) / 2 for s in segs]
            ys = {line((s[0][1] + s[1][1]) / 2) for s in segs if s[0][0] != s[1][0]}
            items.append(Item({(y, 'cross') for y in ys}, ends[0]))
            continue
        if not isinstance(c, PatchCollection):
            raise Wrong('plot: an unknown collection')
        x0, x1, y0, y1 = extent(c.get_paths())
        if name == 'NOT':
            items.append(Item({(line((y0 + y1) / 2), 'not')}, (x0 + x1) / 2))
        elif name == 'Measure':
            b = extent(c.get_paths()[:1])
            items.append(Item({(line((b[2] + b[3]) / 2), 'meter')}, (b[0] + b[1]) / 2))
        elif name == 'CZ':
            it = Item((), (x0 + x1) / 2)
            for p in c.get_paths()[:2]:
                b = extent([p])
                it.sym.add((line((b[2] + b[3]) / 2), 'dot'))
            items.append(it)
        else:
            raise Wrong(f'plot: an unknown symbol {name}')
    for x, y, t in texts:
        mine = [b for b in boxes if abs(b[0] - x) < 1e-6 and b[1] < y < b[2]]
        if len(mine) != 1:
            raise Wrong(f'plot: text {t!r} without its own box')
        boxes.remove(mine[0])
        items.append(Item({(k, 'box') for k, w in enumerate(wire) if mine[0][1] < w < mine[0][2]}, x, t))
    if boxes:
        raise Wrong('plot: a box without text')
    for ln in axes.lines:
        xs, ys = ln.get_xdata(), ln.get_ydata()
        if xs[0] != xs[1]:
            raise Wrong('plot: a slanting line')
        bars.append((xs[0], line(min(ys)), line(max(ys))))
    for x, y, k in dots:
        if not any(abs(it.lo - x) < 1e-6 and (y, k) in it.sym for it in items):  # drawn twice at the same place
            items.append(Item({(y, k)}, x))
    for x, a, b in bars:
        mine = [it for it in items if abs(it.lo - x) < 1e-6 and any(a <= l <= b for l in it.lines)]
        if not mine:
            raise Wrong('plot: a line that connects nothing')
        it = Item((), x)
        for m in mine:
            if m.sym & it.sym:
                raise Wrong('plot: symbols on top of each other')
            it.sym |= m.sym
            it.text = it.text or m.text
            items.remove(m)
        items.append(it)
    return items, where


# ------------------------------------------------------------------ comparison


def compare(kind, want, items, notes, parallel=True, atzero=False):
    """want: [(glyph, label)] in program order"""
    queue = {}
    for it in items:
        for l in it.lines:
            queue.setdefault(l, []).append(it)
    for q in queue.values():
        q.sort(key=lambda it: (it.lo, it.hi))
        for a, b in zip(q, q[1:]):
            if a.hi >= b.lo:
                raise Wrong(f'{kind}: symbols on top of each other')
    drawn, passed = [], set()
    for g, label in want:
        sym = {(l, k) for l, k in g['sym']}
        # a box also covers the lines between its targets, where it may stand before or after this gate
        heads = []
        for l in sorted(g['real']):
            q = queue.get(l, [])
            k = next((k for k, x in enumerate(q) if {a for a in x.sym} == sym and x.text == label), 0)
            if all((l, 'box') in x.sym for x in q[:k]):
                passed.update((l, id(x)) for x in q[:k])
            else:
                k = 0
            heads.append(q[k] if q else None)
        if any(h is not heads[0] for h in heads) or heads[0] is None:
            raise Wrong(f'{kind}: gate {label} on {sorted(sym)} is not drawn as one gate')
        it = heads[0]
        if it.sym != sym:
            if it.sym == {(l, 'dot' if k == 'odot' else k) for l, k in sym}:
                notes.append(f'{kind}: a negative control is shown as a positive one')
            else:
                raise Wrong(f'{kind}: instead of {label} {sorted(sym)} there is {it.text} {sorted(it.sym)}')
        if label is not None and it.text != label and not (isinstance(label, re.Pattern) and label.fullmatch(it.text)):
            raise Wrong(f'{kind}: a gate {label} is labelled {it.text!r}')
        if it.mark != g['mark']:
            raise Wrong(f'{kind}: {label} has the mark {it.mark!r}')
        if any((l, id(it)) in passed for l in g['real']):
            raise Wrong(f'{kind}: a later gate is drawn before an earlier one')
        for l in it.lines:
            queue[l].remove(it)
        drawn.append((it, g))
        if g['inside']:
            notes.append(f'{kind}: a control between the targets of a box is not shown')
    if any(queue.values()):
        raise Wrong(f'{kind}: more is drawn than was done')
    for j, (b, gb) in enumerate(drawn):
        for a, ga in drawn[:j]:
            common = set(ga['span']) & set(gb['span'])
            if atzero and any(k == 'ket' for _, k in b.sym):
                continue
            if common and a.hi >= b.lo and b.hi >= a.lo:
                raise Wrong(f'{kind}: a gate is drawn on top of another one')
            if not parallel and not a.hi < b.lo:
                raise Wrong(f'{kind}: a later gate is drawn before an earlier one')
    return drawn


def order_free(kind, items):
    """no two items share a column"""
    its = sorted(items, key=lambda it: it.lo)
    for a, b in zip(its, its[1:]):
        if not a.hi < b.lo:
            raise Wrong(f'{kind}: gates are drawn in parallel')


def check_latex(b, drawer, done, notes):
    cfg = b['cfg']
    text = drawer.get_latex(ordered=cfg['ordered'], draw_gates_in_parallel=cfg['parallel'])
    if text != drawer.get_latex(ordered=cfg['ordered'], draw_gates_in_parallel=cfg['parallel']):
        raise Wrong('LaTeX: two drawings differ')
    items, wires = read_latex(text)
    want = []
    for e, gt in done:
        op = e['e']['op']
        if op == 'alloc':
            n = f'^{{\\textcolor{{red}}{{{e["e"]["p"]}}}}}' if cfg['drawid'] else ''
            label = f'$\\Ket{{0}}{n}$'
        else:
            label = latex_label(e['e'], gt) if op == 'gate' and any(k == 'box' for _, k in e['latex']['sym']) else ''
        want.append((e['latex'], label))
    drawn = compare('LaTeX', want, items, notes, cfg['parallel'] or not cfg['ordered'], cfg['atzero'])
    if cfg['ordered'] and [it for it, _ in drawn] != sorted((it for it, _ in drawn), key=lambda it: it.first):
        raise Wrong('LaTeX: not drawn in the order of the program')
    if not cfg['parallel'] and not cfg['atzero']:
        order_free('LaTeX', items)
    # wires
    last, flow, row = {}, {}, {}
    for l, x, y, d in wires:
        flow[(l, id(x), id(y))] = d
    for it in sorted(items, key=lambda it: it.lo):
        for l in it.lines:
            last[(l, id(it))] = row.get(l)
            row[l] = it
    for (e, _), (it, g) in zip(done, drawn):
        for l, k in e['wires']:
            if k != 'none':
                if (l, id(last[(l, id(it))]), id(it)) not in flow:
                    if e['latex']['inside'] and it.text and (l, 'box') in it.sym:
                        continue
                    if cfg['atzero'] and any((l, id(x), id(it)) in flow for x in items):
                        continue
                    raise Wrong(f'LaTeX: two gates of a qubit are not connected: {l} {e}')
                double = flow[(l, id(last[(l, id(it))]), id(it))]
                if cfg['double'] and k in 'qc' and double != (k == 'c') or not cfg['double'] and double:
                    raise Wrong(f'LaTeX: {"double" if double else "single"} line for a {"qubit" if k == "q" else "bit"}')


def check_plot(b, drawer, done, notes):
    cfg = b['cfg']
    seen = {e['e']['p'] for e, _ in done if e['e']['op'] == 'alloc'}
    if not seen:
        return
    if len(seen) != len(b['seen']):
        return
    mline = dict(map(tuple, b['mlines']))
    first = []
    for e, _ in done:
        if e['e']['op'] == 'alloc' and e['e']['p'] not in first:
            first.append(e['e']['p'])
    order = None
    if cfg['order']:
        order = {p: mline[p] for p in first}
    labels = {p: f'q{p}' for p in first}
    want = [(e['mpl'], None if e['e']['op'] != 'gate' else plot_label(e['e'], gt) if any(k == 'box' for _, k in e['mpl']['sym']) else '',
             e) for e, gt in done if e['e']['op'] in ('gate', 'meas')]
    refused = any(g['gap'] for g, _, _ in want)
    try:
        fig, axes = drawer.draw(qubit_labels=labels, drawing_order=order)
    except RuntimeError as ex:
        if refused and 'non-neighbouring' in str(ex):
            return
        raise
    finally:
        plt.close('all')
    if refused:
        raise Wrong('plot: a box over other qubits is not refused')
    if True:
        items, where = read_plot(axes, set(labels.values()))
        if where != {f'q{p}': mline[p] for p in seen}:
            raise Wrong(f'plot: labels on the wrong wires')
        lab = []
        for g, label, e in want:
            if label is None and e['e'].get('g') == 'TE':
                label = re.compile(r'exp\(-%sj \* \(.*\)' % [0.5, 1.5][e['e']['k'] % 2], re.S)
            lab.append((g, label))
        compare('plot', lab, items, notes)


def check_text(text, done, notes):
    lines = []
    for e, gt in done:
        op, pl = e['e']['op'], e['place']
        ctl = sorted(pl['c'])
        name = {'alloc': 'Allocate', 'dealloc': 'Deallocate', 'meas': 'Measure'}.get(op) or 'C' * len(ctl) + print_label(e['e'], gt)
        t = regs(e['e'], pl['t']) if op == 'gate' else [pl['t']]
        rs = ([ctl] if ctl else []) + t
        lines.append(f'{name} | ' + (reg(rs[0]) if len(rs) == 1 else '( ' + ', '.join(map(reg, rs)) + ' )'))
        if op == 'gate' and e['e']['neg']:
            notes.append('printer: a negative control is shown as a positive one')
    want = '\n'.join(lines) + '\n' * bool(lines)
    if text != want:
        a, w = text.split('\n'), want.split('\n')
        k = next((j for j in range(min(len(a), len(w))) if a[j] != w[j]), min(len(a), len(w)))
        raise Wrong(f'printer: line {a[k:k + 1]} instead of {w[k:k + 1]}')


INTER = {'Swap', 'SqrtSwap'}


def regs(e, t):
    """quantum registers of a gate: those that can be interchanged are sorted"""
    if e['g'] in ('TE', 'Ent', 'Bar'):
        return [list(t)]
    if e['g'] in INTER:
        t = sorted(t)
    return [[q] for q in t]


def replay(b):
    """-> (what is wrong or None, known deviations)"""
    cfg, notes = b['cfg'], []
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        try:
            return _replay(b, cfg, notes), notes
        except Wrong as ex:
            return str(ex), notes
        finally:
            os.chdir(old)
            plt.close('all')


def _replay(b, cfg, notes):
    kw = dict(accept_input=cfg['input'], default_measure=cfg['default'])
    tikz, plot, printer, back = CircuitDrawer(**kw), CircuitDrawerMatplotlib(**kw), CommandPrinter(**kw), Back()
    if cfg['map']:
        given = {p: l for p, l in enumerate(cfg['map'])}
        tikz.set_qubit_locations(dict(given))
    front = Front(cfg['relabel'])
    chain = [('tikz', tikz), ('plot', plot), ('printer', printer)]
    final = {'tikz': tikz, 'mpl': plot, 'printer': printer, 'back': back}[cfg['last']]
    rest = [d for _, d in chain if d is not final]
    if len(b['prog']) % 2:
        rest.reverse()
    taps = [Tap() for _ in range(len(rest) + 1)]
    between = [front, taps[0]]
    for d, t in zip(rest, taps[1:]):
        between += [d, t]
    out, asked = io.StringIO(), []
    answers = []

    def ask(prompt=''):
        asked.append(prompt)
        return answers.pop(0) if answers else '0'

    if cfg['drawid'] or cfg['atzero'] or not cfg['shadow'] or not cfg['double']:
        from projectq.backends._circuits import _to_latex

        s = _to_latex.get_default_settings()
        s['gates']['AllocateQubitGate']['draw_id'] = cfg['drawid']
        s['gates']['AllocateQubitGate']['allocate_at_zero'] = cfg['atzero']
        s['gate_shadow'] = cfg['shadow']
        s['lines']['double_classical'] = cfg['double']
        if not cfg['shadow']:
            s['gates']['MyBox'] = {'width': 2.0}
            s['gates']['TGate'] = {'width': 1.5, 'offset': 0.4, 'pre_offset': 0.05, 'height': 0.7}
        _to_latex.write_settings(s)
    qubits, result = {}, {}
    done = []
    with contextlib.redirect_stdout(out), mock.patch.object(builtins, 'input', ask):
        eng = MainEngine(final, between)
        try:
            for e in b['prog']:
                c = e['e']
                op = c['op']
                if op == 'alloc':
                    front.place[len(qubits)] = c['p']
                    qubits[c['q']] = eng.allocate_qubit()
                    if qubits[c['q']][0].id != c['q']:
                        return f'MainEngine: id {qubits[c["q"]][0].id} instead of {c["q"]}'
                elif op == 'hide':
                    front.hiding = True
                    qubits[c['q']] = eng.allocate_qubit()
                    front.hiding = False
                elif op == 'dealloc':
                    q = qubits[c['q']]
                    q[0].__del__()
                    result.pop(c['q'], None)
                elif op == 'meas':
                    answers[:] = c['junk'] + [str(c['res'])] if cfg['input'] and cfg['last'] != 'back' else []
                    n = len(asked) + len(answers)
                    back.result = c['res']
                    o.Measure | qubits[c['q']]
                    result[c['q']] = c['res']
                    if answers or len(asked) != n:
                        return f'{cfg["last"]}: asked for a result {len(asked)} times instead of {n}'
                elif op == 'gate':
                    gt = gate(c)
                    t = [qubits[q][0] for q in c['t']]
                    rs = ([t] if c['g'] in ('TE', 'Ent', 'Bar') else [[q] for q in t])
                    ctl = sorted(c['c'])
                    state = ''.join('0' if q in c['neg'] else '1' for q in ctl)
                    cmd = o.Command(eng, gt, tuple(rs), [qubits[q][0] for q in ctl], control_state=state) if ctl else o.Command(eng, gt, tuple(rs))
                    o.apply_command(cmd)
                    done.append((e, gt))
                elif op == 'peek':
                    check_latex(b, tikz, done, notes)
                    check_plot(b, plot, done, notes)
                if op in ('alloc', 'dealloc', 'meas'):
                    done.append((e, None))
                for q in qubits:
                    try:
                        r = eng.get_measurement_result(qubits[q][0])
                    except Exception:  # noqa: BLE001 - not measured
                        r = None
                    if q in result and r is None or r is not None and q in result and int(r) != result[q]:
                        return f'{cfg["last"]}: measured {r} instead of {result[q]}'
                    if r is not None and q not in result and qubits[q][0].id != -1:
                        return f'{cfg["last"]}: a result for a qubit that was not measured'
            eng.flush()
            for t in taps[1:] + ([back] if final is back else []):
                if t.got != taps[0].got:
                    return 'commands are not passed on as they were'
            # availability is that of the engine behind, if there is one
            probe = o.Command(eng, o.H, ([WeakQubitRef(eng, 0)],))
            for yes in (True, False):
                back.yes = yes
                for d in [final] + rest:
                    if d is not back and d.is_available(probe) != (yes or final is not back):
                        return f'{type(d).__name__}: is_available is {d.is_available(probe)}'
            check_latex(b, tikz, done, notes)
            check_plot(b, plot, done, notes)
            check_text(out.getvalue(), done, notes)
            return None
        finally:
            front.mute = True
            for q in qubits.values():
                for x in q:
                    x._id = -1 if hasattr(x, '_id') else None
                    x.id = -1
            eng.is_last_engine = False
            eng.active_qubits.clear()
