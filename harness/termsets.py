"""TimeEvolution of sums of Pauli terms through the decomposition rules: only sums of commuting terms may be taken apart."""
import random
from itertools import combinations

from projectq import MainEngine
from projectq.cengines import AutoReplacer, DecompositionRuleSet, DummyEngine, InstructionFilter
from projectq.meta import Control
from projectq.ops import ClassicalInstructionGate, QubitOperator, TimeEvolution
from projectq.setups.decompositions import time_evolution

ACT = {1: 'X', 2: 'Y', 3: 'Z'}
COEFF = (1.0, 1.0, 0.5, -3.0, 2e-3, 1e-5, -1e-6, 4e4)
TIMES = (0.75, -0.75, 1.5e5, 3e-5)


def basic(eng, cmd):
    return not isinstance(cmd.gate, TimeEvolution)


def check(e, seed):
    """Returns a description of what is wrong, or None."""
    rng = random.Random(seed)
    n = len(e['terms'][0])
    ham = QubitOperator()
    size = rng.choice(COEFF) if rng.random() < 0.5 else None
    time = rng.choice(TIMES)
    coeffs = [size or rng.choice(COEFF) for _ in e['terms']]
    for codes, x in zip(e['terms'], coeffs):
        ham += QubitOperator(tuple((i, ACT[c]) for i, c in enumerate(codes) if c), x)
    rec = DummyEngine(save_commands=True)
    eng = MainEngine(rec, [AutoReplacer(DecompositionRuleSet(modules=[time_evolution])), InstructionFilter(basic)])
    q = eng.allocate_qureg(n)
    c = eng.allocate_qureg(rng.choice((0, 0, 1, 2)))
    eng.flush()
    k = len(rec.received_commands)
    why = None
    try:
        if len(c):
            with Control(eng, c):
                TimeEvolution(time, ham) | q
        else:
            TimeEvolution(time, ham) | q
        eng.flush()
    except Exception as exc:  # noqa: BLE001
        why = f'{type(exc).__name__}: {str(exc)[:80]}'
    sent = [x for x in rec.received_commands[k:] if not isinstance(x.gate, ClassicalInstructionGate)]
    text = f'exp(-i {time} ({" + ".join(str(ham).split(chr(10)))[:160]}))'
    if e['commute'] and why:
        return f'refused: {text}, a sum of commuting terms: {why}'
    # where the difference is too small to matter, either is fine
    clash = max((2 * time**2 * abs(a * b) for (i, a), (j, b) in combinations(enumerate(coeffs), 2) if [i + 1, j + 1] in e['clashes']), default=0)
    if not e['commute'] and clash < 1e-8:
        return None
    if not e['commute'] and not why:
        return f'taken apart: {text}, whose terms do not commute'
    if not e['commute'] and sent:
        return f'partly sent: {text} is refused after {len(sent)} commands'
    return None
