"""Write known_findings.json from the list below."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# known: {'property','signature','what'}
KNOWN = [
    {'property': 'C12', 'signature': 'bounded 4 (qubits kept over a flush): Mapper: allocates a location that is in use',
     'what': 'BoundedQubitMapper: program allocate a; flush; allocate b (a still alive): b gets the location of a, because the flush resets the counter of locations. Not repaired: the reset is what lets a new job use the whole device while handles of the last job are still in scope (the number of qubits of a job is taken from the same mapping), so a repair changes which programs are accepted.'},
    {'property': 'C23', 'signature': 'ibm get_qasm() shows u2(0,1.571) instead of u2(0,pi)',
     'what': 'IBMBackend.get_qasm() shows H as u2(0,pi/2), which is another gate; the job that is sent has u2(0,pi). Not repaired: the tests of the repository require the text.'},
    {'property': 'C25', 'signature': 'LaTeX: a negative control is shown as a positive one',
     'what': 'CircuitDrawer draws CNOT with control state 0 with a filled circle, like control state 1. Not repaired: the drawing items know no control states; it needs a symbol of its own.'},
    {'property': 'C25', 'signature': 'plot: a negative control is shown as a positive one',
     'what': 'CircuitDrawerMatplotlib draws CNOT with control state 0 with a filled circle, like control state 1. Not repaired: the same.'},
    {'property': 'C25', 'signature': 'printer: a negative control is shown as a positive one',
     'what': 'CommandPrinter (str(Command)) prints CX for a control on |0> and on |1>. Not repaired: the text of commands is relied on by others.'},
    {'property': 'C25', 'signature': 'LaTeX: a control between the targets of a box is not shown',
     'what': 'CircuitDrawer: a gate drawn as a box (e.g. Rxx on qubits 0 and 2 controlled by qubit 1) hides a control that lies between its targets. Not repaired: boxes cover all lines between their targets.'},
] + [
    {'property': 'C23', 'signature': f'{s}: a gate on a measured qubit is not refused',
     'what': f'{n}: Measure | q; X | q; flush: the gate is accepted and the measurement is silently done after it. Not repaired: a backend sees locations only, and a gate on the location of a measured qubit may be a swap of the mapper, after which measuring at the new location is right; telling them apart needs more than a small change.'}
    for s, n in (('ibm', 'IBMBackend'), ('aqt', 'AQTBackend'), ('aspen', 'AWSBraketBackend (Aspen-8)'), ('awsionq', 'AWSBraketBackend (IonQ Device)'), ('sv1', 'AWSBraketBackend (SV1)'),
                 ('azionq', 'AzureQuantumBackend (IonQ)'), ('azquant', 'AzureQuantumBackend (Quantinuum)'))
]
# subject of the fix commit in /repo -> (property, what failed)
FIXED = {
    'phase estimation finds phases': ('C24', 'QPE applied the inverse Fourier transform to the ancillas in the wrong order: phase 2/8 with 3 ancillas was estimated right with probability 0.25 instead of 1'),
    'weak terms that do not commute are not taken apart': ('C21', 'TimeEvolution of a sum with a non-commuting term whose coefficient is below the tolerance was decomposed as if all terms commuted, whatever the evolution time'),
    'do not take a controlled gate for a one-qubit gate': ('C11', 'linear/grid setups with one-qubit gate classes, e.g. (Rz, ...): CRz passed to the backend although not in the gate set'),
    'gate-set setups decompose gates with negative controls': ('C11', 'restricted gate set, linear, grid and IBM setups counted a CNOT controlled on 0 as CNOT'),
    'keep the control state when a command is copied': ('C05', 'Dagger of a negatively controlled gate lost the control state; merged commands too'),
    'do not append inverse rules': ('C10', 'AutoReplacer appended rules of the inverse gate to the rule set; the result depended on earlier commands'),
    'drop identity gates from the lists': ('C09', 'LocalOptimizer dropped a multi-qubit identity gate from one of its qubit lists only'),
    'honour the control state in the classical simulator': ('C14', 'ClassicalSimulator treated control-on-0 as control-on-1'),
    'honour negative controls in the simulator': ('C01', 'Simulator treated control-on-0 as control-on-1'),
    'honour negative controls in the unitary simulator': ('C16', 'UnitarySimulator treated control-on-0 as control-on-1'),
    'respect the order of the target qubits': ('C16', 'UnitarySimulator ignored the order of the target qubits of multi-qubit gates'),
    "keep the unitary simulator's state": ('C16', 'UnitarySimulator lost state or used a wrong size across flushes, allocations and deallocations'),
    'restore the compiler pipeline': ('C05', 'a failing Dagger, Loop or CustomUncompute section left its engine in the pipeline'),
    'reject negative integers as control state': ('C06', 'a negative integer control state was accepted'),
    'refuse wavefunctions and bit strings': ('C03', 'the C++ simulator read outside its arrays for inputs of the wrong length'),
    'find the rotation angles of one-qubit gates': ('C10', 'arb1qubit/carb1qubit decompositions raised or lost accuracy for gates close to diagonal or antidiagonal ones'),
    'compare qubit operators by their terms': ('C19', 'any two QubitOperators compared equal, so the LocalOptimizer cancelled X0 X1 followed by Z0 Z1'),
    'compare phase estimation and amplitude': ('C19', 'any two QPE (QAA) gates compared equal, so the optimizer cancelled QPE(X) with the inverse of QPE(Z)'),
    'compare math gates by the function': ('C19', 'any two BasicMathGates of one class compared equal'),
    'do not merge time evolutions with terms': ('C19', 'merging two TimeEvolution gates with a zero coefficient raised ZeroDivisionError in the optimizer'),
    'make time evolution, controlled and tensored': ('C19', 'TimeEvolution, ControlledGate and Tensor were unhashable; the ResourceCounter crashed on TimeEvolution'),
    'allow adding a qubit operator to itself': ('C18', 'a -= a and a += a raised RuntimeError (dictionary changed during iteration)'),
    'reject Pauli strings of the wrong length': ('C18', "QubitOperator accepted the actions '' and 'XY'"),
    'merge qubit operators in the order': ('C18', 'QubitOperator.get_merged multiplied in the wrong order'),
    'apply the controls of a phase': ('C24', 'the phase estimation rule ignored the controls of the command'),
    'apply the controls of an amplitude': ('C24', 'the amplitude amplification rule ignored the controls of the command'),
    'rotations of different sizes do not merge': ('C19', 'UniformlyControlledRy/Rz of different numbers of qubits merged to the size of the smaller one'),
    'apply a time evolution without terms': ('C21', 'TimeEvolution with a Hamiltonian without terms raised "max() iterable argument is empty"'),
    'do not print from the time evolution': ('C21', 'the time evolution rule printed to standard output'),
    'keep the amplitudes when the Python simulator emulates': ('C14', 'the Python simulator lost amplitudes when the emulated function was not injective on zero amplitudes'),
    'flip the carry of the inverse quantum adder': ('C14', 'the emulated inverse of AddQuantum with carry always flipped the carry qubit'),
    'the quantum comparator is its own inverse': ('C14', 'the inverse of ComparatorQuantum was AddQuantum'),
    'give the inverse addition, division': ('C14', 'the inverses of AddQuantum, DivideQuantum and MultiplyQuantum had no inverse (NotInvertible / wrong daggered gate)'),
    'give the multiplication by a constant': ('C14', 'MultiplyByConstantModN had no inverse'),
    'add modulo N without an overflow': ('C15', 'add_constant_modN gave wrong results and a dirty ancilla for N > 2^(n-1)'),
    'add and compare quantum registers of one': ('C15', 'add_quantum with carry, the conditional adder and the comparator were wrong for width 1'),
    'allow controlled quantum addition with a carry': ('C15', 'controlled AddQuantum with a one-qubit carry was refused by the rule'),
    'undo the first half of the quantum comparator': ('C15', 'the comparator uncomputed in the wrong order (wrong from width 3 on)'),
    'multiply all bits of the factors': ('C15', 'quantum_multiplication ignored the highest bit of the first factor for all but one bit of the second; IndexError for width 1; inverse in the wrong order'),
    'divide by divisors that need': ('C15', 'quantum_division was wrong for divisors with the highest bit set and refused to be controlled'),
    'calculate modular inverses of large': ('C15', 'inv_mod_N used floating-point division'),
    'do not control the conditional adders twice': ('C15', 'the rule of a controlled AddQuantum produced gates with the same control qubit twice; wrong results when compiled further'),
    'refused for too many engines': ('C20', 'MainEngine with more than 100 engines raised AttributeError in its destructor'),
    'reject gates on more than two qubits at once': ('C12', 'LinearMapper and GridMapper passed gates on three qubits on when the current mapping was kept'),
    'gives new qubits a location that is free': ('C12', 'IBM5QubitMapper refused programs of five qubits when the earlier ones were placed at high locations'),
    'does not ask for the location of the flush id': ('C12', 'ManualMapper called the map function with -1 at a flush and announced a location for it'),
    'keep the control state of a CNOT that is flipped': ('C13', 'SwapAndCNOTFlipper lost the negative control of a CNOT it flipped'),
    'polled without any retry time out': ('C22', 'AWS Braket get_result() with num_retries=0 raised UnboundLocalError instead of a timeout naming the Arn'),
    'jobs ask for all the qubits they use': ('C23', 'IBM/AQT: ValueError for qubits allocated before an earlier flush; AWS: too few qubits asked for'),
    'jobs ask for enough qubits under any mapping': ('C23', 'IonQ/Azure: the number of qubits of the job was the number of mapped qubits, too small for larger locations'),
    'detects gates on measured qubits under any mapping': ('C23', 'IonQBackend compared locations with ids of measured qubits'),
    'draws its outcome according to the probabilities': ('C23', 'IonQBackend always recorded the last outcome'),
    'of an outcome that did not occur is 0': ('C23', 'IonQBackend.get_probability() raised KeyError for an outcome that did not occur'),
    'forgets the measurements of earlier jobs': ('C23', 'AzureQuantumBackend added the measured qubits of earlier jobs to every later one'),
    'records the measured bit of each qubit': ('C23', 'AzureQuantumBackend indexed the outcome by qubit id and recorded every bit as True'),
    'results are those of the measured qubits under': ('C23', 'AzureQuantumBackend (Quantinuum) took classical bits of locations for bits in the order of measurement'),
    'not submitted again by a second flush': ('C23', 'IBM/AQT submitted the same job again at a second flush'),
    'format their styles and the nodes of boxed gates': ('C25', 'CircuitDrawer: the LaTeX source of every gate drawn as a box contained unformatted text and node styles with doubled braces'),
    'name the node between the targets of SqrtSwap': ('C25', 'CircuitDrawer: SqrtSwap defined one node twice and referred to one that does not exist'),
    'do not need all line numbers to be in use': ('C25', 'CircuitDrawer.get_latex() raised KeyError when ids or locations were not 0..n-1'),
    'drawings without parallel gates draw none': ('C25', 'CircuitDrawer.get_latex(draw_gates_in_parallel=False) drew gates in parallel when a gate on several qubits required other lines'),
    'ordered LaTeX drawings use the qubit locations': ('C25', 'CircuitDrawer.get_latex(ordered=True) took ids for lines after set_qubit_locations()'),
    'keep the gates of a qubit whose id is used again': ('C25', 'CircuitDrawer and CircuitDrawerMatplotlib behind a mapper dropped all gates of a location when it was allocated again'),
    'behind a mapper record results for the logical': ('C25', 'CircuitDrawer and CircuitDrawerMatplotlib behind a mapper recorded results for the location instead of the logical qubit'),
    'show gates with a name of several lines': ('C25', 'CircuitDrawerMatplotlib raised AttributeError for a TimeEvolution of two terms and dropped the dagger of gates with parameters'),
    'drawings do not need consecutive qubit ids': ('C25', 'CircuitDrawerMatplotlib.draw() used wire numbers out of range when ids were not 0..n-1'),
    'begin the lines that a gate passes': ('C25', 'CircuitDrawer: a box over a qubit drawn later referred to a node that does not exist'),
    'do not draw gates on top of each other': ('C25', 'CircuitDrawerMatplotlib drew one-qubit gates into the line or box of a gate passing their wire'),
    'do not overflow when the C++': ('C14', 'emulate_math_multiplyByConstantModN overflowed 32-bit integers on registers of 16 and more qubits'),
}


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
    fixed = []
    for line in reversed(log):
        h, _, s = line.partition(' ')
        if not s.startswith('fix:'):
            continue
        k = [x for x in FIXED if x in s]
        assert len(k) == 1, s
        fixed.append(f'fixed: property={FIXED[k[0]][0]} {h} {FIXED[k[0]][1]}')
    with open(os.path.join(ROOT, 'known_findings.json'), 'w') as f:
        json.dump({'known': KNOWN, 'fixed': fixed}, f, indent=1)
        f.write('\n')


main()
