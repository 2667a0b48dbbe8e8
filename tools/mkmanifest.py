"""Write MANIFEST.json: one entry for every property that has a check."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    'C01': 'TLC computes the exact state (cyclotomic integers) of random programs; every wavefunction of five simulator configurations is compared to it. Several behaviours at once on up to 20 qubits (Compose.tla: the state of independent programs is a product), with one and three threads.',
    'C02': 'Exact outcome probabilities from the TLA+ state machine; possible outcomes, collapse, registry and frequencies are compared on the real simulators. Several behaviours at once on up to 20 qubits (Compose.tla: the state of independent programs is a product), with one and three threads.',
    'C03': 'Query values and refusals predicted by the TLA+ state machine, with and without mappers. Several behaviours at once on up to 20 qubits (Compose.tla: the state of independent programs is a product), with one and three threads.',
    'C05': 'All section programs up to a bound and random deeper ones: command stream and state must equal the TLA+ section semantics; refusals from MetaErrors.tla.',
    'C06': 'All section programs up to a bound and random deeper ones: command stream and state must equal the TLA+ section semantics; refusals from MetaErrors.tla.',
    'C07': 'All section programs up to a bound and random deeper ones: command stream and state must equal the TLA+ section semantics; refusals from MetaErrors.tla.',
    'C08': 'All section programs up to a bound and random deeper ones: command stream and state must equal the TLA+ section semantics; refusals from MetaErrors.tla.',
    'C09': 'All programs of a few steps over cancelling, merging and near-miss gates and random longer ones, each for several cache sizes, compared to the exact TLA+ state.',
    'C10': 'Every predefined rule is forced in its own pipeline; the effect is compared to the exact TLA+ state and the delivered stream is validated by TLC against Delivered.tla.',
    'C14': 'MathTable.tla lists every small arithmetic gate with its value on every content meeting the precondition, WideTable.tla wide ones; all four backends must agree, on superpositions and under controls.',
    'C15': 'The circuits of the arithmetic rules must map superpositions of all contents of MathTable.tla as listed, restore work qubits and refuse the violated preconditions it enumerates. Recorded circuits of up to 28 qubits on product states are executed by TLC (WideCircuit.tla) and must reach the state WideGoals.tla demands.',
    'C18': 'PauliAlgebra.tla is an exact state machine of QubitOperator expressions; random histories of operations, comparisons, in-place updates and refusals are replayed.',
    'C21': 'Time evolution under commuting groups of Pauli terms and Pauli-operator gates against the exact TLA+ state, by the simulators and by the decomposition rules; which sums may be taken apart is decided from the pairwise commutation of their terms (TermSets).',
    'C24': 'QFT, entangle, uniformly controlled rotations, phase estimation, amplitude amplification, state preparation and flips against their definition in HighGates.tla; QFT and phase estimation on up to 28 qubits as recorded circuits on product states executed by TLC (WideCircuit.tla), whose semantics ProductCheck.tla shows to refine the exact states.',
    'C04': 'Lifecycle.tla explores all short histories of allocation, release, refused release, dead handles, sections and every way to end an engine; the commands of each flush are replayed and compared, buffering engines are trace-validated against Delivered.tla.',
    'C16': 'The accumulated matrices, segments and history UnitarySimulator must report are computed exactly by the TLA+ state machine.',
    'C17': 'Counts, width and depth of random command streams are computed by the TLA+ state machine (ProjectQCount.tla) and compared to ResourceCounter at every position of a pipeline.',
    'C22': 'Jobs.tla is a state machine of one job: what is sent for every sequence of server answers and how it ends; its behaviours are replayed on the five clients over a simulated network, every request and result is compared.',
    'C23': 'HwJob.tla computes the job each backend has to submit for a program, the answer of the service, and what has to be recorded and reported; behaviours are replayed on the real backends up to the HTTP, boto3 or Azure target layer.',
    'C25': 'Drawing.tla computes the symbols, lines and wires of the picture of a program; LaTeX source, matplotlib figures and printed text are read back and compared, with the commands passed on and the results recorded.',
    'C20': 'Chain.tla computes availability, delivery, tags and refusal of every chain of engines (all up to two engines, random ones up to six); programs of ProjectQGen must pass random chains with their exact command stream; CompareSeq.tla defines when two recorded programs are the same.',
    'C12': 'MapGen.tla generates histories of allocations, releases, gates and flushes (all short ones, random long ones); what each mapper sends is validated by TLC as a trace of Mapper.tla: once, in order, at the current location, on connected locations, nothing pending at a flush, refused only with a reason.',
    'C13': 'All coupling maps on three qubits with every gate and random larger ones; what the flipper sends is validated by TLC against Flipper.tla, which compares the effect by exact Clifford conjugation.',
    'C11': 'Programs of ProjectQGen are compiled by 24 configurations of the setups and must reach the exact TLA+ state with a stream accepted by Delivered.tla (gate set, connectivity); SetupArgs.tla enumerates all requests and the refusals.',
    'C19': 'GateAlgebra.tla computes effect, inverse, products and equality classes of gates exactly; gate objects of the implementation are compared pairwise.',
}
DEFAULT = 'Behaviours of the TLA+ specification are replayed on the real code and every predicted observation is compared.'
TECH = 'TLA+ state machine explored by TLC, behaviours replayed on the implementation'


def main():
    props = [json.loads(x)['id'] for x in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        if os.path.exists(os.path.join(ROOT, 'harness', 'checks', p.lower() + '.py')):
            checks.append({
                'property': p, 'quick_cmd': f'./check.sh {p} quick', 'thorough_cmd': f'./check.sh {p} thorough',
                'evidence_file': f'evidence/{p}.json', 'technique': TECH, 'level': 'model_checking',
                'level_note': NOTE.get(p, DEFAULT) + ' Bounded: small registers, angles from a dense finite family, programs up to about 45 steps.',
            })
        else:
            na.append({'property': p, 'reason': 'The specification module for this property is not finished yet.'})
    m = {'version': 1, 'setup_cmd': 'true',
         'hooks': {'guard': 'PROJECTQ_VERIF', 'enable': 'No hooks are needed: the checks use public interfaces of /repo only.', 'source_commits': []},
         'checks': checks, 'not_applicable': na}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
