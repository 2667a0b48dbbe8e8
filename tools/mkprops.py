# writes /verif/properties.jsonl (kept as a script so that the JSON stays well formed)
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':m.strip(),'where':files[0]} for m in mech.split(', ')]}
    if state: a['state']=[{'name':s,'where':files[0]} for s in state]
    if observe: a['observe_at']=[x.strip() for x in observe.split(';')]
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})
p('C01','Simulated state equals the exact product of the applied gates',
 'For every sequence of allocations, deallocations and gates (any unitary matrix gate on up to five target qubits listed in any order, any number of controls, each control conditioned on 0 or on 1), the wavefunction the simulator reports after a flush is the one obtained by applying the gates\' matrices in program order. This holds for the C++ simulator with and without gate fusion and for the pure-Python simulator, and whatever qubits were allocated, measured or deallocated before. The reported mapping tells which bit of the basis index belongs to which qubit.',
 ['programs','configurations','histories'],'all gate programs (order of targets and controls, control states, allocation/deallocation histories) x {C++ fused, C++ unfused, Python}',
 'The unit tests fix a handful of circuits; fusion, controls in the state 0, multi-qubit gates with permuted targets and holes in the qubit ids interact, so no finite list of circuits covers them.',
 ['projectq/backends/_sim/_simulator.py','projectq/backends/_sim/_pysim.py','projectq/backends/_sim/_cppkernels/simulator.hpp','projectq/backends/_sim/_cppkernels/fusion.hpp','projectq/backends/_sim/_cppsim.cpp'],
 'gate fusion, controlled kernels, id-to-bit map kept across allocation and deallocation',['state vector','id -> bit map','pending fused gates'],'Simulator.cheat() after eng.flush()')
p('C02','Measurement collapses the state, records the outcome and follows Born\'s rule',
 'A measurement returns only outcomes of non-zero probability, with the frequencies of Born\'s rule, leaves the state projected on the outcome and normalised, and makes the outcome readable through the measured qubit handle. Measuring again without a gate in between gives the same outcome, measuring several qubits measures each of them and nothing else, and reading a qubit that was never measured raises NotYetMeasuredError. This holds for all simulators, the resource counter and the unitary simulator\'s classical outcomes included.',
 ['programs','histories','inputs'],'all programs with measurements of any set of qubits at any point, all outcomes',
 'Tests measure product or GHZ states; wrong collapse for other qubits, wrong outcome routing and wrong statistics need entangled states with unequal amplitudes and several measurements in one command.',
 ['projectq/backends/_sim/_simulator.py','projectq/backends/_sim/_pysim.py','projectq/backends/_sim/_cppkernels/simulator.hpp','projectq/backends/_unitary.py','projectq/cengines/_main.py','projectq/types/_qubit.py'],
 'measure_qubits, set_measurement_result / get_measurement_result',['state vector','measurement registry'],'int(qubit), get_probability, cheat()')
p('C03','Simulator queries agree with the state, use logical qubits and do not disturb it',
 'get_probability, get_amplitude and get_expectation_value (and the histogram drawn from them) return the values of the current state for any subset and order of the qubits, whatever mapper is in the pipeline, and leave the state unchanged. set_wavefunction, collapse_wavefunction and apply_qubit_operator change the state exactly as documented for the given qubit order and affect no other qubit. A query about an impossible outcome, an unallocated qubit, or with the wrong number of amplitudes or bits, is refused and changes nothing.',
 ['programs','inputs','configurations'],'all states, all ordered subsets of qubits, all bit strings and Pauli operators, with and without mapper',
 'Tests query one or two states in register order; permuted subsets, mapped qubits and queries between fused gates are not covered.',
 ['projectq/backends/_sim/_simulator.py','projectq/backends/_sim/_pysim.py','projectq/backends/_sim/_cppkernels/simulator.hpp'],
 'logical-to-mapped id conversion, id-to-bit mapping, expectation via applied Pauli terms',['state vector'],'return values of the query methods')
p('C04','Every qubit is allocated once, used only while alive and deallocated once',
 'For every order in which qubit handles are created, copied into registers, measured, dropped or flushed, the backend sees each qubit id allocated exactly once, every gate on it in between, and deallocated exactly once, never a command on an id that is not alive; ids are never reused. Deallocating a qubit that is not in a classical state is reported as an error, using or measuring a deallocated handle is rejected, and flushing with deallocation or dropping the engine leaves no live qubit.',
 ['histories','programs'],'all histories of allocation, handle dropping, measurement, flushing and meta blocks; all engine lists',
 'Lifetimes are driven by Python reference counting and depend on the order of deletions, on buffering engines and on meta blocks; tests exercise single orders.',
 ['projectq/cengines/_main.py','projectq/cengines/_basics.py','projectq/types/_qubit.py','projectq/types/_qureg.py','projectq/meta/_compute.py','projectq/meta/_loop.py'],
 'Qubit.__del__, active/live/dirty qubit sets, flush',['live qubits','id counter'],'commands received by the backend; exceptions')
p('C05','A Dagger block applies exactly the inverse of its body',
 'For every body built from invertible gates, ancilla allocations that are deallocated inside, and nested meta blocks, running it inside a Dagger block has the effect of the inverse unitary of the body, controls and their states included, and nothing of the body is executed before the block ends. A body with a measurement or another irreversible operation, or one that deallocates a qubit of the outside, is rejected. After the block the compiler pipeline is as before, so later gates are unaffected.',
 ['programs','histories'],'all block bodies and nestings',
 'Tests look at one or two bodies; the inverse of every gate type, with control states, ancillas and nesting, is needed.',
 ['projectq/meta/_dagger.py','projectq/ops/_command.py','projectq/ops/_metagates.py','projectq/ops/_gates.py'],
 'command buffer reversed at block exit, Command.get_inverse',['buffered commands'],'state reached; commands received by the backend')
p('C06','A Control block conditions its whole body on the given control states',
 'For every body and nesting, a Control block with given control qubits and control states acts as its body on the part of the state in which every control qubit has its required value, and as the identity on the rest, also when the body contains compute/action/uncompute sections, loops and daggers. Controls of nested blocks add up, each with its own state, a control set of size zero changes nothing, and the controls of a command are reported in a fixed order together with their states. After the block later gates are not controlled.',
 ['programs','inputs'],'all bodies, nestings, control qubit orders and control states (string, integer or default)',
 'Control states are attached by position and travel through copies, inverses and reorderings of commands; tests check single commands.',
 ['projectq/meta/_control.py','projectq/ops/_command.py','projectq/meta/_util.py'],
 'controls and control state added per command, kept sorted by qubit id',['control qubits and control_state of a command'],'state reached; commands received by the backend')
p('C07','Uncompute undoes exactly the matching Compute section',
 'A compute section followed by an action and an automatic uncompute acts as C A C^-1 for every C and A, whatever is nested around or inside; ancilla qubits allocated in the compute section are released by the uncompute and handles of qubits that leave their section stay valid. A custom uncompute section replaces the automatic one, an uncompute without compute and a missing or mismatched one are rejected, and the pipeline is restored afterwards. Commands of both sections carry their tags so that an enclosing Control need not control them.',
 ['programs','histories'],'all compute/action/uncompute bodies and nestings, with and without local qubits',
 'The bookkeeping of local qubits, copies of commands and nested sections depends on the program; tests use two or three programs.',
 ['projectq/meta/_compute.py','projectq/ops/_command.py','projectq/cengines/_basics.py'],
 'ComputeEngine stores commands, runs inverses in reverse order, re-creates local qubits',['stored commands','local qubit ids'],'state reached; commands received by the backend')
p('C08','A Loop block repeats its body exactly the given number of times',
 'For every body and every non-negative count, a Loop block has the effect of executing its body that many times in a row, nested loops multiply, and a count of zero executes nothing. It makes no difference whether the backend supports loop tags and receives the body once with the tag or the body is unrolled, and qubits allocated inside are distinct and fresh in every iteration. A negative or non-integer count, or (for every count other than one, which needs no section) a qubit that is allocated inside but not deallocated inside, is rejected.',
 ['programs','inputs','configurations'],'all bodies, counts, nestings, and backends with or without loop-tag support',
 'Tests run one loop body; ancilla renaming, nesting and the two delivery modes multiply.',
 ['projectq/meta/_loop.py'],'LoopEngine buffers and unrolls or tags commands, renames local qubits',['loop counter','buffered commands'],'state reached; commands received by the backend')
p('C09','The local optimizer never changes what a program does',
 'For every program and every cache size the program delivered behind the local optimizer has the same effect on the quantum state, including relative and global phase, and yields the same measurements in the same order with respect to the gates they depend on, as the program that entered it. Only gates that really are inverse to each other, mergeable or the identity (same targets, same controls and control states) are cancelled, merged or dropped. After a flush nothing is held back, and no command is duplicated.',
 ['programs','configurations','histories'],'all command streams x cache sizes x flush points',
 'The optimizer keeps a list per qubit and edits several lists at once; the interaction of multi-qubit gates, controls, cache size and flushes has unboundedly many cases and the tests cover a dozen.',
 ['projectq/cengines/_optimize.py','projectq/ops/_command.py','projectq/ops/_basics.py','projectq/ops/_metagates.py'],
 'per-qubit command lists, cancellation, merging, identity removal',['per-qubit lists'],'state reached; commands sent on')
p('C10','Automatic replacement is semantics preserving and ends in supported gates',
 'For every gate and every predefined decomposition rule that accepts it, also when the rule is run in reverse for the inverse gate and with any number of controls in any state, the replacement has the same effect as the gate up to a global phase and leaves work qubits clean. Every command delivered behind the replacer is one the following engines declare available; a command that cannot be replaced is reported as an error. For choosers without a memory of their own the result and cost of replacing a command do not depend on which commands were replaced before. (Controls on 0 are supported where the predefined control-state rule is in the rule set.)',
 ['programs','inputs','histories'],'all gates x parameters x numbers and states of controls x rules; all orders of commands',
 'Each rule has its own test for some parameters, but rule selection, reversal, control states and repeated use are combinations the tests do not enumerate.',
 ['projectq/cengines/_replacer/_replacer.py','projectq/cengines/_replacer/_decomposition_rule_set.py','projectq/cengines/_replacer/_decomposition_rule.py','projectq/setups/decompositions'],
 'AutoReplacer walks the class hierarchy, chooses a rule, resubmits its commands',['rule table'],'state reached; commands received by the next engine')
p('C11','Gate-set and device setups only let through what the target supports',
 'For every program that a setup (restricted gate set, linear chain, grid, trapped ion, IBM, IonQ, AQT, AWS) can compile, each command that reaches the backend is in the configured one-qubit, two-qubit or other gate set, or a classical instruction, and satisfies the connectivity of the target. The compiled program has the same effect on the qubits as the original up to a global phase, and the same measurement results. Unsupported requests (wrong argument types, unknown or offline device) are refused when the setup is requested.',
 ['programs','configurations'],'all programs x setups and their configurable gate sets',
 'Tests compile one example program per setup and look at the number of gates, not at their effect.',
 ['projectq/setups/restrictedgateset.py','projectq/setups/_utils.py','projectq/setups/linear.py','projectq/setups/grid.py','projectq/setups/trapped_ion_decomposer.py','projectq/setups/ibm.py','projectq/setups/ionq.py','projectq/setups/aqt.py','projectq/setups/awsbraket.py','projectq/setups/default.py'],
 'chain of replacers, filters, optimizers and a mapper',None,'commands received by the backend; state reached')
p('C12','Mappers respect the connectivity and track where every qubit is',
 'For every program the linear (open or cyclic), grid, manual, bounded and IBM five-qubit mappers deliver only two-qubit gates between connected locations, apply every incoming command exactly once and in an order that respects the order on each qubit, at the location where the qubit currently is, and never place two live qubits at the same location. Inserted swaps, the announced mapping and the logical ids attached to measurements stay consistent, so results are recorded for the right logical qubit. After a flush nothing is held back; programs that need more qubits than there are, or gates the mapper cannot place, are rejected with an error. The IBM five-qubit mapper (which never moves qubits) chooses the locations anew for the job that each flush ends, and the bounded mapper uses each location once per job.',
 ['programs','configurations','histories'],'all programs with any order of allocation, deallocation, flush and gates x device sizes and shapes',
 'Mapping depends on the whole history of allocations, swaps and flushes; tests inspect a few hand-made situations.',
 ['projectq/cengines/_linearmapper.py','projectq/cengines/_twodmapper.py','projectq/cengines/_manualmapper.py','projectq/cengines/_ibm5qubitmapper.py','projectq/cengines/_basicmapper.py','projectq/backends/_ionq/_ionq_mapper.py'],
 'stored commands, current_mapping, swap rounds from odd-even transposition sort',['current mapping','stored commands'],'commands sent to the next engine; current_mapping')
p('C13','CNOT direction and swap rewriting keep the program and obey the coupling map',
 'For every coupling map and every program whose two-qubit gates act on connected pairs, the swap-and-CNOT flipper delivers only CNOTs along directed edges of the map and no swap gates, with the same effect as the incoming program. Gates on unconnected pairs are reported as errors. All other commands and all tags pass unchanged and in order.',
 ['programs','configurations'],'all coupling maps on a few qubits x all command sequences',
 'Tests check single gates in one direction.',
 ['projectq/cengines/_swapandcnotflipper.py'],'Hadamard conjugation of CNOT, swap as three CNOTs',None,'commands sent to the next engine')
p('C14','Arithmetic gates compute the documented integer functions on every backend',
 'For every register width, constant, modulus and register content that meets the stated preconditions, the constant and quantum addition, subtraction, comparison, multiplication, division and modular gates map computational basis states as documented, linearly on superpositions, and only in the part of the state selected by the controls. The classical simulator, both general simulators and user-defined arithmetic gates agree. The inverse of each gate undoes it exactly.',
 ['inputs','programs','configurations'],'all widths up to the bound, all constants, all register contents, all controls',
 'Tests check one or two inputs per gate.',
 ['projectq/libs/math/_gates.py','projectq/backends/_sim/_simulator.py','projectq/backends/_sim/_pysim.py','projectq/backends/_sim/_cppkernels/simulator.hpp','projectq/backends/_sim/_classical_simulator.py','projectq/ops/_basics.py'],
 'BasicMathGate math functions emulated on basis states',None,'register contents, wavefunction')
p('C15','Arithmetic circuits equal the arithmetic functions they implement',
 'For every register width and content that meets the preconditions, the circuits produced by the arithmetic decomposition rules (Draper addition, modular addition and multiplication, ripple-carry addition with and without carry and control, subtraction, comparison, division, multiplication and their inverses) have the same effect as the emulated gate and return all work qubits to zero. Violated preconditions are rejected.',
 ['inputs','programs'],'all widths up to the bound, all register contents including superpositions, with and without control',
 'Tests check single additions or multiplications; carry chains have input-dependent corner cases.',
 ['projectq/libs/math/_constantmath.py','projectq/libs/math/_quantummath.py','projectq/libs/math/_default_rules.py'],
 'reversible adder circuits',None,'register contents and wavefunction after the compiled circuit')
p('C16','The unitary simulator reports the exact unitary of the program',
 'For every sequence of gates, allocations and flushes the unitary simulator\'s unitary is the product of the applied gates\' matrices on the allocated qubits, with qubit order given by allocation, for any order of targets and controls and any control states. Its history contains the completed unitaries of earlier measured or deallocated segments, in order. Measurement outcomes it reports follow the probabilities of the unitary applied to the zero state.',
 ['programs','histories'],'all programs over a few qubits, with allocations between gates and flushes',
 'Tests compare two or three circuits, all with targets in ascending order and all qubits allocated first.',
 ['projectq/backends/_unitary.py'],'full-size unitary built per gate with a qubit mask',['unitary','history','qubit map'],'UnitarySimulator.unitary, .history, measurement results')
p('C17','The resource counter reports exact counts, width and depth',
 'For every program the resource counter reports, per gate and per gate class with its number of controls, exactly the number of applied commands, the largest number of simultaneously live qubits, and per-qubit depth such that the reported maximum is the length of the longest chain of commands that share qubits. Allocation and deallocation do not add depth and reset correctly when an id ends, measurement results are as expected by the program and all commands reach the next engine unchanged. The text report lists the same numbers.',
 ['programs'],'all programs including controlled gates, allocation/deallocation and measurement',
 'Tests count one small circuit.',
 ['projectq/backends/_resource.py'],'counters updated per command',['gate_counts','gate_class_counts','max_width','depth'],'attributes and str() of the counter')
p('C18','Qubit operators form the Pauli algebra',
 'Sums, differences, products, scalar multiples, quotients and negations of qubit operators, in place or not, equal the corresponding operations on Pauli operators with complex coefficients for every input, leave their operands unchanged (except the target of an in-place operation), and keep terms in canonical form. isclose and compress decide and simplify up to the stated tolerance without changing the operator, and malformed terms are rejected. As gates, an operator\'s inverse and the merge of two operators are the inverse and the product in application order.',
 ['inputs','programs'],'all sequences of operations on operators over a few qubits',
 'Tests compute a few products; sign errors for single Pauli pairs and aliasing of operands need the full table and operation sequences.',
 ['projectq/ops/_qubit_operator.py'],'symbolic term dictionary with Pauli product table',['terms'],'terms of the resulting operators')
p('C19','Gate inverse, merge, identity and equality agree with the gates\' matrices',
 'For every gate g: g followed by its inverse is the identity, merging two gates yields a gate whose effect is the second after the first or is refused, a gate declared to be the identity is the identity, and two gates that compare equal have the same effect and, unless they are compared by their matrices up to rounding, the same hash. This holds for parameters over the whole real range (periodicity, tiny angles, negative values) and for controlled, daggered, tensored and matrix-defined gates.',
 ['inputs'],'all predefined gates, all pairs, all angles on a dense exact grid including values beyond one period',
 'Tests check a few angles; the rounding and periodicity cases and the pairwise combinations are not enumerated.',
 ['projectq/ops/_basics.py','projectq/ops/_gates.py','projectq/ops/_metagates.py','projectq/ops/_time_evolution.py','projectq/ops/_qubit_operator.py','projectq/ops/_uniformly_controlled_rotation.py'],
 'angle canonicalisation, get_merged, get_inverse, __eq__, __hash__',None,'gate objects and their matrices')
p('C20','Engines deliver every command once, in order, unchanged, to the backend',
 'For every program and every chain of pass-through engines (forwarders, command modifiers, instruction filters, tag removers, comparison and dummy engines, command printers, drawers), each command arrives exactly once, with the same gate, qubits, controls, control states and tags apart from the documented change, and in an order that keeps the order on every qubit; a flush reaches the backend behind all commands issued before it. A command is accepted by the chain if and only if the backend or an engine that handles it accepts it. A broken or unsupported pipeline is reported instead of silently dropping commands.',
 ['programs','configurations'],'all command streams x chains of engines',
 'Tests check each engine alone with one command.',
 ['projectq/cengines/_main.py','projectq/cengines/_basics.py','projectq/cengines/_cmdmodifier.py','projectq/cengines/_tagremover.py','projectq/cengines/_testengine.py','projectq/cengines/_replacer/_replacer.py','projectq/ops/_command.py','projectq/backends/_printer.py'],
 'send/receive/is_available chaining',None,'commands received by the backend')
p('C21','Time evolution and Pauli-operator gates act as their mathematical definition',
 'Applying a unitary Pauli operator or the time evolution under a Hermitian sum of Pauli terms acts on the given qubits as the operator or as exp(-i t H), for any order and subset of qubits, any controls, positive and negative times, commuting or non-commuting terms, whether emulated or decomposed. Terms on untouched qubits are not affected, an identity term contributes its phase under control, and non-unitary or non-Hermitian operators are rejected.',
 ['programs','inputs','configurations'],'all operators over a few qubits, times, qubit orders, controls, emulated or compiled',
 'Tests check few Hamiltonians; index compression, relative phases under control and the emulator\'s series need more.',
 ['projectq/ops/_time_evolution.py','projectq/ops/_qubit_operator.py','projectq/setups/decompositions/time_evolution.py','projectq/setups/decompositions/qubitop2onequbit.py','projectq/backends/_sim/_simulator.py','projectq/backends/_sim/_pysim.py','projectq/backends/_sim/_cppkernels/simulator.hpp'],
 'index rescaling, Taylor-series emulation, single-term circuits',None,'wavefunction')
p('C22','Remote job handling ends with the job\'s own result or an error',
 'For every sequence of server answers (queued, running, done, failed, cancelled, offline, connection error, malformed), submitting to IBM, AQT, IonQ, AWS or Azure submits the job at most once, polls only that job, and either returns exactly the result the server reported for it or reports a failure (an exception, or for the send functions that print errors an empty result); it stops after the configured number of retries, and failures after the submission name the job. A device that is offline, unknown or too small is never sent a job, and retrieving an existing job never submits one. Signal handlers are left as they were.',
 ['fault_sequences','schedules','configurations'],'all bounded sequences of server answers',
 'Tests script one success and a few failures; orders and repetitions of answers are a state machine.',
 ['projectq/backends/_ibm/_ibm_http_client.py','projectq/backends/_aqt/_aqt_http_client.py','projectq/backends/_ionq/_ionq_http_client.py','projectq/backends/_awsbraket/_awsbraket_boto3_client.py','projectq/backends/_azure/_azure_quantum_client.py'],
 'send/retrieve polling loops',['job state','retry counter'],'HTTP requests issued; return value or exception')
p('C23','Hardware backends send the program that was written and map results back',
 'For every supported program the job that a hardware backend submits describes the same gates on the same (mapped) qubits in the same order, with the same measured qubits and shots (AQT: angles to 1/100 of pi; phase angles modulo 2 pi). Returned counts are attributed to the right logical qubits: probabilities asked for after the flush sum over exactly the matching outcomes, and the recorded measurement of each qubit is its bit of the drawn outcome, under any qubit mapping and any order of measurement. Programs the device cannot run (unsupported gates, gates after a measurement) are refused, one job is sent per flush of a non-empty circuit, and results of earlier jobs do not leak into later ones. Measured qubits are kept allocated until the flush.',
 ['programs','inputs','configurations'],'all programs over the supported gates, mappings and returned distributions',
 'Tests run one three-qubit program with the identity mapping per backend.',
 ['projectq/backends/_ibm/_ibm.py','projectq/backends/_aqt/_aqt.py','projectq/backends/_ionq/_ionq.py','projectq/backends/_awsbraket/_awsbraket.py','projectq/backends/_azure/_azure_quantum.py','projectq/backends/_azure/_utils.py'],
 'command translation, measured ids, bit order of outcomes',['stored circuit','measured ids','probabilities'],'submitted job; get_probabilities; int(qubit)')
p('C24','High-level operations equal their definitions',
 'Applying QFT, entangling, state preparation, uniformly controlled rotations, multi-controlled and tensored gates, bit flips of registers, phase estimation and amplitude amplification has the effect given by their definition for every register size, parameter, control and qubit order, in the default setup and when run inversely. State preparation yields exactly the given normalised vector, phase estimation of an exactly representable eigenphase yields that phase, and amplitude amplification rotates by the defined angle.',
 ['inputs','programs'],'all sizes up to the bound, target states and angles over an exact grid, controls, inverse',
 'Tests use random or single examples on the decomposition only.',
 ['projectq/ops/_qftgate.py','projectq/ops/_state_prep.py','projectq/ops/_uniformly_controlled_rotation.py','projectq/ops/_metagates.py','projectq/ops/_gates.py','projectq/ops/_qpegate.py','projectq/ops/_qaagate.py','projectq/setups/decompositions'],
 'high-level gates and their decomposition rules',None,'wavefunction')
p('C25','Drawn and printed circuits show the program that ran',
 'For every program the circuit drawers and the command printer show, on the line of each qubit, exactly the gates applied to that qubit in the order of application, as one symbol over their targets and controls with the gate\'s name, from its allocation to its deallocation, and with controls on |0> told apart from controls on |1>. Gates that share or pass a line are not drawn on top of each other, every wire connects consecutive symbols of its line, and each line that is referred to exists. Attaching a drawer or printer neither changes the commands passed on nor the measurement results apart from the documented interactive or default input, which goes to the measured logical qubit. A location mapping or drawing order only permutes the lines. Plots refuse boxes over other qubits.',
 ['programs','configurations'],'all programs over a few qubits, with and without a backend behind, line mappings',
 'Tests compare a few strings of one circuit.',
 ['projectq/backends/_circuits/_drawer.py','projectq/backends/_circuits/_to_latex.py','projectq/backends/_circuits/_drawer_matplotlib.py','projectq/backends/_printer.py'],
 'per-qubit gate lines, popped in step for multi-qubit gates',['qubit lines'],'get_latex(), draw data, printed text')
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
