#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for titles and statements)."""
import json, os
CI="dwave/gate/circuit.py"; OB="dwave/gate/operations/base.py"; OO="dwave/gate/operations/operations.py"
SI="dwave/gate/simulator/simulator.pyx"; OG="dwave/gate/simulator/operation_generation.py"
CY="dwave/gate/registers/cyregister.pyx"; RG="dwave/gate/registers/registers.py"; PR="dwave/gate/primitives.py"
UN="dwave/gate/tools/unitary.py"; CN="dwave/gate/tools/counters.py"
QC="dwave/gate/qir/compiler.py"; QL="dwave/gate/qir/loader.py"; QI="dwave/gate/qir/instructions.py"; MP="dwave/gate/mixedproperty.py"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],hook_needed=None)))
p("C01","State-vector simulation computes the circuit's unitary action on |0...0>",
"Simulating a circuit of gates leaves in the circuit's state exactly the product of the gates' matrices, in the order they were applied and each on the qubits it was given (in the order given), acting on the all-zero state. With big-endian indexing the circuit's first qubit is the most significant bit of the state index; with little-endian indexing the result is the same state with the index bits reversed. Barriers have no effect.",
["programs","inputs","configurations"],"every circuit over the supported gates (single-qubit, parametric, controlled, SWAP, CSWAP, CCX), any number of qubits and registers, any choice and order of qubits, both endiannesses",
"The simulator tests sample a few 1-3 qubit circuits on fixed qubit orders; control/target placement above and below, gate order and the two endiannesses multiply into a space the tests sample only at isolated points.",
[SI,OG,OO],[("gate dispatch","apply_instruction/simulate in "+SI),("generated gate kernels",OG)],["simulate(circuit, little_endian=...)","Circuit.state"])
p("C02","Measurements give possible outcomes, set the right bits and collapse the state",
"When a circuit is simulated, every measured qubit yields a value that has non-zero probability in the state at that point, the value is stored in the bit paired with that qubit, and the state continues as the normalised projection on that value. The state kept with a measurement is the state just before it, and measuring a qubit again without an intervening gate on it gives the same value. Measurements are carried out in program order, also in the middle of a circuit, and a bit keeps the latest value written to it.",
["programs","histories"],"every circuit mixing gates and measurements (several qubits per measurement, any order of qubits and bits, repeated and mid-circuit measurements), every random seed",
"Tests measure one or two qubits at the end of two fixed circuits; joint outcomes, collapse of entangled states, mid-circuit measurement and qubit/bit pairing need all branches of a nondeterministic program.",
[SI,OG,OB],[("measurement and collapse","_measure/sample_qubit in "+SI),("pairing of bits","Measurement.__or__ in "+OB)],["simulate(circuit, rng_seed=...)","Circuit.state","Bit.value","Measurement.state","Measurement.bits"])
p("C03","Measurement statistics follow the Born rule, in simulation, samples and expval",
"Over many seeds the joint outcomes recorded by simulating a circuit occur with the probabilities given by the squared amplitudes of its state. Samples drawn from a simulated measurement list the requested qubits (by default the measured qubits, in measured order) with the joint distribution of the state before that measurement, as lists or bitstrings, without changing that state; an expectation value is the mean of such samples.",
["programs","inputs"],"every simulated circuit with measurements, any selection and order of sampled qubits, any number of samples",
"The tests check the shape of samples and one deterministic or two-outcome case; wrong marginals, missing correlations or swapped columns survive them.",
[SI,OG,OB],[("sampling","Measurement.sample/expval in "+OB),("projective measurement kernel",OG)],["Measurement.sample","Measurement.expval","simulate"])
p("C04","A conditional operation runs exactly when none of its condition bits is 0",
"During simulation an operation conditioned on bits is executed if and only if none of those bits has the value 0 at the moment the operation is reached; otherwise it has no effect on state or bits. The bits are read at that moment, so measurement results from earlier in the same run count; the same holds for conditional measurements and for operations with several condition bits.",
["programs","histories"],"every circuit with gates and measurements conditioned on any bits (written by measurements, set beforehand, or unset)",
"Three tests use one measurement of a basis state followed by a conditional X; overwriting, multiple condition bits, conditional measurements, chains and stale bits are not reached.",
[SI,OB],[("blocking","Operation.is_blocked in "+OB),("skip of blocked operations","apply_instruction in "+SI)],["simulate","Operation.conditional","Circuit.state","Bit.value"])
p("C05","Density-matrix simulation and density matrices agree with the pure state",
"Simulating a circuit in mixed-state mode yields the density matrix equal to the outer product of the state-vector result with its conjugate, for both endiannesses (and mixed-state mode supports whatever circuits state-vector mode supports, conditions included). The density matrix a circuit reports for a pure state is that same outer product; a mixed state is never reported as a pure state.",
["programs","configurations"],"every circuit over the supported gates, both endiannesses, pure and mixed simulation in any order",
"The mixed-state tests reuse the few state-vector circuits; conjugation on virtual qubits matters only for gates with complex entries in particular orders.",
[SI,CI],[("virtual-qubit simulation","_simulate_circuit_density_matrix in "+SI),("density_matrix/state properties",CI)],["simulate(mixed_state=True)","Circuit.density_matrix","Circuit.state"])
p("C06","Simulation runs are fresh, reproducible by seed and leave the program unchanged",
"Each simulation starts from the all-zero state and replaces the circuit's previous state, whatever was simulated or set before; two runs of the same program with the same seed and initial bit values give the same bits and state, also as separately built or copied circuits. Simulating changes neither the circuit's operations, registers, parameters nor lock, and later samples of a measurement refer to the latest run only; the states that an earlier run handed out stay as they were, and what the caller does to them does not affect later runs.",
["histories"],"every sequence of simulations (pure/mixed, endianness, seeds), state settings, unlocks and extensions of a circuit",
"Tests simulate each circuit once; leftovers of an earlier run show only in a second run.",
[SI,OB,CI],[("fresh state per run","simulate in "+SI),("state replacement","Circuit.set_state in "+CI)],["simulate","Circuit.state","Circuit.circuit","Measurement.sample"])
p("C07","A circuit only ever holds a valid state, replaced only on request",
"Setting a state succeeds only for a vector of length 2^n with norm 1 or a 2^n x 2^n matrix with trace 1 (n the number of qubits), and, if a state is already set, only when forced; a rejected attempt leaves the previous state untouched. With normalisation requested, the stored state is the given one divided by its norm (vector) or trace (matrix). After setting a vector the state is that vector, whatever is done to the given array later; after setting a matrix the pure state is reported as unavailable.",
["histories","inputs"],"every sequence of state settings with valid and invalid shapes and norms, forced or not, normalised or not",
"Tests set one state per circuit; order dependence between pure and mixed states and rejected overwrites are histories.",
[CI],[("validation","Circuit.set_state/_assert_state in "+CI)],["Circuit.set_state","Circuit.state","Circuit.density_matrix"])
p("C08","Gate matrices are the documented unitaries, for every parameter value",
"Every operation's matrix is the documented unitary of that gate, also when derived (controlled gates act on the target exactly when all controls are 1, and as the identity otherwise), for all parameter values, with rotations being exp(-i*theta*P/2) and a general rotation RZ(beta) then RY(gamma) then RZ(delta). Classes and instances report the same matrix where no parameters are needed; a matrix that needs parameters is not available without them; reading or modifying a returned matrix or decomposition never changes the operation, and the matrix cannot be replaced. Within the context of a circuit made of just the operation's qubits, in their order, the same matrix is read.",
["inputs"],"every operation class and its aliases, every real parameter value, with and without qubits",
"Tests compare each parametric gate at two or three angles; the claim is over all angles and signs.",
[OO,OB,UN,MP],[("matrix properties",OO),("controlled matrix","ControlledOperation.matrix in "+OB),("mixed class/instance properties",MP)],["Operation.matrix"])
p("C09","build_unitary gives the matrix of the circuit as it currently is",
"The unitary built from a circuit of single-qubit and controlled gates is the product of those gates in program order, with the circuit's first qubit as most significant; it always reflects the circuit's current operations and equals, column by column, the simulated action on basis states. A controlled unitary built from control and target indices applies the given matrix to the target exactly when all control qubits are 1, for any placement of control and target, and overlapping or out-of-range indices are rejected.",
["programs","histories","inputs"],"every circuit of single-qubit and (parametric) controlled gates, including circuits changed after an earlier call; every placement of controls and target",
"Tests build three circuits and a dozen placements, each once; staleness needs a second call on a changed circuit.",
[UN,OB],[("unitary construction",UN)],["build_unitary","build_controlled_unitary"])
p("C10","An operation created from a circuit behaves as that circuit",
"The matrix of a custom operation created from a circuit is the circuit's unitary; for a parametric circuit the i-th parameter of the operation replaces every occurrence of the circuit's i-th parameter. Using it neither changes the circuit nor other instances of the operation; it requires the circuit's number of qubits and parameters, and simulating a single-qubit custom operation has the effect of applying the circuit's gates.",
["programs","inputs"],"every circuit and parametric circuit of single-qubit and controlled gates, parameters repeated, skipped or out of order, any parameter values",
"Tests create operations from three circuits that use each parameter once and in order.",
[OB,UN],[("custom operations","create_operation in "+OB)],["create_operation","CustomOperation.matrix","simulate"])
p("C11","A register is an ordered collection of distinct items under any history",
"After any sequence of operations a register behaves as a list of distinct items in insertion order: length, iteration, indexing (negative too), slicing, membership and index lookup all agree, and adding an item that is already present is rejected. Copies, slices and sums are new registers holding the same items (identical objects, whatever values they carry), and later changes to one register never show in another. A frozen register rejects additions and stays unchanged.",
["histories","inputs"],"every sequence of creating, adding, copying, summing, slicing and freezing registers of qubits, bits, variables, numbers and other hashables",
"Tests exercise each operation once on fresh two- or three-item registers; the storage switches representation depending on item values and positions, which only histories reach.",
[CY,RG],[("index/label maps","cyRegister in "+CY),("freezing, sums","Register in "+RG)],["Register","QuantumRegister","ClassicalRegister","Circuit.qubits","Circuit.bits"],
[("index-to-label and label-to-index maps","sparse representation of the ordered items",CY)])
p("C12","Parameter registers grow on demand until frozen",
"Indexing a parameter register at i returns the i-th variable, first creating variables numbered consecutively up to i if the register is not frozen; the same index always yields the same variable object and existing variables are never renamed or reordered. Once frozen (as when its circuit's context has been left) indexing beyond the end fails and the register stays unchanged until it is unlocked together with its circuit.",
["histories"],"every sequence of indexing, adding, freezing, entering/leaving contexts and unlocking",
"Tests index one register a few times; interleavings with freezing and unlocking are histories.",
[RG,CI],[("self-incrementing indexing","SelfIncrementingRegister in "+RG),("freeze on context exit","ParametricCircuitContext.__exit__ in "+CI)],["SelfIncrementingRegister","ParametricCircuit.num_parameters"])
p("C13","Identification numbers are never reused, and identity follows them",
"Between two resets the identification numbers handed out are pairwise different, of at least the configured length and without end until all alphanumeric combinations are used, for any batch size, at batch and length boundaries too. Two qubits (or bits) are equal, and hash alike, exactly when they have the same identification number, independent of labels and values, and a qubit never equals a bit.",
["histories","inputs","configurations"],"every sequence of requests, refreshes and resets with any length and batch size; all pairs of qubits and bits",
"Tests draw from a handful of configurations; exhaustion of a length in the middle of a batch is a boundary in a long history.",
[CN,PR],[("ID batches","IDCounter in "+CN),("identity","Qubit/Bit.__eq__/__hash__ in "+PR)],["IDCounter.next","IDCounter.refresh","IDCounter.reset","Qubit.id","Bit.id"])
p("C14","Bits and variables keep their value until changed through the documented calls",
"A bit is unset, 0 or 1: setting it stores 0 or 1 according to the truth of the given value, is rejected without effect when a value is already set unless forced, and resetting unsets it; its truth value is false only for 0, it compares equal to its value (and to itself) and its identity never changes. A variable holds any value including 0 until set again or reset; variables are equal exactly when their names are equal, and a variable equals the value it holds.",
["histories"],"every sequence of set, forced set, reset and comparison on bits and variables, with any values",
"Tests do one or two calls per object.",
[PR],[("value protocol",PR)],["Bit.set","Bit.reset","Bit.value","Variable.set","Variable.value"])
p("C15","A circuit's qubits and bits always mirror its registers",
"At every moment the qubits of a circuit are the concatenation of its quantum registers in order of creation, without duplicates, and likewise for bits, with the reported counts agreeing; this holds after any sequence of adding (qu)bits and registers, passed or newly created, and of resets, also when earlier views were read before. Looking up a (qu)bit's register and index, or a (qu)bit by label (in all or in one register), agrees with the registers. Adding a (qu)bit or register label that is already in use, or an object of the wrong type, is rejected and changes nothing.",
["histories"],"every sequence of add/reset/lookup calls with default and explicit labels (any hashable), foreign and already used qubits and bits",
"Tests add one or two registers to fresh circuits; views are cached, so staleness depends on the interleaving of reads and writes.",
[CI,RG],[("cached concatenation","Circuit.qubits/bits in "+CI),("additions","Circuit.add_qubit/add_bit/add_qregister/add_cregister in "+CI)],["Circuit.qubits","Circuit.bits","Circuit.qregisters","Circuit.find_qubit","Circuit.get_qubit","Circuit.add_qubit"],
[("cached qubits/bits","concatenation of the registers, recomputed after a change",CI)])
p("C16","A circuit's program is exactly what was applied to it, in order",
"The operations of a circuit are exactly those created while its context was active and not frozen, or appended/extended directly, in that order, each on the qubits it was created with; operations created elsewhere, in a frozen context or while another circuit's context is active never appear. An operation that is rejected (wrong number of qubits or parameters, missing qubits, qubits that are not in the circuit, locked circuit) leaves the program unchanged. Removing an operation removes the first equal one only, and resetting empties the program and unlocks the circuit, and either unsets the bits and keeps the registers or, if asked to, removes the registers.",
["programs","histories","fault_sequences"],"every history of entering/leaving contexts of several circuits, freezing, creating valid and invalid operations, appending, extending, removing, locking and resetting",
"Tests use one circuit, one context and one failing call at a time.",
[CI,OB],[("append","Circuit.append in "+CI),("registration in the active context","Operation.__init__ in "+OB)],["Circuit.circuit","Circuit.append","Circuit.extend","Circuit.remove","Circuit.reset"])
p("C17","At most one context is active; contexts always close and lock their circuit",
"At any time at most one circuit context is active in the whole process; entering another is rejected and leaves the active one undisturbed, and leaving a context, normally or through an exception, deactivates it and locks its circuit. A locked circuit rejects new operations and re-entering its context until it is unlocked. Freezing applies to the active context only, is undone when the outermost freezing block is left (also through an exception), and is rejected outside of a context.",
["histories","fault_sequences"],"every nesting of contexts and freezing blocks over several circuits, with exceptions raised at any point, and any lock/unlock calls, made one after another from any thread",
"Tests cover single-level nesting on one circuit; protocol states multiply with exceptions and several circuits.",
[CI],[("context protocol","CircuitContext.__enter__/__exit__/freeze in "+CI),("lock","Circuit.lock/unlock/is_locked in "+CI)],["Circuit.context","CircuitContext.active_context","CircuitContext.freeze","Circuit.is_locked"],
[("active context","the single context receiving operations",CI)])
p("C18","Applying a circuit in another replays its operations on given qubits and bits",
"Applying a circuit in another circuit's context appends its operations in order, with each qubit and bit replaced by the one at the same position of those given (measurement targets and conditions included), and the given parameter values substituted for a parametric circuit's parameters. The applied circuit is left unchanged and can be applied again with other arguments without affecting what was appended before. A wrong number of qubits or bits, applying outside of a context or in its own context is rejected without appending anything.",
["programs","histories"],"every pair of circuits (also nested applications), every choice of qubits, bits and parameter values including 0, in plain, parametric and frozen contexts",
"Tests apply two small circuits once with default order.",
[CI,OB],[("application","Circuit.__call__/ParametricCircuit.__call__ in "+CI)],["Circuit.__call__","ParametricCircuit.__call__","Circuit.circuit"])
p("C19","Evaluating parameters substitutes exactly the variables, and only where asked",
"Evaluating an operation or parametric circuit replaces every variable by the given parameter at its position, or by the variable's set value if none are given, keeping fixed parameters, other operations, order and qubits; if a variable has neither, evaluation is rejected. Without in-place evaluation the original is unchanged; variables of an applied parametric circuit have no value again once the surrounding context is left. Operations appended to a circuit without parameters hold only values, while in a parametric circuit variables remain.",
["programs","histories","inputs"],"every parametric operation and circuit, mixed variables and values (including 0 and negative ones), in-place or not, before and after application",
"Tests evaluate one-operation circuits with non-zero values.",
[CI,OB,PR],[("evaluation","ParametricOperation.eval in "+OB+", ParametricCircuit.eval in "+CI),("resolution on append","Circuit.append in "+CI)],["ParametricOperation.eval","ParametricCircuit.eval","Variable.value"])
p("C20","Operations stay consistent: qubits, control, target, conditions, equality",
"An operation holds as many qubits as its kind requires (anything else is rejected) and a controlled operation's qubits are always its control qubits followed by its targets, however it was built and also after its qubits are reassigned. Re-applying an operation creates a new operation of the same kind, parameters and (unless others are given) qubits without changing the original. Two operations are equal exactly when kind, qubits and parameters are equal, for any pair of operations.",
["histories","inputs"],"every operation class, built with positional or keyword qubits, single qubits or sequences, reassigned, re-applied and compared in any combination",
"Tests construct each class once per form; reassignment and cross-kind comparison are not covered.",
[OB,OO],[("operation base classes",OB)],["Operation.qubits","ControlledOperation.control","ControlledOperation.target","Operation.__call__","Operation.__eq__"])
p("C21","OpenQASM output is a faithful program for the circuit",
"The OpenQASM 2.0 text of a circuit declares each quantum and classical register once with its size, in order, and contains one statement per operation in program order, with the operation's standard gate name, parameter values and register-qualified qubits in argument order, names consistent between declarations and statements (generated or, on request, the circuit's own labels). With gate definitions requested, each definition of a non-standard gate in use appears exactly once before use. Operations that cannot be expressed are rejected rather than dropped, and producing the text does not change the circuit.",
["programs","configurations"],"every circuit of gates over any register layout, all option combinations",
"Tests compare the text of a few circuits with one or two registers.",
[CI,OO,OB,RG],[("transpilation","Circuit.to_qasm in "+CI),("statement per gate","to_qasm in "+OO),("qubit mapping","Operation._map_qubits in "+OB)],["Circuit.to_qasm"])
p("C22","Compiled QIR performs the circuit's operations on the right qubits and results",
"The QIR compiled from a circuit calls, in program order, one instruction per gate with the circuit's parameter values and each qubit's position among all the circuit's qubits in argument order, then one measurement per measured qubit with the position of its bit among all bits, then records those results in that order, and declares the circuit's number of qubits and results. Text and bitcode describe the same program, identities are omitted, and whatever cannot be expressed (gates after measurements, non-base gates without external functions, conditions) is rejected. Compiling does not change the circuit.",
["programs","configurations"],"every circuit over the supported gates and measurements, any register layout, with and without external functions, text and bitcode",
"Tests compile a few one-register circuits and compare text.",
[QC,QI],[("compilation","qir_module in "+QC),("instruction table",QI)],["Circuit.to_qir"])
p("C23","Loading compiled QIR gives back the same circuit",
"Loading the QIR compiled from a circuit, as text or bitcode, yields a circuit with the same gates in the same order, with the same parameters and on the same qubit positions (identities left out), and the same measured-qubit-to-bit pairs in order, with at least every used qubit and bit present. Loading into an existing circuit appends to it, reusing its qubits and bits by position. A program written otherwise loads with its calls in their order, also measurements before gates; unknown ones are rejected.",
["programs"],"every circuit that compiles to QIR, any register layout, text and bitcode, loaded into new or existing circuits",
"Tests load fixed snippets with a few base gates.",
[QL,QC,QI],[("loading",QL)],["Circuit.from_qir","Circuit.to_qir"])
p("C24","A QIR module's compiled output follows its instruction list through any history",
"Whatever sequence of adding instructions, compiling, forced recompiling and resetting is performed on a QIR module, its output (text or bitcode) contains exactly the instructions present at the last compilation, in order and in their block, and stays the same until it is compiled again. Compiling twice without forcing is rejected; a reset empties the module or, if asked to keep instructions, the next compilation gives the same program again; an added instruction keeps its arguments, whatever happens to the list they were given in; the return value can be set again only when forced, and the name, target version and dynamic options a module was made with are those of every output.",
["histories"],"every sequence of add/compile/recompile/reset/return calls with valid and invalid arguments",
"Tests perform one or two of these calls per module.",
[QC],[("module lifecycle","BaseModule in "+QC)],["BaseModule.compile","BaseModule.qir","BaseModule.reset"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for x in P:
    assert x["statement"].count(". ")<=2,(x["id"],x["statement"].count(". "))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
