NOTES = {
 "C01": ("TLA+ specification with exact amplitudes (ring Z[omega]), TLC exhaustive + replay of TLC-generated programs and TLC validation of the real states",
         "Every gate of the library on every placement (up to 3 qubits exhaustively, more in random programs) with angles that are multiples of pi/2 or have rational cosines (3/5, 5/13), sparse states for random programs of 4 to 12 qubits: the specification computes the exact state, the real state is compared amplitude by amplitude in both endiannesses."),
 "C02": ("TLA+ specification of projective measurement, TLC exhaustive + TLC validation of recorded simulation runs (state membership in the specification's outcomes)",
         "Programs with measurements in every position; the recorded outcomes select the branch of the specification, which must be possible, and the exact collapsed state and kept states are compared; also with sparse states on up to 12 qubits."),
 "C03": ("TLA+ specification of outcome distributions computed exactly, compared with frequencies from many seeds of the real simulator and sampler",
         "The specification emits the exact joint distribution; frequencies over fixed seeds are tested with bounds far beyond chance (probability of a false alarm below 1e-9)."),
 "C04": ("TLA+ specification of conditional execution, TLC exhaustive + TLC validation of recorded simulation runs",
         "Conditions over one to three bits, initial bit values and bits measured in the same run, on gates and measurements; programs run once, histories of several runs, and sparse states for up to 12 qubits."),
 "C05": ("TLA+ specification of pure and mixed simulation with exact amplitudes, replay of TLC-generated programs and TLC validation",
         "Density matrices in both endiannesses against the exact outer product; set states, histories of several runs in changing modes, sparse states for up to 6 qubits; one known finding (measurements in mixed mode)."),
 "C06": ("TLA+ specification of a simulation life cycle (runs, kept states, sampling, program unchanged), TLC exhaustive + trace validation of multi-run histories",
         "Histories of simulating, appending, removing, changing parameters, setting states and bits, sampling, rebuilding and copying the circuit, arrays of earlier runs overwritten; each run is compared with the exact specification state starting from zero, and seeds are repeated; also with sparse states on up to 9 qubits."),
 "C11": ("TLA+ specification of a heap of registers, TLC exhaustive + TLC trace validation of generated histories on the real code",
         "Every transition of the specification with 2 registers, 4 items, 3 calls (and 3 registers, 4 calls at the design level) is explored; a test per transition and long random histories are replayed on real registers holding items of every kind and each observation is validated by TLC."),
 "C07": ("TLA+ specification of the state slot, TLC exhaustive + TLC trace validation of generated histories on the real code",
         "Arrays of every kind (vectors, matrices, other shapes and types), size, norm/trace factor (also zero, NaN, negative, imaginary), forced or not, normalised or not, circuits growing in between; every transition within small constants and random histories."),
 "C12": ("TLA+ specification of parameter registers and the contexts that freeze them, TLC exhaustive + TLC trace validation of generated histories on the real code",
         "Two registers/circuits and five calls exhaustively, four registers and thirty calls at random: indexing (negative and beyond the end), adding, freezing, copying, entering and leaving contexts (also by exceptions), locking, unlocking, resetting."),
 "C13": ("TLA+ specification of the identification-number counter and identity, TLC exhaustive + TLC trace validation of recorded runs (the numbers handed out are inputs the specification constrains)",
         "Lengths and batch sizes around every boundary, exhausting all numbers of lengths 33..36, batches spanning several lengths; identity matrices of qubits and bits after copies, relabelling and resets."),
 "C14": ("TLA+ specification of bits and variables, TLC exhaustive + TLC trace validation of generated histories on the real code",
         "All histories of up to five calls on two bits and two variables, random ones on four each; values of every truthiness and type, equality, hash, identity and truth observed after each call."),
 "C08": ("TLA+ specification deriving every gate matrix as Laurent polynomials in exp(i theta/2) (valid for all parameter values), TLC invariants over all parameters + TLC trace validation of generated histories on the real code",
         "Unitarity, rotation addition and full turns are proved by TLC on the polynomials, i.e. for all angles; the real matrices are compared with the polynomials at special, huge, tiny and random angles in histories of creating, evaluating, re-applying operations and writing into returned matrices."),
 "C09": ("TLA+ specification of the unitary of a program by exact columns, TLC exhaustive + replay of TLC-generated histories of changing and building; closed-form specification of controlled unitaries enumerated completely",
         "All histories of five calls on two qubits and random ones of fourteen on up to six; each unitary is compared entrywise with the exact one and with the simulated columns; all control/target placements (also unusable ones) up to four qubits for controlled unitaries."),
 "C10": ("TLA+ specification of operations made from circuits (expansion into library gates, exact unitaries), TLC exhaustive + TLC trace validation of generated histories on the real code, matrices compared with the exact ones",
         "Circuits, classes and instances (also nested: custom operations inside circuits that become custom operations), parameters in any order of use, repeated, unused, missing or re-evaluated; matrices of instances and classes and simulated programs are compared entrywise; circuits and other instances are observed after every call."),
 "C16": ("TLA+ specification of circuits as programs over a heap of operations, TLC exhaustive + TLC trace validation of generated histories on the real code",
         "Creating operations of every kind inside and outside contexts (qubits of the circuit, of others, too many, none), re-applying, appending and extending, removing, locking, resetting, refilling; every transition of five calls within two circuits sharing a qubit and random histories of 36 calls on up to four circuits."),
 "C17": ("TLA+ specification of contexts as a stack of blocks, TLC exhaustive + TLC trace validation of generated histories on the real code",
         "Entering, freezing (also nested, also through other managers), leaving normally and by exceptions, locking and unlocking, with operations and applied circuits inside: all histories within the small constants and random ones of 36 calls."),
 "C18": ("TLA+ specification of applying circuits to qubits, bits and parameters of another circuit, TLC exhaustive + TLC trace validation of generated histories on the real code",
         "Circuits with gates, custom operations, measurements, conditions, variables and values applied to permuted, repeated and foreign qubits, with and without bits, repeatedly and transitively (applied circuits applied again), while operations of the applied circuit change afterwards."),
 "C19": ("TLA+ specification of variables and evaluation, TLC exhaustive + TLC trace validation of generated histories on the real code",
         "Setting and unsetting variables, evaluating operations and circuits in place and as copies with and without parameters, applying parametric circuits, moving operations with variables into circuits with and without parameters."),
 "C15": ("TLA+ specification of a circuit's registers (additions, labels, lookups, resets), TLC exhaustive + TLC trace validation of generated histories on the real code",
         "Adding qubits, bits and registers with default, falsy, equal-but-different-typed and colliding labels, foreign and repeated objects, resets with and without registers; views, counts, lookups by object, label and register after every call, views read before or not."),
 "C20": ("TLA+ specification of operations (qubits, control, target, parameters, conditions, equality), TLC exhaustive + TLC trace validation of generated histories on the real code",
         "Every operation class, controlled classes derived in every way, built positionally or by keyword, inside or outside contexts, reassigned, conditioned, re-applied; equality of every pair observed after each call."),
 "C22": ("TLA+ specification of compilation to QIR, TLC exhaustive + TLC trace validation of generated histories on the real code (texts and bitcode read by an independent parser)",
         "Circuits with any layout of registers and labels, every gate, aliases, custom operations, barriers, identities, measurements with and without bits, conditions, extreme parameter values; with and without external functions, text and bitcode, through the circuit or the module; circuits extended, cleared and compiled again."),
 "C23": ("TLA+ specification of loading QIR (inverse of the compilation specification), TLC exhaustive + TLC trace validation of generated histories on the real code",
         "Compiled and hand-written programs (other names, blocks, orders of declarations) loaded as text and bitcode into new or existing circuits with several registers, loaded results compiled and loaded again."),
 "C24": ("TLA+ specification of the life cycle of a QIR module, TLC exhaustive + TLC trace validation of generated histories on the real code",
         "All histories of up to seven calls on one module and random ones of thirty-six on three (also sharing a context, also made from circuits): instructions of every kind, also failing ones, external functions, return values, compiling (forced, strict), reading, resetting; the outputs of all compiled modules are read after every call."),
 "C21": ("TLA+ specification of the OpenQASM text of a circuit as structured emission, TLC exhaustive + TLC trace validation of generated histories on the real code (texts read by an independent parser)",
         "Any layout of registers (none, empty, grown in between, falsy and odd labels), every gate, custom operations (also parametric, unnamed), conditions, barriers, measurements, operations without a definition, parametric circuits; all option combinations; single operations with and without qubits; the definitions are checked to do what the gates do."),
}
