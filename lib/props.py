"""Which scenarios decide which property, and what their evidence says."""
RULES = {
  'state': 'hash of the abstract state (values of the objects of the pool, table state, open sessions, device position class) after every operation, merged over all runs',
  'assume': ['the compiler, libc and GMP are trusted', 'curve arithmetic is judged against an independent affine reference model in integer arithmetic (sim/ref.h)',
             'one thread runs at a time; weak-memory reorderings of the hardware are not simulated'],
}
REAL = ['all of /repo/src/*.c, compiled from the working tree', 'GMP (under the simulated allocator)', 'libc string and stdio formatting']
STUB = ['/dev/urandom (simulated stream with faults, behind open/fopen/read/fread/getrandom)', 'malloc/calloc/realloc/free and the GMP allocation hooks (simulated heap)',
        'process end: exit/abort/atexit/assert', 'fork (real fork, run one process at a time)', 'pthread mutexes/once/rwlocks/spinlocks and the thread scheduler']
PY = 'A run is one seed: a pool of Python objects over random small and named curves and fields with a model of each, and a random history of operations. Runs are distinct when the hash of their whole event log differs. '
HIST = 'A run is one seed: a swarm configuration (curves or fields, allocator behaviour, operation mix, enabled faults) and a random history of operations, each checked against a reference model as it is executed. Runs are distinct when the hash of their whole event log differs; every run executes at least one operation of the system under test and all its checks, so every distinct run counts as non-trivial. '
T = 'A run is one seed: several threads with random programs, executed one at a time under the seeded scheduler, which may preempt at every memory access and every call into GMP, libc or the allocator; each thread\'s results are compared with the same program run alone. Distinct = different event log hash (results and schedule). '
GO = 'A run is one seed: one process with the real Go binding, one to three tasks over a pool of Go objects (fields, curves, points, keys, signatures, ciphertexts) with a model of each, and a random history of operations. Runs are distinct when the hash of their whole event log differs. '
GOREAL = ['all of /repo/ecgo/*.go (without tests) and /repo/src/*.c, compiled from the working tree', 'the Go runtime, its collector and finalizers', 'GMP']
GOSTUB = ['/dev/urandom (simulated stream)', 'C heap of the library (arena without reuse, poisoned on release, counted)', 'automatic collection is off: the simulator decides every collection', 'task switches inside an operation happen at library entries and allocations, under the seeded scheduler']
CLI = 'A run is a sequence of commands of the eight programs on a simulated disk, each a process of its own built with ASan/UBSan; what every command prints and its status are compared with an independent reading of the files it was given (own armor and DER parser, reference arithmetic). '
CLIREAL = ['the eight programs of /repo/examples (main renamed), ecdh_der.c, elgamal_der.c and b64file.c, compiled from the working tree', '/repo/src/*.c', 'libtasn1, popt, libb64, libsodium (ciphers and hashes), GMP, glibc stdio']
CLISTUB = ['disk, standard input, output and error (memory with planned faults)', '/dev/urandom', "libsodium's random source", 'process kill and SIGPIPE']
PROPS = {
 'F01': dict(scenarios=[('plain', 'F01_history', 1)], rule=HIST + 'Objects are reused across fields, operands alias, memory handed out is stale or hostile.'),
 'P01': dict(scenarios=[('plain', 'P01_history', 1)], rule=HIST + 'Small curves make equal, opposite, neutral and small-order operands common.'),
 'P02': dict(scenarios=[('plain', 'P02_scalars', 3), ('plain', 'P02_named', 2)], rule=HIST + 'Tables are built, copied, moved, invalidated and reused between multiplications.'),
 'P03': dict(scenarios=[('plain', 'P03_channel', 1)], rule=HIST + 'Two parties exchange encoded points over a channel that truncates, extends, flips, splices, replaces, duplicates and reorders.'),
 'K01': dict(scenarios=[('plain', 'K01_exchange', 1)], rule=HIST + 'Several parties exchange public points over the simulated channel.'),
 'C01': dict(scenarios=[('plain', 'C01_objects', 2), ('plain', 'C01_named', 1)], rule=HIST + 'A pool of curve objects is defined, copied, compared, used, redefined and cleared.'),
 'R01': dict(scenarios=[('plain', 'R01_history', 3), ('plain', 'R01_threads', 1), ('tsan', 'R01_threads', 2)], rule=HIST + 'Processes fork at arbitrary points, threads interleave at memory accesses, the device delivers short or interrupted reads; which device bytes determine which value is recorded and must be disjoint.'),
 'R02': dict(scenarios=[('plain', 'R02_faults', 1)], rule=HIST + 'Device faults are injected inside draws; counterfactual replicas with single device bytes changed decide which bytes a value depends on.'),
 'R03': dict(scenarios=[('plain', 'R03_degenerate', 1)], rule=HIST + 'The device output is crafted so that nonces, r, s or ephemerals become zero, on curves of tiny order as well.'),
 'D01': dict(scenarios=[('plain', 'D01_sessions', 1)], rule=HIST + 'Signers and verifiers share schemes and exchange over a lossless channel in any order.'),
 'D02': dict(scenarios=[('plain', 'D02_channel', 1)], rule=HIST + 'Messages, keys and signatures are corrupted, truncated, spliced, swapped and replayed; verdicts are compared with a reference verifier.'),
 'D03': dict(scenarios=[('plain', 'D03_codec', 1)], rule=HIST + 'Encodings pass a damaging channel; acceptance is compared with the exact grammar.'),
 'E01': dict(scenarios=[('plain', 'E01_sessions', 1)], rule=HIST + 'Several sessions are open at once; ciphertext halves are swapped, mixed and replaced in transit.'),
 'T01': dict(scenarios=[('tsan', 'T01_separate', 1)], rule=T),
 'T02': dict(scenarios=[('tsan', 'T02_shared', 1)], rule=T + 'Shared inputs are compared with their snapshots afterwards.'),
 'M01': dict(scenarios=[('plain', 'M01_any', 1), ('plain', 'M01_lifecycle', 2), ('asan', 'M01_any', 1), ('asan', 'M01_lifecycle', 2)], rule=HIST + 'Allocator with canaries, poison and no reuse (plain) and AddressSanitizer/UBSan (asan); live blocks are counted at the end of the process.'),
 'M02': dict(scenarios=[('plain', 'M02_refused', 1)], rule=HIST + 'The n-th allocation of an operation (or all from the n-th on) is refused.'),
 'Y01': dict(scenarios=[('scen_py', 'Y01_history', 1), ('scen_pyasan', 'Y01_history', 1)], real=['all of /repo/python/*.c and /repo/src/*.c, compiled from the working tree', 'CPython 3.12 with its own allocator (debug hooks) or malloc under AddressSanitizer', 'GMP'], stub=['/dev/urandom (simulated stream)', 'C heap of the extension (passes through, counted)', 'the cyclic collector runs only when the simulator says so', 'hash modules (Python code of the harness which can run further operations)'], rule=PY + 'The history mixes operators, conversions and copies with dropping objects, collections, and operations run from inside hash callbacks.'),
 'Y02': dict(scenarios=[('scen_py', 'Y02_failures', 1), ('scen_pyasan', 'Y02_failures', 1)], real=['all of /repo/python/*.c and /repo/src/*.c, compiled from the working tree', 'CPython 3.12 with its own allocator (debug hooks) or malloc under AddressSanitizer', 'GMP'], stub=['/dev/urandom (simulated stream)', 'interpreter allocations (n-th refused on demand)', 'C heap of the extension (passes through, counted)', 'hash modules (Python code of the harness which misbehaves on demand)'], rule=PY + 'Calls with valid, invalid and random operands, misbehaving hash modules and refused interpreter allocations; repetitions of a call are compared in blocks, C heap and reference counts.'),
 'G01': dict(scenarios=[('scen_go', 'G01_history', 2), ('scen_go', 'G01_accounting', 1)], real=GOREAL, stub=GOSTUB, quick=36, rule=GO + 'Collections and finalizers run at library entries and allocations inside calls, right after last uses, and between operations; tasks are suspended inside calls while others proceed; accounting runs drop everything and count.'),
 'G02': dict(scenarios=[('scen_go', 'G02_operands', 1)], real=GOREAL, stub=GOSTUB, rule=GO + 'After every call all operands are read back and compared with their model values; results are compared with integer and group arithmetic for operands of any sign and size.'),
 'X01': dict(scenarios=[('scen_cli', 'X01_pipeline', 1)], real=CLIREAL, stub=CLISTUB, rule=CLI + 'Reads, writes, opens and the random device fail once, a few times or from then on at any byte, the stdio buffer has any size, processes are killed while reading or writing, and torn outputs go on to the next program.'),
 'X02': dict(scenarios=[('scen_cli', 'X02_damage', 3), ('scen_cli', 'X01_pipeline', 1)], real=CLIREAL, stub=CLISTUB, rule=CLI + 'Files are damaged between the commands: truncation, bit flips, lost pages, torn overwrites, splices and swapped lines of the text or of the DER under it, and well-formed files with unusual numbers, points and curve parameters.'),
 'M03': dict(scenarios=[('plain', 'M03_secrets', 1)], rule=HIST + 'Every released or moved block is scanned for registered secrets in GMP and byte form.'),
}
_N = 'Sampled, not exhaustive: a clean run is evidence for the histories, schedules and faults it executed. '
NOTES = {
 'F01': 'Every result of every operation is compared with integer arithmetic modulo p, over reused and aliased objects and a hostile allocator. Trusts GMP used by the reference.',
 'P01': 'Every result is compared with an independent affine group law, over all three curve types and tiny to named curves.',
 'P02': 'Every product is compared with reference double-and-add modulo the order; table states are randomised.',
 'P03': 'Round trip on every encoding; whatever decodes from a damaged encoding is checked against the curve equation by the reference.',
 'K01': 'Both parties must derive the reference secret under every delivery order; damaged deliveries must be refused or lie on the curve.',
 'C01': 'Equality, identity and definition verdicts are compared with the parameters the harness used; published named parameters are an embedded table.',
 'R01': 'Device bytes are unique per position, so sharing is decided by counterfactual replicas, by comparison of values and by recovered nonces. Assumes the device itself does not repeat.',
 'R02': 'Device faults are injected at open and read level on every draw path; influence of every byte range is decided by counterfactual re-execution.',
 'R03': 'Degenerate draws are constructed from the reference equations so that every redraw branch executes.',
 'D01': 'Every signature must verify in the library and in an independent verifier, at every later point of the history.',
 'D02': 'Verdicts are compared with an independent ECDSA verifier for every delivered triple.',
 'D03': 'Acceptance is compared with an independent parser of the two encodings.',
 'E01': 'Plaintexts are compared with reference decryption D - sC of what was delivered.',
 'T01': 'Interleavings at memory-access granularity under a sequentially consistent simulator; weak-memory effects and torn accesses are outside.',
 'T02': 'As T01, with shared inputs whose values and raw memory are compared with snapshots.',
 'M01': 'Memory errors are found by canaries and poison (plain) and by ASan/UBSan (asan); leaks by exact accounting of live blocks at process end.',
 'M02': 'One allocation, or all from some point on, is refused at a seeded position inside a call; the outcome must be an error, an orderly end, or the right value.',
 'Y01': 'Every value is read back through the public interface and compared with the pure-Python reference; lifetimes are judged by ASan and the debug allocator.',
 'Y02': 'Judged by exceptions, values of all objects, and exact counts. Objects whose __init__ never ran or runs twice are outside. Exceptions the interpreter itself loses without memory for a traceback are not attributed to the binding.',
 'X01': 'Status 0 requires that no read, write or open failed, and that the output is exactly what the reference expects of the stored inputs. Killed processes promise nothing. Refused allocations inside the programs are outside.',
 'X02': 'Files which are readable in more than one way (non-canonical DER lengths, a curve that is none of the known ones, coordinates not below p) may be refused or used, but without a crash, hang or memory error. Trusts the reference parser of armor and DER.',
 'G01': 'Results are compared with the reference at every collection instant drawn; released memory is poisoned, so later use shows as a wrong value or crash; live blocks are counted after everything was dropped. Memory accesses of two tasks are not interleaved inside one library function other than at its calls and allocations (T01 and T02 do that for the library).',
 'G02': 'Every operand is read back through the public interface after every call and compared with its model; results are compared with the pure-Python reference.',
 'M03': 'Released, moved and shrunk blocks and the cleared objects are scanned for the secrets in native and byte order. Registers and the stack are outside.',
}
for _k, _v in NOTES.items(): PROPS[_k]['note'] = _N + _v
NOT_APPLICABLE = {
 'Z01': 'Execution time and micro-architectural access patterns are not observable in a simulator that replaces time by event counts; no fault, schedule or history is involved.',
 'Z02': 'A statistical property of a pure function of the device output; sampling a simulated device measures the simulator, and no schedule or fault is involved.',
 'Z03': 'A computational hardness assumption over all adversaries; simulation of executions decides nothing about it.',
}
