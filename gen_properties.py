#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script only so that the long texts stay readable).
import json,sys
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("R01","Random draws never share randomness, across threads, forks and re-reads",
 "Every random value the library draws (random field elements and points, signing nonces, encryption ephemerals) is made from output of the system random device that no other draw has used or will use. This holds across any interleaving of threads, across fork() at any point of a history (parent and child never repeat each other's values), and whatever short or interrupted reads the device returns. In particular no two signatures ever use the same nonce.",
 ["schedules","histories","fault_sequences"],
 "all histories of draws by several threads and forked processes, all schedules of them, all device read behaviours",
 "The tests draw a few values in one thread of one process from a healthy device; reuse needs a fork, a race or a partial read at a particular moment.",
 ["src/mpzurandom.c","src/field.c","src/ecpoint.c","src/ecdsa.c","src/ecelgamal.c"],
 [("device stream and reading of it","src/mpzurandom.c:mpz_urandom"),("random field element / point","src/field.c:mpFp_urandom, src/ecpoint.c:mpECP_urandom"),("nonce draw","src/ecdsa.c:mpECDSASignature_init_Sign, src/ecelgamal.c:mpECElgamal_init_encrypt")],
 [("open device stream","process-wide handle, shared by threads, inherited by forks","src/mpzurandom.c:_f_urandom")],
 ["values returned by the public draw functions","nonces recovered from signatures with the private key"])

p("R02","No random-dependent result is released when the random source fails",
 "If the system random device cannot be opened, cannot be read, ends early or keeps returning fewer bytes than asked for, no random value, signature or ciphertext is handed to the caller: the call either obtains all the device output it needs by retrying, or the process stops (or the call reports failure). A value that is handed over lies in the requested range and is fully determined by at least as many fresh device bytes as the range has.",
 ["fault_sequences","histories"],
 "all sequences of device faults (missing device, EIO, EINTR, EOF, short reads) at any draw of any history",
 "The tests always run on a working /dev/urandom; no error path of the random source is ever executed.",
 ["src/mpzurandom.c","src/field.c","src/ecdsa.c","src/ecelgamal.c","src/ecpoint.c"],
 [("open and read checks","src/mpzurandom.c:mpz_urandom"),("range reduction","src/mpzurandom.c:mpz_urandom")],
 [("read buffer","heap buffer filled from the device","src/mpzurandom.c")],
 ["value or process end of each draw under an injected device fault, against the device's own log"])

p("R03","Degenerate random output never yields a degenerate signature or ciphertext",
 "Whatever values the random device happens to return - including values that make a nonce, an ephemeral, or an intermediate of a signature zero - a signature or ciphertext that is returned is well formed: signature components are never zero and the signature verifies, and the ephemeral of a ciphertext is never zero and the ciphertext decrypts. Unusable draws are discarded and redrawn until a usable one arrives, and the operation ends once the device returns usable output.",
 ["fault_sequences","inputs","histories"],
 "all device outputs, including adversarially degenerate runs of any length, over curves of every size",
 "With a healthy device an unusable draw has probability about 2^-256; no test can reach the redraw paths.",
 ["src/ecdsa.c","src/ecelgamal.c","src/mpzurandom.c"],
 [("redraw loop","src/ecdsa.c:mpECDSASignature_init_Sign"),("redraw loop","src/ecelgamal.c:mpECElgamal_init_encrypt")],
 None,["signatures and ciphertexts produced from a simulated device"])

p("D01","Every signature made with a key verifies under its public key",
 "A signature produced for any non-empty message with any private key in range verifies for that message under the matching public key: immediately, after export and import in either encoding by another party, and on every later verification. Signing and verifying give the same verdicts no matter how many other signatures, schemes, keys and threads share the curve and scheme objects, and neither changes them.",
 ["schedules","histories","inputs"],
 "all keys, messages, hash sizes, curves, histories and interleavings of signers and verifiers sharing schemes",
 "The tests sign a handful of messages on a few curves sequentially with a fresh scheme each time.",
 ["src/ecdsa.c","src/ecpoint.c","src/field.c"],
 [("sign","src/ecdsa.c:mpECDSASignature_init_Sign"),("verify","src/ecdsa.c:mpECDSASignature_verify_cmp"),("export/import","src/ecdsa.c")],
 [("signature scheme","curve, generator with its precomputed table, hash","include/ecc/ecdsa.h")],
 ["verdict of verification by a second party after a simulated channel; a reference ECDSA verifier"])

p("D02","A signature, message or key altered in transit never verifies",
 "Verification accepts exactly the triples of public key, message and signature that satisfy the ECDSA equation: if the channel changes, truncates, swaps or replays any of them so that the equation no longer holds, verification reports failure. It does so without crashing and leaves every object usable, so that the genuine triple still verifies afterwards.",
 ["fault_sequences","histories","inputs"],
 "all corruptions, truncations, splices and replays of messages, signatures and public keys between two parties, at any point of a history",
 "The tests try a few wrong messages or keys; acceptance of a corrupted component needs particular bytes and a particular history.",
 ["src/ecdsa.c","src/ecpoint.c"],
 [("range and equality checks","src/ecdsa.c:mpECDSASignature_verify_cmp"),("import checks","src/ecdsa.c:mpECDSASignature_init_import_bytes")],
 None,["verdicts after a corrupting channel, compared with a reference verifier"])

p("D03","Signature encodings are exact and damaged encodings are rejected",
 "An exported signature always has the fixed length of its scheme and imports to the same signature. Import succeeds exactly for encodings of the right length that consist only of the encoding's own characters and carry two values in [1, order-1]; anything a lossy channel makes of an encoding is otherwise rejected with an error, never a crash, and leaves nothing to release.",
 ["fault_sequences","inputs"],
 "all signatures (including ones with leading zero bytes) and all truncations, extensions and byte changes of their byte and text encodings",
 "The tests export and import well-formed signatures and a few damaged ones; short values and odd characters are rare.",
 ["src/ecdsa.c"],
 [("padding and length","src/ecdsa.c:mpECDSASignature_export_bytes"),("import checks","src/ecdsa.c:mpECDSASignature_init_import_bytes, mpECDSASignature_init_import_str")],
 None,["import verdict and re-exported bytes against a reference codec"])

p("E01","ElGamal decryption inverts encryption, and only for its own ciphertext",
 "Decrypting a ciphertext with the private key whose public key encrypted it yields the original point, for every curve, plaintext point, key and ephemeral, in any order of deliveries and however many sessions are open. A ciphertext whose halves were altered, swapped or mixed between sessions decrypts to exactly the difference D - sC of the halves delivered and so to something other than the original, and inputs from mismatched curves or key orders are refused with an error.",
 ["histories","fault_sequences","inputs"],
 "all plaintexts, keys and ephemerals, all histories of sessions and all corruptions and splices of ciphertexts",
 "The tests encrypt and decrypt one random point at a time, back to back.",
 ["src/ecelgamal.c","src/ecpoint.c"],
 [("encrypt","src/ecelgamal.c:mpECElgamal_init_encrypt"),("decrypt","src/ecelgamal.c:mpECElgamal_init_decrypt")],
 None,["decrypted point against a reference model of the protocol"])

p("K01","Two parties that exchange public points derive the same shared secret",
 "If each party multiplies the generator by its own secret and sends the encoded result, then multiplying the received point by the own secret gives both the same point, whichever encoding was sent, whichever multiplication routine either used, and however deliveries are duplicated, delayed or reordered. A damaged delivery is either rejected or yields a valid point of the curve, never a point off it.",
 ["histories","fault_sequences","schedules","inputs"],
 "all curves, secrets (any integer), routines, encodings and delivery orders",
 "The tests check one exchange with random secrets on a few curves.",
 ["src/ecpoint.c"],
 [("scalar multiplication","src/ecpoint.c:mpECP_scalar_mul, mpECP_scalar_base_mul"),("codec","src/ecpoint.c:mpECP_out_bytes, mpECP_set_bytes")],
 None,["shared point of both parties and of a reference model"])

p("P01","Point arithmetic follows the group law in every object history",
 "Addition, doubling, subtraction, negation, copying, swapping and comparison of points give the group-law result for every operand pair of the same curve - equal, opposite, neutral, of small order, aliased with the result, freshly made, reused or carrying precomputed tables. Results depend only on the values of the operands, not on earlier contents of the objects, on the order of earlier operations or on what memory the allocator handed out, and operands and curve objects are left with their values unchanged.",
 ["histories","inputs","schedules"],
 "all curve types and parameters, all histories of point operations over a pool of reused and aliased objects, all allocator behaviours",
 "The tests check laws on random points held in fresh objects; exceptional operands, aliasing and stale state combine in too many ways to list.",
 ["src/ecpoint.c","src/ecurve.c","src/field.c"],
 [("addition laws","src/ecpoint.c:mpECP_add, mpECP_double"),("neutral handling","src/ecpoint.c:mpECP_set_neutral"),("copy and swap","src/ecpoint.c:mpECP_set, mpECP_swap, mpECP_cswap")],
 [("projective coordinates and neutral mark","value of a point","include/ecc/ecpoint.h")],
 ["affine coordinates and encodings of all points of the pool against an affine reference model, after each step"])

p("P02","Scalar multiplication is exact for every scalar, routine and table state",
 "Multiplying a point by an integer gives the sum of that many copies of the point, the integer being taken modulo the curve order, for every integer - zero, negative, equal to or beyond the order, or longer than the field. The plain routine and the precomputed-table routine agree, whether the table was built explicitly, implicitly or earlier, and after the point is overwritten, copied, swapped or cleared a stale table is never used.",
 ["histories","inputs","schedules"],
 "all curves, points and scalars, and all histories that build, use, move and invalidate precomputed tables",
 "The tests multiply by random scalars; the boundary scalars, curves whose order is longer than the field, and stale tables are not reached.",
 ["src/ecpoint.c"],
 [("ladder","src/ecpoint.c:mpECP_scalar_mul"),("table","src/ecpoint.c:mpECP_scalar_base_mul_setup, mpECP_scalar_base_mul")],
 [("precomputed table","multiples of the point, owned by the point","include/ecc/ecpoint.h:base_pt")],
 ["resulting point against an affine double-and-add model"])

p("P03","Point encodings survive the channel and damaged ones never leave the curve",
 "Every point, encoded in any of the supported forms and decoded by another party on the same curve, comes back as the same point, and every encoding has the announced length. Whatever bytes or characters arrive, decoding either reports an error or produces a point that satisfies the curve equation; it never crashes, and a failed decode leaves the receiving point safe to reuse or clear.",
 ["fault_sequences","inputs","histories"],
 "all points of all curves, all encodings, and all truncations, extensions, bit flips and splices of them",
 "The tests decode well-formed encodings and a few malformed ones; off-curve points and short or non-hex inputs are not sampled.",
 ["src/ecpoint.c","src/ecurve.c","src/field.c"],
 [("encode","src/ecpoint.c:mpECP_out_bytes, mpECP_out_str"),("decode","src/ecpoint.c:mpECP_set_bytes, mpECP_set_str"),("square root","src/field.c:mpFp_sqrt")],
 None,["decode verdict, curve equation and re-encoding of the decoded point against a reference codec"])

p("C01","Curve objects keep their identity through any history",
 "A named curve always denotes the same published parameters, and defining a curve succeeds exactly when its generator satisfies its equation. Two curve objects compare equal exactly when type, field, coefficients, order, cofactor and generator all agree, and copying, redefining, reusing or clearing one object, or computing with points on it, never changes another object or what its points mean.",
 ["histories","schedules","inputs"],
 "all curve types and parameters and all histories that define, redefine, copy, compare, use and clear several curve objects",
 "The tests define each named curve once in a fresh object; confusion between curves needs a reused object or a pair that differs in one parameter.",
 ["src/ecurve.c","src/ecpoint.c"],
 [("definition and generator check","src/ecurve.c:mpECurve_set_mpz_ws, mpECurve_set_str_ws, mpECurve_set_named, mpECurve_point_check"),("comparison","src/ecurve.c:mpECurve_cmp"),("copy","src/ecurve.c:mpECurve_set")],
 None,["parameters, comparison verdicts and generator multiples against a reference table"])

p("F01","Field arithmetic is exact in every object history",
 "Every field operation returns the residue that integer arithmetic modulo the prime gives, in range, for every operand including zero, aliased operands and results, and elements that earlier belonged to another field or were assigned from out-of-range integers. Inversion and square root report failure exactly when no inverse or root exists and otherwise return one, and results do not depend on earlier contents of objects, on which fields were used before or on what memory the allocator handed out.",
 ["histories","inputs","schedules"],
 "all primes up to the supported size, all operands and all histories of operations over a pool of reused objects, all allocator behaviours",
 "The tests check identities on random elements in fresh objects of a few fixed primes.",
 ["src/field.c"],
 [("arithmetic","src/field.c:mpFp_add, mpFp_sub, mpFp_mul, mpFp_sqr, mpFp_pow_ui, mpFp_inv, mpFp_sqrt"),("field registry","src/field.c:_mpFp_field_lookup")],
 [("element","fixed-width limb vector plus field handle","include/ecc/field.h")],
 ["integer value of all elements of the pool against arbitrary-precision arithmetic, after each step"])

p("T01","Threads working on separate objects do not interfere",
 "Threads that each use only their own fields, curves, points, keys, schemes and signatures get exactly the results they would get alone, under every interleaving, including the first use of a field, of a curve or of the random source by several threads at once. No interleaving crashes, loses or corrupts state, or blocks forever.",
 ["schedules"],
 "all interleavings of any number of threads at the granularity of single memory accesses",
 "All tests are single-threaded.",
 ["src/field.c","src/mpzurandom.c","src/ecpoint.c"],
 [("field registry","src/field.c:_mpFp_field_lookup"),("random source","src/mpzurandom.c:mpz_urandom")],
 [("field registry","process-wide list of fields, filled on first use","src/field.c:_static_field_list"),("device stream","opened on first use","src/mpzurandom.c:_f_urandom")],
 ["per-thread results against the same programs run one after another"],
 None)

p("T02","Curves, keys and schemes can be shared by threads that only use them",
 "Several threads may at the same time multiply, add, compare, export, sign, verify, encrypt and decrypt with the same curve, public key, private key, ciphertext and signature scheme objects as inputs, and each gets the result it would get alone under every interleaving. Using an object as an input never changes it, nor any other object than the declared result.",
 ["schedules","histories"],
 "all interleavings of threads whose inputs are shared and whose results are private",
 "All tests are single-threaded and look only at results, not at inputs after the call.",
 ["src/ecpoint.c","src/ecdsa.c","src/ecelgamal.c","src/ecurve.c"],
 [("input handling of addition","src/ecpoint.c:mpECP_add"),("affine conversion on export","src/ecpoint.c:_mpECP_to_affine"),("scheme","src/ecdsa.c")],
 [("shared curve object","referenced by every point","include/ecc/ecpoint.h:cvp")],
 ["per-thread results, and values of all shared inputs, against a sequential run"],
 None)

p("M01","No history of calls corrupts or leaks memory",
 "Any sequence of documented calls - including failing ones, repeated initialisation after clearing, reuse across curves and early exits on rejected input - reads and writes only live memory it owns and never depends on uninitialised memory. When every object made has been cleared and returned buffers freed, and the process ends normally, all memory the library obtained has been given back.",
 ["histories","fault_sequences","inputs"],
 "all histories of calls including every error exit, under an allocator that poisons, moves and never reuses blocks",
 "Leaks, stale reads and overruns do not change the verdicts of the unit tests, which run on an ordinary allocator.",
 ["src/field.c","src/ecurve.c","src/ecpoint.c","src/ecdsa.c","src/ecelgamal.c","src/mpzurandom.c","src/safememory.c"],
 [("init/clear pairs","all modules"),("fixed-size limb buffers","src/field.c, src/ecpoint.c")],
 None,["every access of library code against the simulated heap; live blocks at the end of each history"])

p("M02","A failed allocation never yields a wrong result",
 "If an allocation fails anywhere inside a call, the call reports an error or the process stops in a controlled way (abort or exit); it never returns a wrong value as a success, never continues with partly built state and never dereferences the missing memory.",
 ["fault_sequences","crash_points"],
 "failure of any single allocation, or of all from some point on, in any history",
 "No test makes an allocation fail.",
 ["src/field.c","src/ecurve.c","src/ecpoint.c","src/ecdsa.c","src/mpzurandom.c","src/safememory.c"],
 [("allocation checks","src/field.c:_mpFp_field_lookup, src/ecdsa.c, src/ecpoint.c, src/mpzurandom.c, src/safememory.c:_safe_clean_realloc")],
 None,["end of the process or result of the call when the n-th allocation fails"])

p("M03","Secrets are erased from memory before it is released",
 "With safe cleaning switched on, memory that the library or the arithmetic library under it gives back to the allocator, or moves away from when a number grows, no longer contains any private key, signing nonce, encryption ephemeral, or the random bytes they were made from. This holds on every path, including redraws and rejected operations, and a cleared object holds no part of its former value.",
 ["histories","fault_sequences"],
 "all histories of key handling, signing, encrypting and decrypting, including redraw and error paths, at any growth or shrinkage of numbers",
 "Erasure is invisible to the results the tests check; the tests never look at released memory.",
 ["src/safememory.c","src/mpzurandom.c","src/field.c","src/ecpoint.c","src/ecdsa.c","src/ecelgamal.c"],
 [("erasing realloc and free","src/safememory.c"),("erasing clear","src/field.c:mpFp_clear, src/ecpoint.c:mpECP_clear, src/ecurve.c:mpECurve_clear")],
 None,["contents of every block at the moment it is released, searched for the secrets of the run"])

p("Y01","The Python binding computes what the library computes in any object history",
 "Field elements, curves, points, keys, signatures and ciphertexts used from Python through operators, conversions and copies give the same values as integer and group arithmetic on any size of integer operand, negative and very large ones included, and operations never change their operands. Objects stay valid as long as anything refers to them whatever the order in which the others are dropped and collected.",
 ["histories","schedules","inputs"],
 "all histories of Python operations with objects dropped and collected at any point",
 "The Python tests use a few fixed operations and keep all objects alive to the end.",
 ["python/pyfield.c","python/pypoint.c","python/pycurve.c","python/pyecdsa.c","python/pyecelgamal.c","python/pygmplong.c"],
 [("number conversion","python/pygmplong.c"),("object slots and lifetimes","python/pyfield.c, python/pypoint.c, python/pycurve.c")],
 None,["values seen from Python against Python integers and an affine model; simulated heap under the extension"])

p("Y02","Python callers get exceptions, not crashes or leaks, when something fails",
 "A wrong type, wrong curve, malformed text or bytes, or a failed memory allocation inside the interpreter surfaces as a Python exception (or an orderly refusal) and leaves all existing objects intact; it never kills the interpreter. Repeating any successful or failing operation does not make the number of live objects and blocks grow.",
 ["fault_sequences","histories","inputs"],
 "all argument type and value combinations and failure of any allocation, at any point of a history",
 "The Python tests pass well-typed arguments and never exhaust memory.",
 ["python/pyfield.c","python/pypoint.c","python/pycurve.c","python/pyecdsa.c","python/pyecelgamal.c","python/pygmplong.c"],
 [("argument parsing and reference counts","python/*.c")],
 None,["exception or result of each call, interpreter survival, live block counts"])

p("G01","The Go binding is unaffected by garbage collection at any instant",
 "Go programs get the same results no matter when the garbage collector runs and finalises objects, including in the middle of a call and right after the last visible use of an operand, and no matter how goroutines interleave on separate objects. Memory owned by a Go object is released exactly once, only after the object is unreachable and no call still uses it, and is not retained once the collector has run.",
 ["schedules","histories"],
 "all collection and finalisation instants in any history of operations by several goroutines",
 "The Go tests are short enough that the collector rarely runs, and never inside a C call.",
 ["ecgo/field.go","ecgo/point.go","ecgo/curve.go","ecgo/ecdsa.go","ecgo/ecelgamal.go"],
 [("finalizers","ecgo/*.go")],
 None,["results of Go programs with collections forced inside C calls"])

p("G02","Go operations never modify their operands",
 "Operations of the Go binding change only their receiver or result: big integers, byte slices, points, field elements, curves and keys passed in keep their values, and the results equal those of integer and group arithmetic for operands of any sign and size.",
 ["histories","inputs"],
 "all operations, operands (negative, zero, huge, aliased with the receiver) and orders of use",
 "The Go tests do not re-read operands after the call and use non-negative in-range integers.",
 ["ecgo/field.go","ecgo/point.go","ecgo/curve.go","ecgo/ecdsa.go","ecgo/ecelgamal.go"],
 [("integer conversion","ecgo/field.go")],
 None,["operands before and after each call"])

p("X01","The command-line programs never report success for output they did not write",
 "When generating, deriving, encrypting, decrypting, signing or verifying with the command-line programs, an exit status of zero means that the complete output was written and that it is correct for the inputs as stored; any read or write error, full disk, missing file or failing random device gives a nonzero status. With no faults the pipelines recover the original message for every curve and message, binary ones of any length included (signing refuses the empty message).",
 ["fault_sequences","crash_points","inputs"],
 "all curves, message sizes and contents and all faults of the files and streams used by the programs",
 "No test runs the command-line programs.",
 ["examples/ecdh_gen.c","examples/ecdh_pub.c","examples/ecdh_enc.c","examples/ecdh_dec.c","examples/ecdsa_sign.c","examples/ecdsa_verify.c","examples/ecelgamal_enc.c","examples/ecelgamal_dec.c","examples/b64file.c","examples/ecdh_der.c","examples/elgamal_der.c"],
 [("stream reading and writing","examples/b64file.c"),("exit status and output stream","main() of each program"),("DER coding","examples/ecdh_der.c, examples/elgamal_der.c")],
 None,["exit status, output bytes and simulated disk"])

p("X02","Damaged key and message files are refused without crashing",
 "Fed any truncated, bit-flipped, spliced or torn key, message, signature or ciphertext file, each command-line program ends in bounded time either with a nonzero status and a diagnostic or with a result that is correct for what the file actually says; it does not crash, does not hang and does not use a key or point that is not on its curve.",
 ["fault_sequences","inputs"],
 "all truncations, bit flips, splices and torn writes of every file the programs read",
 "No test runs the command-line programs.",
 ["examples/b64file.c","examples/ecdh_der.c","examples/elgamal_der.c","examples/ecdh_dec.c","examples/ecdsa_verify.c","examples/ecelgamal_dec.c"],
 [("parsing and validation","examples/b64file.c, examples/ecdh_der.c, examples/elgamal_der.c")],
 None,["exit status and output after a simulated disk damaged the input"])

p("Z01","Scalar multiplication takes time independent of the secret scalar",
 "The running time and memory access pattern of scalar multiplication, signing and decryption do not depend on the value of the private key, nonce or ephemeral.",
 ["inputs"],"all secret scalars",
 "Timing is not measured by any test.",
 ["src/ecpoint.c","src/field.c"],[("ladder with conditional swaps","src/ecpoint.c:mpECP_scalar_mul")])
p("Z02","Random values are statistically uniform over their range",
 "Given a uniform random device, random field elements, points and nonces are uniformly distributed over their range up to a negligible bias.",
 ["inputs"],"all ranges",
 "The tests draw few values and apply no statistics.",
 ["src/mpzurandom.c"],[("reduction of twice the needed bytes","src/mpzurandom.c:mpz_urandom")])
p("Z03","Signatures and ciphertexts leak nothing without the private key",
 "Without the private key nobody can produce a verifying signature for a new message or learn the plaintext point of a ciphertext with feasible effort.",
 ["inputs"],"all efficient adversaries",
 "A computational hardness assumption, not testable.",
 ["src/ecdsa.c","src/ecelgamal.c"],[("discrete logarithm problem","choice of curves")])

with open(sys.argv[1] if len(sys.argv)>1 else "/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
