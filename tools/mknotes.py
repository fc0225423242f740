#!/usr/bin/env python3
# keeps tools/notes.json: the MANIFEST texts of each check
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
X="exploration"
T=" Holds on the executions of the run (counted in the evidence); trusts the oracle in the harness, system OpenSSL 3.0 as primitive inside the module, and the file-call shim where named."
C={
"P01":("online state-machine monitor over random session/login histories",X,"After every call the state of every live session, token flags and the call's result are compared with an independent model of the session/login automaton, over two slots and both storages."),
"P02":("online PIN/lockout model over histories with restarts",X,"Every login and PIN change result and the PIN flags are compared with a model of the current PINs and failure counters; histories include restarts, context logins, SO resets and the NSS storage."),
"P03":("reference-model monitor of object visibility over random histories",X,"Every object call through every remembered handle, in every login state, is compared with a model; private objects must be unreachable without the user."),
"P04":("secret-flow monitor: every readable/exportable byte compared with known secrets",X,"Model keeps each key's secret and strictest protection through copies, derivations, attribute changes; searches, reads and wraps must not reveal it."),
"P05":("reference-model monitor of attribute policy and provenance",X,"Object model carries the true history of each key; every read of provenance attributes and every attribute change is judged against it."),
"P06":("reference-model monitor plus storage observation of R/O sessions",X,"Every creating, changing and destroying function is tried in R/O sessions; token contents and file bytes are compared before and after; session object lifetimes are modelled."),
"P07":("key-usage matrix monitor",X,"Keys with random usage attributes, types and allowed mechanisms are given to every init/wrap/unwrap/derive call; acceptance is compared with the rule computed from the attributes; always-authenticate keys are driven through login/operation interleavings."),
"P08":("map-model monitor over random object histories",X,"Handles, attribute values and complete search results are compared with a map model after every step, over several sessions and storages."),
"P09":("before/after-restart comparison monitor",X,"Complete dumps of all token objects are compared with the model across finalize, process exit and restart; keys are used again after it."),
"P10":("crash-image enumeration over recorded file operations, recovery oracle",'fault_enumeration',"The shim records all file operations of a call; for every prefix (kill) and for loss, tearing and subsets of unsynced writes (power loss) an image is built, opened by a fresh process and its whole content compared with {before, after}. Assumes file create/unlink/truncate are durable in order."),
"P11":("fault injection at every file operation plus bad-argument histories, state-unchanged oracle",'fault_enumeration',"Each storage call of an operation is failed (once or for good: I/O error, disk full, lock) and each template position broken; the state dumped afterwards, in memory and after restart, must equal the state before (error) or the state asked for (success)."),
"P12":("offline scan of every stored byte (recorded writes and files) for known secrets",X,"All bytes ever written by the process, all token files incl. freed pages and journals are searched for every PIN, master key and key value in raw, hex, base64, reversed forms; stored values of equal secrets must differ."),
"P13":("record tampering with use-after oracle",X,"Every stored field of protected records is flipped, truncated, swapped, replayed; reading and using the key afterwards must fail or give the original value."),
"P14":("differential monitor against independent AES/RSA reference code",X,"Outputs of every cipher mechanism compared with reference code of the harness (not OpenSSL modes) for random keys, parameters, lengths; inverse and refusals checked."),
"P15":("metamorphic monitor: any split equals one shot",X,"Random splits, empty parts, in-place buffers, dual-function and message parts compared with the single-part result and with the reference."),
"P16":("differential monitor for digests and MACs with tamper oracle",X,"Own SHA-1/2/3, HMAC, CMAC code is the oracle; verify is tried on every flipped/lengthened/shortened value."),
"P17":("differential and tamper monitor for signatures",X,"Signatures checked by own RSA/ECDSA arithmetic, reference signatures offered to the module, damaged ones must be refused."),
"P18":("tamper monitor for authenticated decryption with output-buffer watch",X,"Every component of AEAD and key-wrap inputs is damaged; the call must fail, leave no plaintext in the buffer and no object."),
"P19":("differential monitor for key derivation",X,"Own implementations of HKDF, SP800-108, TLS PRF, PBKDF2, SSH, X9.63, ECDH/DH etc. are compared with every derived value; attributes and refusals checked."),
"P20":("round-trip and reference monitor for wrap/unwrap",X,"Wrapped bytes compared/decoded with own code, unwrapped keys compared attribute by attribute and used; unsuitable keys and damaged blobs must be refused."),
"P21":("guarded output buffers with size-query/too-small/exact protocol monitor",X,"Each output goes to a buffer with guard bytes; query, too small and exact sizes are tried in random order and outcomes compared with the protocol."),
"P22":("online operation-state automaton",X,"Random sequences of init/update/final/one-shot/cancel/message calls over sessions are judged by an automaton of the active operations."),
"P23":("multi-threaded histories with linearizability/consistency checkers and injected delays",X,"Recorded histories of many threads with a delay-injecting interposer on lock primitives are checked offline: linearizable object/login/session state, progress (watchdog), cryptographic results."),
"P24":("AddressSanitizer, ThreadSanitizer, Valgrind memcheck on the real module under all workloads",X,"The module and harness rebuilt with -Zbuild-std sanitizers; memcheck with outputs marked undefined finds uninitialised output; dev build keeps std's unsafe-precondition checks on. OpenSSL and SQLite themselves are not instrumented (interceptors and memcheck cover them partly)."),
"P25":("structure-aware argument fuzzing with crash/hang/health monitors",X,"Every function with hostile arguments whose pointers are valid; abort, hang, undefined return codes or a broken token afterwards are violations."),
"P26":("multi-slot reference model and configuration monitor",X,"Object/login histories over several slots must match per-slot models; generated configuration files are compared with what the library reports and refuses."),
"P27":("distinctness and bias monitors over all random outputs",X,"All 16-byte blocks of random output, keys, IVs, salts, nonces over threads, forks, restarts and equal seeds must be distinct; bit bias counters."),
"P28":("HOTP history monitor with concurrency, crash points and RFC 4226 reference",X,"Every value is compared with the reference at the model's counter; concurrent histories must use each counter once; crash images must never go back."),
"P29":("life-cycle monitor",X,"Initialize/finalize histories incl. failing configurations and threads; every function tried uninitialised; state after reinit must be fresh."),
"P30":("advertised-versus-usable matrix monitor",X,"Each (mechanism, function) pair is tried under random allow/deny configurations and key sizes and compared with C_GetMechanismList/Info."),
"P31":("generated-key validity monitor",X,"Components of every generated/derived/imported key are checked by own number theory and curve arithmetic, attributes against the request; inconsistent requests must be refused."),
"P32":("save/restore monitor",X,"Digest states saved at random points, restored in any session any number of times, must give the uninterrupted result or the state must be declared unsaveable; damaged states must be refused. Sets of digest, signing and verifying operations are saved together. Runs on the module as built (OpenSSL 3.0: states unsaveable, refusals judged) and on a build with the guarded hook that makes states saveable; OpenSSL's own serialisation is not observed."),
"P35":("differential monitor of the TLS primitives and end-to-end monitor of connections against libssl",X,"The provider's own sources are built against /repo/ossl behind a thin front crate that supplies the two items /repo/ossl only offers with OpenSSL 3.2 (digest clone, Ed25519 parameters), and driven through one C entry. Primitives are compared with independent references; damaged inputs must be refused. Connections run in memory with libssl on the other side, fragmented at random, with and without one changed record. ML-KEM, ML-DSA and Ed448 are not available here; with OpenSSL 3.0 the provider as is offers only Ed25519 certificates, so for RSA and ECDSA the monitor puts the provider's own verifiers and suites together itself."),
"P34":("end-to-end migration monitor with a recording PKCS#11 module",X,"Random SoftHSM token directories (written by the harness with its own cryptography, format checked against the token in testdata) are given to the built softhsm_migrate; the target token is read afterwards and every object compared with the file, with an object created directly and by use of the key. Attribute maps are judged by a forwarding module that records C_CreateObject templates. The target's own refusals (decided by creating the same object directly) count as failures."),
}
na={"P33":"timing and cache side channels cannot be judged by sanitizers or functional runtime monitors in a shared sandbox: wall-clock noise would make any alarm unreliable, so no sound oracle is available in this family."}
json.dump({"na":na,"checks":{k:(a,b,c+T) for k,(a,b,c) in C.items()}},open(V+'/tools/notes.json','w'),indent=1)
