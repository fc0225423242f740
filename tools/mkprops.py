#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["PKCS#11 function list of libkryoptic_pkcs11.so"]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("P01", "Session and login state machine",
  "Every session of a token reports the state implied by how it was opened (R/O or R/W) and by who is currently logged in to that token (nobody, user, SO), and all sessions of the token change together on login, logout and closing of the last session. Opening, closing, logging in, logging out and re-initialising succeed or fail exactly as that state dictates: no SO login while an R/O session exists, no R/O session while the SO is logged in, no second login, no logout without login, no re-initialisation while sessions are open. Session handles are unique while in use, and a closed or never issued handle is refused by every call.",
  ["histories"], "all interleaved histories of open/close/close-all/login/logout/init-token/get-session-info over several sessions and both user types, with right and wrong PINs",
  "src/tests/login.rs, session tests walk a few fixed sequences; the state space of interleaved sessions and logins is unbounded.",
  ["src/session.rs", "src/fns/sessmgmt.rs", "src/slot.rs", "src/token.rs", "src/lib.rs"],
  [("Session::new / change_session_state", "src/session.rs"), ("login/logout/open_session", "src/fns/sessmgmt.rs"), ("session map", "src/lib.rs")],
  [("logged", "who is logged in", "src/token.rs Token"), ("CK_SESSION_INFO.state", "session state", "src/session.rs")])

p("P02", "PIN authentication, retry counting, lockout and PIN change",
  "Only the PIN currently set for a user authenticates that user; on the default storage consecutive wrong PINs (by login, context-specific login or PIN change) are counted, the count survives logout, finalize and process restart, is cleared by a success, is reflected in the token flags (count low, final try, locked), and at ten failures the PIN is refused even if right until the SO sets a new user PIN. After a successful C_SetPIN, C_InitPIN or C_InitToken exactly the new PIN works, a failed one leaves the old PIN in force, and a PIN change never makes a stored object unreadable.",
  ["histories"], "all histories of right/wrong PIN presentations, PIN changes, logouts, restarts",
  "Unit tests try one wrong PIN and one PIN change; they never restart at each counter value, nor mix paths that count failures.",
  ["src/token.rs", "src/storage/aci.rs", "src/storage/format.rs", "src/storage/sqlite.rs", "src/storage/nssdb/mod.rs", "src/fns/sessmgmt.rs", "src/fns/slotmgmt.rs"],
  [("StorageACI::authenticate", "src/storage/aci.rs"), ("auth_user/set_user_pin", "src/storage/format.rs"), ("Token::login/set_pin", "src/token.rs")],
  [("cur_attempts", "failed attempts, persistent", "meta table"), ("user_data", "master key wrapped with PIN-derived key", "meta table")])

p("P03", "Private objects are reachable only by the logged-in user",
  "While the normal user is not logged in (public session, SO session, after logout, in another slot), no call can find, read, size, modify, copy, destroy or use in a cryptographic operation a token object with CKA_PRIVATE true, whether through a fresh handle, a handle remembered from an earlier login, or an operation or search started before logout. While the user is logged in all of these are possible again with the objects unchanged.",
  ["histories"], "every object class, every call taking an object handle, every login history",
  "Tests check C_FindObjects after logout for one object; they do not cross every handle-taking call with every login state and remembered handles.",
  ["src/token.rs", "src/fns/objmgmt.rs", "src/fns/keymgmt.rs", "src/fns/encryption.rs", "src/fns/signing.rs", "src/session.rs"],
  [("get_object_by_handle / is_logged_in", "src/token.rs"), ("search_objects", "src/token.rs"), ("logout drops sessions' state", "src/fns/sessmgmt.rs")],
  [("logged", "who is logged in", "src/token.rs")])

p("P04", "Sensitive and unextractable key material never leaves the token",
  "The secret parts of a key whose CKA_SENSITIVE is true or CKA_EXTRACTABLE is false are never returned by C_GetAttributeValue, never matched through search templates, and never exported by wrapping when unextractable (or by an untrusted wrapping key when CKA_WRAP_WITH_TRUSTED). No sequence of copy, attribute change, derive or generate yields an object of the same key with weaker protection than the source.",
  ["histories", "inputs"], "all key types, all attribute templates (mixed with permitted attributes, any order, any buffer size), all copy/set/wrap sequences",
  "Tests read CKA_VALUE of a sensitive key alone; they cannot enumerate templates and laundering sequences.",
  ["src/object/factory.rs", "src/object/key.rs", "src/object/mod.rs", "src/token.rs", "src/fns/keymgmt.rs", "src/rsa.rs", "src/ec/mod.rs"],
  [("get_object_attributes", "src/object/factory.rs"), ("default_copy", "src/object/factory.rs"), ("export_for_wrapping", "src/object/key.rs"), ("check_sensitive", "src/object/factory.rs")])

p("P05", "Attribute policy: provenance is truthful and protections only tighten",
  "Templates can never set token-controlled attributes (CKA_LOCAL, CKA_ALWAYS_SENSITIVE, CKA_NEVER_EXTRACTABLE, CKA_KEY_GEN_MECHANISM, CKA_UNIQUE_ID, CKA_TRUSTED): these always reflect how the object really came to be and its whole history. After creation CKA_SENSITIVE and CKA_WRAP_WITH_TRUSTED can only become true, CKA_EXTRACTABLE and CKA_COPYABLE only false, class, key type, key material and storage attributes (CKA_TOKEN, CKA_PRIVATE, CKA_MODIFIABLE) never change, and objects with CKA_MODIFIABLE, CKA_COPYABLE or CKA_DESTROYABLE false refuse modification, copying or destruction. A refused C_SetAttributeValue or C_CopyObject changes nothing.",
  ["histories", "inputs"], "all templates in create/generate/unwrap/derive/copy/set, for all object classes, in all orders",
  "Tests try a handful of single-attribute changes on one key type; the policy is a table of attributes x classes x operations x current values.",
  ["src/object/factory.rs", "src/object/key.rs", "src/object/certs.rs", "src/object/otp.rs", "src/token.rs", "src/fns/objmgmt.rs"],
  [("OAFlags table", "src/object/factory.rs"), ("check_set_attributes / default_copy / internal_object_create", "src/object/factory.rs"), ("key_derive / default_key_attributes", "src/object/key.rs")])

p("P06", "R/O sessions and write-protected tokens never change the token",
  "No call made through a R/O session creates, copies to, modifies or destroys a token object, whichever function or template is used to do it; R/O sessions can still fully use session objects. Session objects disappear with the session that created them (and only then), are never written to storage, and are never visible to other applications or after restart.",
  ["histories", "inputs"], "all object-producing and object-changing calls x session kinds x templates (including copies of token objects without CKA_TOKEN in the template)",
  "Tests check C_CreateObject in a R/O session; other producers and inherited attributes are not covered.",
  ["src/fns/objmgmt.rs", "src/fns/keymgmt.rs", "src/token.rs", "src/session.rs"],
  [("fail_if_cka_token_true / is_writable checks", "src/fns/"), ("drop_session_objects", "src/token.rs")])

p("P07", "Keys are used only as their attributes allow",
  "A cryptographic operation starts only if the key's class and type fit the mechanism, its usage attribute for that operation is true, and the mechanism is in its CKA_ALLOWED_MECHANISMS when present; otherwise the call fails and no operation is started. For a key with CKA_ALWAYS_AUTHENTICATE every single private-key operation needs its own successful context-specific login after initialisation, and nothing done in between with other operations in the session can replace it.",
  ["histories", "inputs"], "all mechanisms x key kinds x usage attributes x operations, and all interleavings of other operations with an always-authenticate operation",
  "Tests set all usages to true, and try always-authenticate with a single straight sequence.",
  ["src/fns/encryption.rs", "src/fns/signing.rs", "src/fns/keymgmt.rs", "src/session.rs", "src/object/mod.rs", "src/mechanism.rs", "src/token.rs"],
  [("check_key_ops / check_allowed_mechs", "src/object/mod.rs, src/session.rs"), ("login_status", "src/session.rs")],
  [("login_status", "context-specific login needed/done", "src/session.rs")])

p("P08", "Object store behaves like a map from handles to objects",
  "Across any history of create, copy, set, find, get, destroy on session and token objects from several sessions, each live object is named by one handle that stays the same and no other object gets, a destroyed or expired handle is refused everywhere and never comes to name another object, and C_GetAttributeValue returns exactly the values last set. C_FindObjects returns each visible object matching every attribute of the template once and nothing else, in chunks of at most the requested size, until exhausted.",
  ["histories"], "all histories over several sessions, all templates, all chunk sizes, on the default storage",
  "Tests use a few objects and single searches; equality with a reference model over long random histories is never checked.",
  ["src/token.rs", "src/fns/objmgmt.rs", "src/object/mod.rs", "src/object/factory.rs", "src/storage/format.rs", "src/storage/sqlite.rs", "src/attribute.rs"],
  [("handles bimap", "src/token.rs"), ("search SQL", "src/storage/sqlite.rs"), ("match_template", "src/object/mod.rs")],
  [("handles", "handle <-> unique id map", "src/token.rs")])

p("P09", "Token objects survive restart exactly",
  "Every token object that existed at C_Finalize (or at process exit after its call returned) is found after the token is opened again with the same class, same unique id and bit-identical attributes, key material included and usable, and nothing else is found: no destroyed object reappears, no session object persists. Token label, serial number and PIN state survive too; this holds for the default storage and, for the classes and attributes it supports, for the NSS storage.",
  ["histories", "configurations"], "all object kinds and attribute values (empty, binary, zero bytes, large, dates, ulong arrays), all histories, both storage back ends",
  "Tests reopen a token for one or two objects; value encodings and histories are sampled at a few points.",
  ["src/storage/sqlite.rs", "src/storage/format.rs", "src/storage/nssdb/mod.rs", "src/storage/nssdb/attrs.rs", "src/attribute.rs", "src/token.rs"],
  [("store_object / rows_to_objects", "src/storage/sqlite.rs"), ("NSS column encoding", "src/storage/nssdb/mod.rs")])

p("P10", "Crash atomicity and durability of the token database",
  "If the process dies at any instruction (kill) or the machine loses unsynced writes at any point, the token opens afterwards, the PINs that were in force work, every call that had returned success is fully in effect, and the call in flight is either fully in effect or not at all: no object is half written, half changed or half deleted, and a key pair or PIN is never left unusable. A token whose (re)initialisation was interrupted can always be initialised again.",
  ["crash_points", "histories"], "every file write/sync/truncate/unlink of every storage-changing call",
  "No test kills the process; crash points inside a transaction are invisible to in-process tests.",
  ["src/storage/sqlite.rs", "src/storage/format.rs", "src/storage/nssdb/mod.rs", "src/storage/sqlite_common.rs", "src/token.rs"],
  [("one sqlite transaction per store/remove/meta update", "src/storage/sqlite.rs"), ("reinit", "src/storage/format.rs")],
  observe=["LD_PRELOAD interposer on the file calls made by SQLite", "reopened token through the PKCS#11 API"])

p("P11", "A failed call changes nothing and a successful one really happened",
  "When a call that changes objects, keys or PINs returns an error, for a bad argument in any template position or because storage failed (disk full, I/O error, database locked by another process), then nothing observable has changed: no stray object or key-pair half, no partially applied template, no changed PIN, no dead handle, both in memory and on disk, and later calls work once the fault is gone. When it returns success the effect is on disk.",
  ["fault_sequences", "inputs", "histories"], "every storage call failing once or for a while, every bad template position, lock contention from a second process",
  "Tests have no fault injection and do not re-examine the store after an error.",
  ["src/token.rs", "src/fns/objmgmt.rs", "src/fns/keymgmt.rs", "src/storage/format.rs", "src/storage/sqlite.rs"],
  [("check before apply", "src/object/factory.rs"), ("transaction rollback on drop", "src/storage/sqlite.rs"), ("error propagation in Token", "src/token.rs")])

p("P12", "Secrets are never on disk in the clear",
  "After any history, no file of the token (database, journal, temporary) contains in any place, including freed space, a PIN, the token master key, or the value of a secret or private key's sensitive attributes, raw or in simple encodings; equal secrets never give equal stored bytes. Session objects and their values are never written to disk at all.",
  ["histories", "inputs"], "all key kinds, all ways to make them, deletes, updates, PIN changes, both storage back ends",
  "No test looks at the files.",
  ["src/storage/aci.rs", "src/storage/format.rs", "src/encryption.rs", "src/storage/nssdb/ci.rs", "src/storage/nssdb/mod.rs", "src/storage/sqlite_common.rs"],
  [("encrypt_value of Sensitive attributes", "src/storage/format.rs"), ("secure_delete", "src/storage/sqlite_common.rs")],
  observe=["raw bytes of every file written in the token directory, captured at each write"])

p("P13", "Stored data is authenticated: tampering is detected, never used",
  "If stored bytes of a protected value are modified, truncated, swapped with those of another object, attribute, user or token, or rolled into another record, then reading or using that key fails with an error; a wrong key value is never returned or used, and a wrong PIN record never authenticates. Any other damage to the database leads to error codes, never to a process abort, hang, or disclosure.",
  ["inputs", "fault_sequences"], "every byte of every protected record, all pairs of records, random damage to the files",
  "No test damages a database.",
  ["src/storage/aci.rs", "src/storage/format.rs", "src/storage/sqlite.rs", "src/storage/nssdb/ci.rs", "src/storage/nssdb/mod.rs", "src/kasn1/mod.rs", "src/encryption.rs"],
  [("AES-GCM with object id as AAD and HKDF info", "src/storage/aci.rs"), ("HMAC-authenticated attributes", "src/storage/nssdb/ci.rs")],
  observe=["SQLite files edited between runs, then the PKCS#11 API"])

p("P14", "Ciphers compute the standard function",
  "For every supported cipher mechanism, key size, IV/parameter and data length, C_Encrypt gives the output of the standard algorithm as computed by an independent implementation, C_Decrypt inverts it, and invalid lengths, parameters or padding are refused with an error. RSA encryption mechanisms decrypt what an independent implementation encrypted, and the reverse.",
  ["inputs"], "all mechanisms x key sizes x IV/AAD/tag/counter parameters x lengths 0..several blocks and around block boundaries, in place or not",
  "Test vectors fix a few lengths and parameters per mode.",
  ["src/aes.rs", "src/ossl/aes.rs", "src/rsa.rs", "src/ossl/rsa.rs", "src/fns/encryption.rs", "ossl/src/cipher.rs", "ossl/src/asymcipher.rs"],
  [("AesOperation", "src/ossl/aes.rs"), ("RsaPKCSOperation", "src/ossl/rsa.rs")],
  observe=["C_Encrypt*/C_Decrypt*/message API against libcrypto and in-harness reference code"])

p("P15", "Multi-part processing equals one-shot processing",
  "For every mechanism that supports it, feeding data through any sequence of update calls (any split, including empty pieces and single bytes) and a final call gives exactly the result of the single-part call, for encryption, decryption, digest, sign, verify, message and dual-function calls, and when input and output share a buffer. The sum of bytes output so far never exceeds what the standard allows and every call reports exactly the bytes it wrote.",
  ["inputs", "histories"], "all splits of all lengths for all mechanisms, with size queries and too-small buffers interspersed",
  "Tests use one or two fixed splits per mechanism.",
  ["src/ossl/aes.rs", "src/hash.rs", "src/ossl/hash.rs", "src/hmac.rs", "src/native/hmac.rs", "src/fns/encryption.rs", "src/fns/signing.rs", "src/fns/digest.rs", "src/ossl/rsa.rs", "src/ossl/ecdsa.rs"],
  [("update/final buffering", "src/ossl/aes.rs")])

p("P16", "Digests and MACs compute the standard function and verify only it",
  "For every digest and MAC mechanism, key and message, the output equals that of an independent implementation (with the requested truncation for general-length MACs); verification accepts exactly that value: any other length, any flipped bit in MAC, message or key is rejected.",
  ["inputs"], "all mechanisms, key lengths (below, at, above block size), message lengths, truncation lengths, single-bit tampering",
  "Known-answer tests cover a few lengths; negative tests flip one byte.",
  ["src/hash.rs", "src/hmac.rs", "src/native/hmac.rs", "src/ossl/hash.rs", "src/aes.rs", "src/ossl/aes.rs", "src/fns/signing.rs", "src/fns/digest.rs"],
  [("HMACOperation", "src/native/hmac.rs"), ("HashOperation", "src/ossl/hash.rs"), ("AesMacOperation/AesCmacOperation", "src/ossl/aes.rs")])

p("P17", "Asymmetric signatures verify exactly when they should",
  "For every signature mechanism, parameters and message, a signature made by the token is accepted by the token and by an independent implementation under the matching public key and parameters, and signatures made independently are accepted by the token; any changed bit in message or signature, any wrong length, other key, other hash or other parameters makes verification fail. Key pairs are usable after export of the public part.",
  ["inputs"], "all RSA (PKCS, PSS, X.509) and ECDSA mechanisms, hashes, salt lengths, curves, key sizes and message lengths; single-bit tampering everywhere",
  "Tests verify a few vectors and round trips with one parameter choice.",
  ["src/rsa.rs", "src/ossl/rsa.rs", "src/ec/ecdsa.rs", "src/ossl/ecdsa.rs", "src/fns/signing.rs", "ossl/src/signature.rs", "ossl/src/pkey.rs"],
  [("RsaPKCSOperation", "src/ossl/rsa.rs"), ("EcdsaOperation", "src/ossl/ecdsa.rs")])

p("P18", "Authenticated decryption accepts only authentic data",
  "For AES-GCM, AES-CCM and AES key wrap, any modification of ciphertext, tag, IV/nonce, associated data, key or declared lengths makes decryption or unwrapping fail; the failing call hands out no plaintext in the output buffer of the call that decides, ends the operation, and creates no object. A tag shorter or longer than declared is never accepted.",
  ["inputs"], "all tag lengths, nonce lengths, AAD and data lengths, every bit position; one-shot, multi-part, message-based and unwrap paths",
  "Tests flip one byte in one place of one vector.",
  ["src/aes.rs", "src/ossl/aes.rs", "src/fns/encryption.rs", "src/fns/keymgmt.rs"],
  [("tag check in decrypt_final", "src/ossl/aes.rs"), ("KW/KWP unwrap", "src/ossl/aes.rs")])

p("P19", "Key derivation computes the standard function",
  "For every supported derivation mechanism and parameter set, the derived key equals the value computed by an independent implementation, has exactly the requested length, type and attributes, and is the same every time; parameters outside the standard's limits are refused. Both sides of a Diffie-Hellman or ECDH exchange obtain the same key and invalid peer keys are refused.",
  ["inputs"], "HKDF, PBKDF2, SP800-108 (counter/feedback/double pipeline), concat/XOR/hash KDFs, TLS KDFs, SSH KDF, ECDH/X25519/X448/DH with all KDF options; all lengths and salts",
  "Known-answer files fix parameters; derived lengths and option combinations are sampled.",
  ["src/hkdf.rs", "src/pbkdf2.rs", "src/sp800_108.rs", "src/native/sp800_108.rs", "src/native/simplekdf.rs", "src/native/tlskdf.rs", "src/ec/ecdh.rs", "src/ossl/ecdh.rs", "src/ffdh.rs", "src/sshkdf.rs", "ossl/src/derive.rs"],
  [("derive operations", "src/ossl/*.rs, src/native/*.rs")])

p("P20", "Wrapping and unwrapping preserve the key and its protections",
  "A key wrapped with any supported mechanism and unwrapped with the matching key is functionally identical to the original, for every key type and wrapping mechanism that accepts it; the wrapped bytes are what an independent implementation produces or accepts. Unwrap honours the template, never lets it override provenance attributes, and a wrap or unwrap that fails or is given an unsuitable key (wrong type, no CKA_WRAP/CKA_UNWRAP, unextractable) produces nothing.",
  ["inputs", "histories"], "all (wrapping mechanism x wrapped key type x size x template) combinations",
  "Tests round-trip a few pairs.",
  ["src/fns/keymgmt.rs", "src/ossl/aes.rs", "src/aes.rs", "src/ossl/rsa.rs", "src/rsa.rs", "src/object/key.rs", "src/ec/mod.rs"],
  [("wrap_key/unwrap_key", "src/fns/keymgmt.rs"), ("export_for_wrapping/import_from_wrapped", "src/object/key.rs")])

p("P21", "Output buffer convention is honoured exactly",
  "Every call that returns data into a caller buffer never writes outside the length given, answers a null buffer with a length at least as large as the result and without consuming or ending the operation, answers a too small buffer with CKR_BUFFER_TOO_SMALL leaving the operation usable with a larger buffer and the same result, and on success reports exactly the number of bytes written.",
  ["inputs", "histories"], "all output calls x mechanisms x all buffer sizes from 0 to above the needed size, repeated queries, interleaved with updates",
  "Tests pass large buffers or follow one query-then-call pattern.",
  ["src/fns/encryption.rs", "src/fns/signing.rs", "src/fns/digest.rs", "src/fns/keymgmt.rs", "src/fns/slotmgmt.rs", "src/fns/objmgmt.rs", "src/fns/stmgmt.rs", "src/object/factory.rs", "src/ossl/aes.rs", "src/ossl/rsa.rs"],
  [("length checks before each copy", "src/fns/*.rs"), ("encryption_len/signature_len", "src/ossl/*.rs")])

p("P22", "Operation state machine per session",
  "In each session an update or final call works only after the matching successful init; a second init while an operation of that kind is active is refused; final, one-shot completion and failure end the operation, buffer queries do not; one-shot and multi-part calls are not mixed within one operation; cancelling works. Operations in different sessions, and operations of different kinds in one session, never affect each other's results.",
  ["histories"], "all call sequences over all operation kinds and several sessions",
  "Tests follow legal sequences, with a few isolated misuse cases.",
  ["src/session.rs", "src/fns/encryption.rs", "src/fns/signing.rs", "src/fns/digest.rs", "src/fns/sessmgmt.rs", "src/mechanism.rs"],
  [("operation slots per session", "src/session.rs"), ("in_use/finalized flags", "src/ossl/*.rs")])

p("P23", "Concurrent use is linearizable and always makes progress",
  "When many threads use the library at once (own or shared sessions, shared objects, logins and logouts in between), every call returns, results are those of some sequential order consistent with real time, no effect is lost or duplicated, and cryptographic results in one session are unaffected by other threads. No schedule deadlocks or aborts the process.",
  ["schedules", "histories"], "all interleavings of calls from concurrent threads",
  "Tests are single threaded, each with its own token.",
  ["src/lib.rs", "src/slot.rs", "src/session.rs", "src/token.rs", "src/fns/sessmgmt.rs", "src/fns/objmgmt.rs", "src/storage/sqlite.rs"],
  [("STATE / session / token RwLocks and their order", "src/lib.rs, src/slot.rs")],
  [("STATE", "global state lock", "src/lib.rs")])

p("P24", "Memory safety and data-race freedom",
  "No sequence of valid calls, from one or many threads, makes the library read or write memory it does not own, use freed or uninitialised memory, trigger undefined behaviour, or race on shared memory.",
  ["inputs", "schedules", "histories"], "all valid call sequences with arbitrary data, from several threads",
  "The normal test build has no sanitizers, and the FFI and raw-pointer code is invisible to Rust's checks.",
  ["src/lib.rs", "src/fns/", "src/ossl/", "ossl/src/", "src/attribute.rs", "src/misc.rs"],
  [("raw pointer handling at the FFI boundary", "src/fns/*.rs, src/misc.rs"), ("unsafe FFI to libcrypto", "ossl/src/*.rs")],
  observe=["AddressSanitizer / ThreadSanitizer reports on an instrumented libkryoptic_pkcs11.so", "canaries and guard pages around caller buffers"])

p("P25", "Malformed arguments give error codes, never a crash or hang",
  "For any argument values whose pointers are valid for the lengths given (unknown handles, mechanisms, attributes, flags; wrong parameter sizes; truncated or malformed parameters, templates, encodings and keys; null pointers where the standard lets the library see them), every function returns a PKCS#11 code, the process does not abort or hang, and afterwards the token works as before.",
  ["inputs", "histories"], "all functions x arbitrary argument contents",
  "Tests pass well-formed arguments.",
  ["src/fns/", "src/attribute.rs", "src/misc.rs", "src/mechanism.rs", "src/ossl/", "src/native/", "src/kasn1/mod.rs", "src/rsa.rs", "src/ec/mod.rs"],
  [("argument checks and Result propagation", "src/fns/*.rs"), ("extern \"C\" turns a panic into an abort", "src/fns/*.rs")])

p("P26", "Slots are isolated and configured as declared",
  "Each configured slot is a separate token: objects, handles, sessions, login state, PINs, counters and attributes of one slot are never visible through or affected by another, also when several slots are used at once; slot ids, descriptions, labels and allowed or denied mechanisms are those of the configuration. A configuration that names the same storage or slot number twice or is malformed is refused as a whole rather than half applied.",
  ["configurations", "histories"], "all configurations of several slots and all interleaved histories across them",
  "Tests use one slot per token.",
  ["src/config.rs", "src/lib.rs", "src/slot.rs", "src/token.rs", "src/fns/slotmgmt.rs"],
  [("per-slot token and session maps", "src/slot.rs, src/lib.rs"), ("config parsing and de-duplication", "src/config.rs")])

p("P27", "Random values are fresh",
  "Random output, generated keys, IVs chosen by the token, salts, nonces, serial numbers and unique ids never repeat and are not predictable from seed input: across threads, sessions, slots, C_SeedRandom with equal seeds, restarts and forked children.",
  ["histories", "schedules", "inputs"], "all threads, sessions, forks and restarts; all request sizes",
  "Tests check that a random buffer is not zero.",
  ["src/rng.rs", "src/ossl/drbg.rs", "src/fns/random.rs", "src/lib.rs", "src/ossl/aes.rs", "src/storage/aci.rs", "src/object/mod.rs"],
  [("thread-local CSPRNG", "src/lib.rs"), ("generate_random", "src/rng.rs"), ("GCM IV generator", "src/ossl/aes.rs")])

p("P28", "HOTP counter is used exactly once and persists",
  "Each HOTP generation with a counter-based key uses the key's current counter, returns the RFC 4226 value for it, and advances the counter by exactly one, durably before the value is released: no two generations, also concurrent ones or ones separated by a crash or restart, return a value for the same counter. Verification accepts only the right value for the expected counter.",
  ["histories", "schedules", "crash_points"], "all histories of generation, verification, concurrency, restarts and storage faults; all digits/hash parameters",
  "Tests generate a few codes in one session.",
  ["src/hotp.rs", "src/object/otp.rs", "src/fns/signing.rs", "src/token.rs"],
  [("counter update on sign", "src/hotp.rs, src/token.rs")])

p("P29", "Library life cycle",
  "Before C_Initialize and after C_Finalize every function that needs an initialised library returns CKR_CRYPTOKI_NOT_INITIALIZED; a second C_Initialize is refused; a failed one leaves the library uninitialised and retryable. C_Finalize ends all sessions, logins and session objects, leaves the token files consistent, and the library can be initialised again in the same process any number of times, with nothing of the earlier life usable. The function lists and interfaces offered are complete and consistent with one another.",
  ["histories", "schedules"], "all init/finalize histories, also with other threads calling in",
  "Unit tests initialise once per process run or serially with a private reset hook.",
  ["src/fns/general.rs", "src/lib.rs", "cdylib/src/lib.rs", "src/slot.rs"],
  [("STATE initialisation", "src/lib.rs"), ("fn_initialize/fn_finalize", "src/fns/general.rs")])

p("P30", "Advertised mechanisms are exactly the usable ones",
  "A mechanism is usable for a function if and only if it is in C_GetMechanismList and its C_GetMechanismInfo carries that function's flag: unlisted mechanisms (unknown, or denied by configuration) are refused with CKR_MECHANISM_INVALID by every init, generate, wrap, unwrap and derive call, advertised ones work with a key whose size is within the advertised range, and key sizes outside that range are refused.",
  ["inputs", "configurations"], "all mechanism numbers x all functions x allow/deny configurations x key sizes",
  "Tests use mechanisms they expect to work.",
  ["src/mechanism.rs", "src/token.rs", "src/fns/slotmgmt.rs", "src/config.rs", "src/aes.rs", "src/rsa.rs", "src/hmac.rs"],
  [("mechanism registry and info flags", "src/mechanism.rs"), ("filtermechs", "src/token.rs")])

p("P31", "Generated keys are valid, fresh and correctly described",
  "Every generated or derived key has the requested type and size, mathematically valid components, matching public and private halves, fresh value, and attributes that describe it truthfully (CKA_LOCAL, CKA_KEY_GEN_MECHANISM, CKA_VALUE_LEN, CKA_MODULUS_BITS, always-sensitive and never-extractable, public key info). Requests for unsupported sizes, exponents, curves or inconsistent templates are refused and create nothing; imported keys with inconsistent or invalid components are refused or unusable, never silently wrong.",
  ["inputs"], "all key generation mechanisms x sizes/curves/groups x templates",
  "Tests generate one key per type and use it.",
  ["src/rsa.rs", "src/ossl/rsa.rs", "src/ec/mod.rs", "src/ec/ecdsa.rs", "src/ec/montgomery.rs", "src/ffdh.rs", "src/aes.rs", "src/object/key.rs", "src/fns/keymgmt.rs"],
  [("generate_key(pair)", "src/ossl/*.rs"), ("default_key_attributes", "src/object/key.rs")])

p("P32", "Saved operation state resumes exactly",
  "A digest operation state saved at any point and restored into the same or another session continues to exactly the result of the uninterrupted operation, however often it is restored; the saved state itself is independent of later calls. States that are truncated, corrupted or of another kind are refused without disturbing the session or the process.",
  ["inputs", "histories"], "all digests x all save points x all sessions x corrupted states",
  "Tests save and restore once at one point.",
  ["src/fns/stmgmt.rs", "src/session.rs", "src/ossl/hash.rs", "src/hash.rs"],
  [("state_save/state_restore", "src/ossl/hash.rs")])

p("P33", "Secret-dependent timing does not leak keys or PINs",
  "The time and memory-access pattern of PIN checks, MAC and tag comparison, padding checks and private-key operations do not depend on secret data in a way an observer can exploit.",
  ["inputs"], "all secrets and inputs", "Functional tests do not observe time.",
  ["src/native/hmac.rs", "src/storage/aci.rs", "src/ossl/rsa.rs"],
  [("constant_time_eq", "src/native/hmac.rs")])

p("P34", "SoftHSM migration transfers every object exactly or counts it as failed",
  "softhsm_migrate creates, in the slot it was told, exactly one token object for every supported object (certificates; RSA and EC public and private keys; secret keys) of a SoftHSM v2 token that the target accepts, with every attribute the target can be given and its true (decrypted) value, usable as the same key; its exit status is the number of objects it did not import (at most 253), 254 when the token cannot be read or its PIN is wrong and 255 when the target cannot be used, and in those two cases nothing is imported. Malformed, truncated or hostile token directories and bad arguments never crash it, and a malformed object is never imported in part.",
  ["inputs"], "all SoftHSM token directories (object kinds, attributes, encodings, salts, damage) x target slots and arguments",
  "A script migrates one fixed token and uses one key.",
  ["tools/softhsm/migrate.rs"],
  [("read_next_attribute, import_obj, migrate, main", "tools/softhsm/migrate.rs")])

p("P35", "The rustls provider protects TLS connections as the standards say",
  "Used as rustls's crypto provider, rustls-ossl computes exactly the standard functions TLS asks of it: record protection for TLS 1.2 and 1.3 with AES-128-GCM, AES-256-GCM and ChaCha20-Poly1305 for every sequence number, content type and length, transcript hashes with forks, HMAC, HKDF, the TLS 1.2 PRF, ECDHE over X25519, P-256, P-384 and P-521, and signing and verification with RSA (PKCS#1 and PSS), ECDSA and Ed25519 keys, choosing only schemes that were offered and fit the key. Records or signatures changed, cut, extended, reordered or meant for another sequence number, type, message, scheme or key are refused; invalid, off-curve or small-order key shares are refused; nothing makes it panic. Connections with a conforming peer complete for every advertised version, suite and group, deliver exactly the bytes sent, and after any changed handshake or data record deliver nothing more.",
  ["inputs"], "all inputs of the provider's primitives x all connections (side, version, suite, group, certificate kind, data, fragmentation, changed record)",
  "Its tests (not part of the stable set, and needing OpenSSL 3.2) connect a few times to openssl s_server as a client.",
  ["rustls/ossl/src/", "ossl/src/cipher.rs", "ossl/src/derive.rs", "ossl/src/signature.rs", "ossl/src/pkey.rs"],
  [("AeadAlgorithm", "rustls/ossl/src/cipher.rs"), ("Tls12Message", "rustls/ossl/src/tls12.rs"), ("Tls13Message", "rustls/ossl/src/tls13.rs"), ("OsslHkdf, OsslPrf", "rustls/ossl/src/kdf.rs"), ("OsslEcdh", "rustls/ossl/src/keyex.rs"), ("OsslSigVerAlgorithm", "rustls/ossl/src/verify.rs"), ("OsslSigningKey", "rustls/ossl/src/pkey.rs")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
