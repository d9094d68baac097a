"""Property texts; tools_meta.py derives properties.jsonl and MANIFEST.json from them."""
ADR = "path-sensitive interval dataflow over inlined LLVM IR (assumption-driven reachability)"
ADRN = ("Every path of the compiled source under the stated assumption, with calls inlined up to the relevant leaves; trusts the "
        "clang front end, the x86_64 full configuration and the leaf primitives named in DESIGN.md.")
CT = "rejection-contract checking: path-sensitive interval dataflow over inlined LLVM IR, plus error-flow analysis with one injected failure per call site"
CTN = ("All paths of every function in scope under every frozen contract and every single failing status call; contracts were mined from the reviewed tree "
       "(mining is not part of the check); trusts the clang front end and the x86_64 full configuration.")
PROPS = []
NA = {}


def P(id, title, statement, over, quant, tests, files, mech, technique=ADR, note=ADRN):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech,
                      technique=technique, note=note))


P("C01", "A handshake completes only if the peer's Finished matches the transcript",
  "In every protocol version and role (TLS 1.2, TLS 1.3, TLCP, DTLS; client and server), a received Finished message is accepted only if its "
  "verify data has the full expected length and equals the value computed locally over the transcript. Any difference, a failure to compute "
  "the local value, or a wrong length ends the handshake with an error; a Finished never succeeds on a path that skipped the comparison.",
  ["inputs", "histories"], "all received Finished messages, all versions, roles and handshake variants (full, resumed, PSK, client auth, renegotiation)",
  "Tests flip a byte in a handful of Finished messages; they cannot show that no path through the message handlers reaches acceptance without the comparison.",
  ["tls/handshake/recv/src/recv_finished.c", "tls/handshake/common/src/hs_verify.c"],
  [("verify data comparison", "tls/handshake/common/src/hs_verify.c VERIFY_VerifyData"), ("finished processing", "tls/handshake/recv/src/recv_finished.c")])


P("C02", "A TLS peer certificate is accepted only after chain and identity checks succeed",
  "A received certificate message leads to a continued handshake only if it was well formed for the negotiated version, the chain could be built and verified "
  "against the configured trust store (unless the application's own verification callback or verify mode explicitly permits otherwise), the key type, key usage, size and "
  "signature algorithms suit the negotiated cipher suite and the security level, and a required certificate was actually presented. A failure or an unsupported value at any of these steps is an error for the handshake.",
  ["inputs", "histories"], "all certificate messages, verify modes, versions, roles and certificate-provider results",
  "Tests use a fixed set of generated chains; each guard has to hold for every chain, configuration and failure of the certificate provider.",
  ["tls/handshake/recv/src/recv_certificate.c", "tls/cert/cert_adapt/cert.c", "tls/handshake/common/src/hs_cert.c", "tls/cert/hitls_x509_adapt"],
  [("certificate message processing", "tls/handshake/recv/src/recv_certificate.c"), ("certificate/cipher suite fit", "tls/handshake/common/src/hs_cert.c")], CT, CTN)

P("C03", "Handshake signatures and key exchange values are verified before use",
  "A server key exchange, client key exchange or certificate verify message is accepted only if its signature verifies with the peer certificate's key under an "
  "algorithm this endpoint offered and the negotiated version allows, and the key exchange value has an offered group, legal form and legal length. If verifying, importing the "
  "peer value, deriving the shared secret or deriving traffic secrets fails, the handshake step fails and never continues with unverified or undefined key material.",
  ["inputs", "fault_sequences"], "all received key exchange and certificate verify messages, all versions and groups, any failing crypto step",
  "Tests corrupt a few signatures; they cannot cover every version, algorithm and internal failure.",
  ["tls/handshake/recv/src/recv_cert_verify.c", "tls/handshake/recv/src/recv_server_key_exchange.c", "tls/handshake/common/src/hs_kx.c", "tls/handshake/common/src/hs_verify.c", "tls/handshake/common/src/tls13key.c"],
  [("signature verification", "tls/handshake/common/src/hs_verify.c"), ("key exchange", "tls/handshake/common/src/hs_kx.c")], CT, CTN)

P("C04", "Handshake messages are accepted only in states where the protocol allows them",
  "In every handshake state a message is processed only if its type is one the state and negotiated parameters permit; an unexpected message, a message of wrong type, an "
  "out-of-place ChangeCipherSpec, or a handler that fails never advances the handshake and is reported as an error. No state is skipped because a step failed.",
  ["histories", "inputs"], "all sequences of incoming messages in all versions and roles, including fragmented, repeated and interleaved ones",
  "The number of message sequences is unbounded; tests exercise the regular flow and a few permutations.",
  ["tls/handshake/recv/src/hs_state_recv.c", "tls/handshake/sm/src/hs_sm.c", "tls/ccs/src/change_cipher_spec.c", "tls/handshake/recv/src"],
  [("state machine", "tls/handshake/recv/src/hs_state_recv.c"), ("ChangeCipherSpec", "tls/ccs/src/change_cipher_spec.c")], CT, CTN)

P("C05", "Record data reaches the caller only after length, padding and MAC checks pass",
  "Incoming record payload is handed on only if the record header is legal (type, version, length bounds), decryption and authentication succeeded and the plaintext length is "
  "within the limit; outgoing data is written only if protection succeeded and it fits the buffers. Any failing step yields an error or a discarded record, never the data.",
  ["inputs", "fault_sequences"], "all byte streams from the network, all cipher suites and record sizes, any failing crypto or I/O step",
  "Malformed record space is unbounded; tests sample individual malformed headers and tags.",
  ["tls/record/src/rec_read.c", "tls/record/src/rec_crypto_aead.c", "tls/record/src/rec_crypto_cbc.c", "tls/record/src/rec_conn.c", "tls/record/src/rec_write.c"],
  [("record decryption", "tls/record/src/rec_conn.c"), ("record read path", "tls/record/src/rec_read.c")], CT, CTN)

P("C06", "Record sequence numbers, epochs and keys never wrap or repeat",
  "No record is protected or accepted under a sequence number, epoch or key generation that is exhausted: at the limit the operation fails instead of wrapping, key changes "
  "take effect only when all key material was derived and installed successfully, and a key update is accepted only in a legal state with a legal request value.",
  ["histories"], "arbitrarily long connections with any number of records and key updates",
  "Limits such as 2^48 or 2^64 records are never reached in tests.",
  ["tls/record/src/record.c", "tls/record/src/rec_conn.c", "tls/record/src/rec_write.c", "tls/cm/src/conn_common.c", "tls/handshake/common/src/tls13key.c"],
  [("sequence limits", "tls/record/src/rec_write.c"), ("key state installation", "tls/record/src/rec_conn.c")], CT, CTN)

P("C07", "DTLS rejects replayed, stale or forged datagrams, cookies and fragments",
  "A datagram that the replay window has seen or that is too old, a hello with a missing or wrong cookie where one is required, a fragment that does not fit the "
  "message being reassembled, or an illegal connection-id message never advances a connection; failures in timers, acknowledgements and retransmission bookkeeping are reported.",
  ["inputs", "histories"], "all datagram sequences: duplicated, reordered, overlapping, oversized, forged",
  "Loss, reordering and forgery combine without bound; tests run a few scripted sequences.",
  ["tls/record/src/rec_anti_replay.c", "tls/handshake/cookie/src/hs_cookie.c", "tls/handshake/reass/src/hs_reass.c", "tls/cm/src/conn_dtls_cid_negotiation.c", "tls/cm/src/conn_dtls_cid_update.c", "tls/record/src/rec_retransmit.c"],
  [("replay window", "tls/record/src/rec_anti_replay.c"), ("cookie check", "tls/handshake/cookie/src/hs_cookie.c"), ("reassembly", "tls/handshake/reass/src/hs_reass.c")], CT, CTN)

P("C08", "After a fatal alert, close or error a connection carries no more data",
  "Reading, writing, handshaking or renegotiating on a connection that is closed, alerted or in an unsuitable state is refused; alerts with illegal length, level or repetition are "
  "refused; and a failing internal step of establishing, reading, writing or closing is reported to the caller rather than as success.",
  ["histories", "inputs"], "all orders of connect, accept, read, write, close, renegotiate calls and incoming alerts",
  "API call sequences and alert timings are unbounded.",
  ["tls/alert/src/alert.c", "tls/cm/src/conn_establish.c", "tls/cm/src/conn_read.c", "tls/cm/src/conn_write.c", "tls/cm/src/conn_common.c", "tls/app/src/app.c"],
  [("connection state dispatch", "tls/cm/src/conn_establish.c"), ("alert handling", "tls/alert/src/alert.c")], CT, CTN)

P("C09", "Ciphers and AEAD reject illegal keys, nonces, tags, lengths and call orders",
  "A cipher operation reports success only for a legal key, IV/nonce, tag and data length, a legal mode of padding and a legal call order (key set before data, tag after data); "
  "wrapped keys, tags and paddings that do not check out are refused; and a failing block, hash or mode step makes the whole operation fail.",
  ["inputs", "histories"], "all sequences of init, control, update, final calls with all parameter values, for every mode",
  "Parameter and sequence space is unbounded, vectors cover legal uses.",
  ["crypto/modes/src", "crypto/eal/src/eal_cipher.c", "crypto/chacha20/src", "crypto/sm4/src", "crypto/aes/src"],
  [("mode state checks", "crypto/modes/src/modes.c"), ("EAL cipher state machine", "crypto/eal/src/eal_cipher.c")], CT, CTN)

P("C10", "Signature and MAC operations never succeed on invalid input or a failed check",
  "A signature verification succeeds only if all required material is present, all encoded values are in range and of legal length and the final comparison holds; "
  "signing and MAC computation succeed only with a usable key, legal parameters and every internal step succeeding. In every algorithm offered (RSA, DSA, ECDSA, SM2, EdDSA, SM9, ML-DSA, SLH-DSA, XMSS, LMS/HSS, composites, MACs) a rejected check makes the call fail.",
  ["inputs", "fault_sequences"], "all messages, signatures, keys and parameters; any failing internal step",
  "Known-answer tests accept good signatures and refuse a few mutated ones; acceptance must be impossible on every other path.",
  ["crypto/rsa/src/rsa_padding.c", "crypto/ecdsa/src", "crypto/dsa/src", "crypto/sm2/src", "crypto/curve25519/src", "crypto/mldsa/src", "crypto/hbs", "crypto/composite/src", "crypto/sm9/src", "crypto/eal/src/eal_pkey_sign.c"],
  [("verification functions of each algorithm", "crypto/*/src"), ("PSS/PKCS1 padding checks", "crypto/rsa/src/rsa_padding.c")], CT, CTN)

P("C11", "Key agreement, KEM and PKE reject illegal peer values and keys",
  "Deriving a shared secret, encapsulating, decapsulating, encrypting and decrypting report success only with the required keys present, peer values of legal length and "
  "range (not degenerate), sufficient output space and all internal steps successful.",
  ["inputs", "fault_sequences"], "all peer public values, ciphertexts, keys and buffer sizes for DH, ECDH, X25519, ML-KEM, FrodoKEM, McEliece, hybrids, RSA, SM2, SM9, ElGamal, Paillier, HPKE",
  "The degenerate values are a vanishing fraction of the input space and internal failures cannot be provoked.",
  ["crypto/dh/src", "crypto/ecdh/src", "crypto/curve25519/src", "crypto/mlkem/src", "crypto/frodokem/src", "crypto/mceliece/src", "crypto/hybridkem/src", "crypto/rsa/src", "crypto/sm2/src", "crypto/hpke/src"],
  [("peer value checks", "crypto/dh/src/dh_core.c, crypto/curve25519/src/curve25519.c"), ("EAL entry points", "crypto/eal/src/eal_pkey_kem.c")], CT, CTN)

P("C12", "Secrets are wiped from memory before the memory is given up",
  "Buffers and objects that hold keys, shared secrets, passwords, random seeds, nonces or decrypted intermediate values are overwritten before their memory is released or their scope ends, on every path: "
  "success, each error exit and each early return. A release that clears its memory is never replaced by, or bypassed with, one that does not.",
  ["inputs", "fault_sequences"], "every path through every function that holds secret material, including those taken only after an internal failure",
  "Released memory is invisible to tests, and the error paths that must wipe too are not reached by them.",
  ["crypto/", "tls/handshake/common/src", "tls/record/src", "pki/pkcs12/src", "auth/", "bsl/sal/src/sal_mem.c", "crypto/bn/src/bn_basic.c"],
  [("clearing release", "bsl/sal/src/sal_mem.c BSL_SAL_ClearFree, BSL_SAL_CleanseData"), ("wiping call sites", "crypto/*/src, tls/handshake/common/src")],
  "ownership dataflow classifying every reachable release of a buffer, plus must-call duties on all paths (path-sensitive interval dataflow)",
  "Which memory is secret is taken from the reviewed tree (the buffers it wipes); stack copies made by the compiler are out of scope.")

P("C13", "Randomness failure stops the operation; generators obey seeding and size limits",
  "No operation that draws random bytes (key generation, nonces, blinding, padding, tickets, cookies) continues to a successful result when the generator reports a failure. A generator that is "
  "uninstantiated, in error, past its reseed limit without fresh seed, or asked for too much data or given over-long input refuses to produce output.",
  ["fault_sequences", "histories"], "every consumer of randomness with the generator failing at that call; all generator states and request sizes",
  "The generator does not fail in tests and its counters are far from their limits.",
  ["crypto/drbg/src", "crypto/eal/src/eal_rand.c", "crypto/util", "crypto/*/src"],
  [("DRBG state checks", "crypto/drbg/src/drbg.c"), ("consumers", "callers of the random entry points")], CT, CTN)
P("C14", "Running out of memory is reported, never dereferenced or ignored",
  "Whenever an allocation fails anywhere in the library, the operation that needed it neither dereferences the missing object (directly or in a "
  "function it is passed to) nor reports success or hands out an object as if nothing had happened.",
  ["fault_sequences"], "every allocation site in bsl, crypto, tls, pki, auth and codecs failing at any call, including constructors that return NULL through several layers",
  "Tests run with a working allocator; a few stub malloc at single call counts and cover a small part of about two thousand failure points.",
  ["bsl/sal/src/sal_mem.c", "crypto/", "tls/", "pki/", "auth/"],
  [("NULL checks after allocation", "every caller of BSL_SAL_Malloc/Calloc/Dump/Realloc and of constructors")],
  "null-fault propagation: path-sensitive dataflow with interprocedural dereference summaries",
  "All allocation-failure sites of the compiled configuration, one failure at a time; reviewed exceptions in rules/baseline/alloc*.json.")

P("C15", "Locks are always released, never re-entered and taken in one global order",
  "Every lock the library takes is released on every path out of the operation that took it, including error paths; no thread acquires a lock it "
  "already holds or releases one it does not hold; and the order in which different locks are nested has no cycle, so library calls from any "
  "threads cannot deadlock on the library's own locks.",
  ["schedules", "inputs"], "all thread interleavings and all paths through every function that takes or releases a library lock",
  "Tests are almost entirely single threaded: a leaked or re-entered lock on an error path does not show.",
  ["bsl/sal/src/sal_lock.c", "bsl/err/src/err.c", "bsl/obj/src", "crypto/eal/src/eal_rand.c", "crypto/provider/src/mgr", "tls/feature/session/src", "pki/x509_verify/src"],
  [("reader/writer lock wrappers", "bsl/sal/src/sal_lock.c"), ("session cache lock", "tls/feature/session/src/session_mgr.c"), ("error table lock", "bsl/err/src/err.c")],
  "lockset typestate and lock-order dataflow",
  "All paths of all functions using the lock API; locks identified by global or by struct field; reviewed hand-over sections in rules/baseline/locks.json.")

P("C16", "State shared between threads is only touched under its lock",
  "State that the library shares between threads - the session cache and sessions, the certificate store, the provider list and its search path, the default and seed random generators, entropy pools and sources, the object-identifier and signature "
  "tables, the error table - is read and changed only while the lock that protects it is held, in write mode for changes, except while the object is constructed or destroyed. Concurrent calls on shared objects therefore never corrupt it or use freed parts of it.",
  ["schedules"], "all interleavings of any number of threads using shared library contexts, configurations, sessions, stores and generators",
  "Tests are almost entirely single threaded, and a missing lock shows only under a particular interleaving.",
  ["tls/feature/session/src", "pki/x509_verify/src/hitls_x509_store.c", "crypto/provider/src/mgr", "crypto/eal/src/eal_rand.c", "crypto/eal/src/eal_entropy.c", "bsl/obj/src", "bsl/err/src/err.c", "crypto/entropy/src"],
  [("session cache", "tls/feature/session/src/session_mgr.c"), ("provider list", "crypto/provider/src/mgr/crypt_provider.c"), ("error table", "bsl/err/src/err.c")],
  "guarded-by lockset analysis (held locks at every access, including those held by all callers)",
  "Field-based: all objects of a type share one lock class; which lock guards which field and the accepted unlocked accesses (construction, destruction) are in rules/c16.py and rules/baseline/guarded.json.")

P("C17", "No object is used, released again or left reachable after it was released",
  "After an object has been released, nothing reads, writes, passes on, returns or releases it again on any path; a field or variable of a surviving object that referred to it is cleared or replaced before the function ends; and a reference "
  "is counted before it is shared, so an object is released only when its last user is done.",
  ["inputs", "fault_sequences", "histories"], "every path, including error paths, after every releasing call, in every order of API calls",
  "Lifetime errors hide on error paths and in call orders tests do not take; without a sanitizer most do not even crash.",
  ["crypto/", "tls/", "pki/", "bsl/", "auth/", "codecs/", "apps/src"],
  [("destroy and free functions", "whole library"), ("reference counts", "crypto/*/src (UpRef), tls/feature/session/src, pki/x509_*"), ("atomic counters", "bsl/sal/src/sal_atomic.c")],
  "object-lifetime typestate: path-sensitive dataflow after every releasing call, with interprocedural release summaries",
  "One released object at a time, on all paths of the releasing function; across functions through summaries and the rule that fields of survivors are cleared; reviewed exceptions in rules/baseline/uaf.json.")

P("C18", "A failing internal step is never reported to the caller as success",
  "Whenever an internal step of an operation fails (a callee returns an error status), the operation does not return success or a finished object to "
  "its caller on any path afterwards, except at the reviewed places where the failure is handled by a documented fallback or is irrelevant clean-up.",
  ["inputs", "fault_sequences"], "every call of a status-returning function or method in bsl, crypto, tls, pki, auth, codecs and apps, failing with any error code",
  "Most failures (exhausted randomness, provider errors, arithmetic errors, I/O errors) cannot be provoked from tests, which see only the success path.",
  ["bsl/", "crypto/", "tls/", "pki/", "auth/", "codecs/"],
  [("status checks after every call", "whole library")],
  "error-flow analysis: path-sensitive dataflow with one injected failure per call site",
  "All status call sites of the compiled configuration, one failure at a time; reviewed exceptions in rules/baseline/err.json.")

P("C21", "Every object obtained is released or handed over on every path",
  "An object, buffer or reference a function obtains is, when the function returns, released, returned to the caller or stored in an object that releases it - on the success path and on every error path, also when the call meant to take ownership fails. "
  "Destroying an object releases everything it owns.",
  ["fault_sequences", "inputs"], "every acquisition site and every path from it to a return, with any later step failing",
  "Leaks on error paths are not observable in functional tests and the failures that trigger them rarely happen.",
  ["bsl/", "crypto/", "tls/", "pki/", "auth/", "codecs/"],
  [("allocation and construction sites", "whole library"), ("destructors", "*Free, *Destroy functions")],
  "ownership dataflow: acquisition-to-release typestate with interprocedural ownership summaries",
  "All acquisition sites of the compiled configuration, all paths, one failing hand-over at a time; reviewed exceptions in rules/baseline/release.json.")

P("C22", "Unknown algorithms, providers and attributes are refused, never substituted",
  "Looking up an algorithm, provider, decoder or attribute yields an object only if the requested identifier is known to the selected library context and provider and complete; unknown or duplicate ids, "
  "missing mandatory methods, failed provider loading and failed context construction are reported, and duplicating or copying a context never yields a partly initialised object.",
  ["inputs", "fault_sequences"], "all algorithm ids, provider names, attribute strings and library contexts",
  "Tests use registered identifiers; every unknown or partially supported one must be refused.",
  ["crypto/provider/src", "crypto/eal/src", "codecs/src"],
  [("provider manager", "crypto/provider/src/mgr/crypt_provider.c"), ("method lookup", "crypto/eal/src/eal_*_method.c")], CT, CTN)

P("C23", "Base containers and I/O refuse out-of-range, null and inconsistent requests",
  "Lists, hash tables, parameter arrays, configuration files, object identifiers, error tables, I/O objects, user prompts and system wrappers return success only if the arguments are legal, the "
  "item exists or fits, types match and the underlying callback or system step succeeded.",
  ["inputs", "fault_sequences"], "all argument values, container states and callback results",
  "Negative argument and state combinations are sampled, callbacks hardly ever fail in tests.",
  ["bsl/list/src", "bsl/hash/src", "bsl/params/src", "bsl/conf/src", "bsl/uio/src", "bsl/ui/src", "bsl/obj/src", "bsl/err/src", "bsl/sal/src"],
  [("parameter arrays", "bsl/params/src/bsl_params.c"), ("I/O abstraction", "bsl/uio/src/uio_abstraction.c")], CT, CTN)

P("C24", "X.509 path validation accepts a chain only if every check passes",
  "Verifying a certificate chain or revocation list succeeds only if, for every certificate of the path, the signature verifies with the issuer's key, issuer and subject identifiers match, the validity period covers the verification time, "
  "basic constraints, path length and key usages permit its role, no unsupported critical extension is present, and revocation status as requested is good. Any failed, missing or inconclusive check that was requested makes verification fail.",
  ["inputs"], "all certificate chains, trust stores, revocation lists, verification flags and times",
  "Chains vary without bound; tests verify a fixed set of generated chains.",
  ["pki/x509_verify/src/hitls_x509_verify.c", "pki/x509_verify/src/hitls_x509_store.c", "pki/x509_common/src/hitls_x509_common.c"],
  [("chain verification", "pki/x509_verify/src/hitls_x509_verify.c"), ("issuer matching", "pki/x509_common/src/hitls_x509_common.c")], CT, CTN)

P("C25", "Malformed TLS messages, extensions and tickets are rejected by the parsers",
  "Every length-prefixed structure received from the peer is accepted only if each inner length fits in the remaining bytes, mandatory parts are present and non-empty, fixed values are legal, extensions are permitted in that message and not repeated, and no "
  "trailing bytes remain where the format forbids them. A violated condition or failing sub-parser makes the parse fail.",
  ["inputs"], "all byte strings delivered as handshake messages, extensions, session data and record headers",
  "The malformed input space is unbounded.",
  ["tls/handshake/parse/src", "tls/handshake/reass/src", "tls/record/src/rec_read.c", "tls/feature/session/src/session_dec.c"],
  [("message parsers", "tls/handshake/parse/src"), ("session decoding", "tls/feature/session/src/session_dec.c")], CT, CTN)

P("C27", "Illegal keys and domain parameters are refused when set, generated or checked",
  "Setting, importing, generating or checking a key or domain parameters succeeds only if all mandatory parts are present, of legal length and range, on the curve or in the group where applicable, consistent with each other and with the context's parameters, and every internal computation succeeded. A rejected key is never left reported as usable.",
  ["inputs", "fault_sequences"], "all key and parameter values for all asymmetric algorithms",
  "Illegal values are an unbounded set and tests sample single cases per algorithm.",
  ["crypto/ecc/src", "crypto/rsa/src", "crypto/dsa/src", "crypto/dh/src", "crypto/sm2/src", "crypto/mlkem/src", "crypto/mldsa/src", "crypto/eal/src/eal_pkey_gen.c", "crypto/ealinit/src"],
  [("public key checks", "crypto/ecc/src/ecc_pkey.c"), ("parameter checks", "crypto/dh/src, crypto/dsa/src, crypto/ealinit/src")], CT, CTN)

P("C28", "Negotiation never settles on parameters the local policy or protocol forbids",
  "The version, cipher suite, group, signature algorithm, extensions, application protocol and renegotiation mode agreed with a peer are always among those offered or enabled locally, consistent with each other, with an earlier hello of the same connection and with the security level; "
  "downgrade indications, missing mandatory extensions, illegal or repeated retry requests and unsolicited extensions are refused.",
  ["inputs", "histories"], "all peer hello and extension contents against all local configurations",
  "Offers and configurations combine without bound.",
  ["tls/handshake/recv/src/recv_client_hello.c", "tls/handshake/recv/src/recv_server_hello.c", "tls/feature/security/src", "tls/config/src/cipher_suite.c", "tls/handshake/common/src/hs_common.c"],
  [("server hello checks", "tls/handshake/recv/src/recv_server_hello.c"), ("client hello processing", "tls/handshake/recv/src/recv_client_hello.c"), ("security levels", "tls/feature/security/src/security_default.c")], CT, CTN)

P("C29", "Sessions and tickets are resumed only if authentic, unexpired and matching",
  "A session, ticket or pre-shared key is used for resumption only if it decrypts and authenticates under a current ticket key, decodes completely, has not expired, belongs to the same version, cipher suite, session-id context and security properties as the new connection, and its binder verifies. Otherwise a full handshake or an error follows. Storing and issuing tickets fails if any step fails.",
  ["inputs", "histories"], "all tickets, session ids, pre-shared keys, binders and clock values, in all orders of key rotation",
  "Ticket contents and time are unbounded.",
  ["tls/feature/session/src", "tls/handshake/recv/src/recv_client_hello.c", "tls/handshake/recv/src/recv_server_hello.c"],
  [("ticket decryption", "tls/feature/session/src/session_ticket.c"), ("resumption checks", "tls/handshake/recv/src/recv_client_hello.c")], CT, CTN)

P("C30", "Malformed DER, PEM, base64 and key or certificate encodings are rejected",
  "Decoding ASN.1, PEM, base64, keys, certificates, requests and revocation lists succeeds only if every tag and length is legal and fits, mandatory elements are present, identifiers and parameters are supported and consistent, and all nested decoders succeeded; encoding succeeds only if every part could be produced.",
  ["inputs"], "all input byte strings and all object contents",
  "The malformed input space is unbounded.",
  ["bsl/asn1/src/bsl_asn1.c", "bsl/pem/src/bsl_pem.c", "bsl/base64/src/bsl_base64.c", "crypto/codecskey/src", "pki/x509_cert/src", "pki/x509_crl/src", "pki/x509_csr/src", "pki/x509_common/src"],
  [("ASN.1 template decoder", "bsl/asn1/src/bsl_asn1.c"), ("key decoders", "crypto/codecskey/src")], CT, CTN)

P("C31", "PKCS#12 and CMS containers are opened or verified only if every check passes",
  "Parsing a PKCS#12 store succeeds only if its structure is legal and, when integrity is requested, its MAC matches; verifying a CMS signed message succeeds only if a signer's certificate, digest, attributes and signature all check out. Missing parts, unsupported algorithms and failing steps are errors in both reading and writing.",
  ["inputs", "fault_sequences"], "all container contents, passwords, signer sets and options",
  "Container contents vary without bound.",
  ["pki/pkcs12/src", "pki/cms/src"],
  [("MAC verification", "pki/pkcs12/src/hitls_pkcs12_common.c"), ("signed-data verification", "pki/cms/src/hitls_cms_signdata.c")], CT, CTN)

P("C32", "Hash-based signing checks parameters, indexes, lengths; keys never over-used",
  "XMSS, LMS/HSS and SLH-DSA operations succeed only with supported parameter sets, indexes within the key's capacity, keys and signatures of exact length and all internal hashing successful; an exhausted private key refuses to sign and a state that could not be advanced does not yield a signature.",
  ["histories", "inputs"], "all key states from fresh to exhausted, all signatures and parameter sets",
  "Exhausting a key is infeasible in tests.",
  ["crypto/hbs/xmss/src", "crypto/hbs/lms/src", "crypto/hbs/hss/src", "crypto/hbs/slh_dsa/src"],
  [("index checks", "crypto/hbs/xmss/src/xmss_core.c"), ("signature parsing", "crypto/hbs/lms/src/lms_verify.c")], CT, CTN)

P("C33", "Entropy is delivered only from healthy, sufficient and initialised sources",
  "Entropy requests succeed only if the source is enabled and initialised, its health tests have not failed, the pool holds enough assessed entropy and the requested length is within limits; failing noise sources, conditioning steps or hardware reads are reported.",
  ["fault_sequences", "histories"], "all noise-source behaviours, pool states and requested lengths",
  "Noise sources do not fail in tests.",
  ["crypto/entropy/src", "crypto/eal/src/eal_entropy.c"],
  [("health tests", "crypto/entropy/src/es_health_test.c"), ("entropy source", "crypto/entropy/src/es_entropy.c")], CT, CTN)

P("C34", "Hashes, MACs and KDFs refuse illegal parameters, lengths and call orders",
  "Digest, MAC and key derivation calls succeed only if the context is initialised, parameters (hash, key, salt, iteration counts, cost values, output length) are present and legal, output space suffices and all internal steps succeed.",
  ["inputs", "histories"], "all call sequences and parameter values for all digests, MACs and derivation functions",
  "Known-answer tests cover legal use only.",
  ["crypto/pbkdf2/src", "crypto/scrypt/src", "crypto/hkdf/src", "crypto/kdf/src", "crypto/eal/src/eal_md.c", "crypto/eal/src/eal_mac.c", "crypto/hmac/src", "crypto/sha2/src", "crypto/sha3/src"],
  [("digest state machine", "crypto/eal/src/eal_md.c"), ("derivation parameters", "crypto/pbkdf2/src/pbkdf2.c, crypto/scrypt/src/scrypt.c")], CT, CTN)

P("C35", "OTP, PAKE, tokens and HPKE never accept an unverified or malformed value",
  "One-time passwords, password-authenticated exchanges, privacy-pass tokens and HPKE messages are accepted only if all inputs are present and well formed, the protocol step is allowed in the current state, confirmation values or signatures compare equal, and no internal step failed.",
  ["inputs", "histories"], "all protocol messages, states, roles and callback results",
  "Message and state space is unbounded.",
  ["auth/otp/src", "auth/pake", "auth/privpass_token/src", "crypto/hpke/src"],
  [("token verification", "auth/privpass_token/src/privpass_token.c"), ("key confirmation", "auth/pake/spake2plus/src/spake2plus.c")], CT, CTN)

P("C36", "TLS configuration rejects illegal, unsupported or inconsistent settings",
  "Every configuration or connection setter and constructor either applies a legal value completely or reports an error: null objects, out-of-range values, unknown enumerations, oversized strings, unsupported versions or algorithms and failing copies are refused.",
  ["inputs", "fault_sequences"], "all setter arguments and configuration combinations",
  "Tests sample a few illegal values per setter.",
  ["tls/config/src", "tls/cm/src/conn_ctrl.c", "tls/cm/src/conn_create.c"],
  [("configuration setters", "tls/config/src/config.c"), ("configuration check", "tls/config/src/config_check.c")], CT, CTN)

P("C37", "Big-number operations report illegal operands and insufficient space",
  "Big-number arithmetic reports success only if operands are present, legal for the operation (non-zero divisor, odd modulus, invertible value, non-negative input), within size limits, the result fits and every internal step succeeded.",
  ["inputs", "fault_sequences"], "all operand values, sizes and allocation outcomes",
  "Operand space is unbounded.",
  ["crypto/bn/src"],
  [("operand checks", "crypto/bn/src/bn_operation.c"), ("modular arithmetic", "crypto/bn/src")], CT, CTN)

P("C38", "Command-line tools report failure whenever a requested step failed",
  "A command of the openHiTLS tool returns its success status only if option parsing, key and file loading, the cryptographic operation and writing the result all succeeded.",
  ["inputs", "fault_sequences"], "all option combinations, inputs and failing steps",
  "Tests run selected command lines.",
  ["apps/src"],
  [("commands", "apps/src/app_*.c")], CT, CTN)
