# property: (what is encoded and decided, oracle)
P = {
'A01': ("AuthEntity/AuthGetToken through RPC, tree, chains, db over a symbolic store; one fault at any access; separately the real bcrypt engine over a model of bcrypt's key derivation (72-byte limit, NUL wrap); also with names and texts drawn from 31 that code could be tempted to trim, fold, cut or interpret.", "`exists and not locked and presented == stored plaintext`, a formula over the symbolic request and record; token present only on success."),
'A02': ("Every request of the protocol (drawn request kind, drawn contents, several authorities) against a locked or unlocked entity; histories lock/other/unlock.", "the stored lock flag of every entity before = after, unless the request is a lock/unlock naming exactly it; locked entities refuse their right secret."),
'A03': ("AuthGetToken over every acyclic rule graph of small size, symbolic capabilities and memberships; also after history steps that change them; also with names and texts drawn from 31 that code could be tempted to trim, fold, cut or interpret.", "claims' identity = requester; claims' capabilities = union computed by an independent recursive reference semantics over the stored objects."),
'A04': ("the JWT provider's Generate/Validate with drawn algorithm headers, keys, claims and times; the key-file handling on the virtual file system; key histories over restarts.", "accepted iff own RSA key, RSA family algorithm, issued-at/not-before <= now <= expiry; claims equal; key files never replaced, private one never readable by others."),
'A05': ("AuthChangeSecret with drawn target, old secret, token, authority, lock flags; then authentications; also with names and texts drawn from 31 that code could be tempted to trim, fold, cut or interpret.", "formula for being allowed; afterwards exactly the new (or old) secret authenticates; record otherwise unchanged."),
'A06': ("every request that carries a secret, including bootstrap, with a failing or working engine; plus the real bcrypt engine; also with names and texts drawn from 31 that code could be tempted to trim, fold, cut or interpret.", "each persisted secret is a handle returned by SecureSecret for that very plaintext; nothing persisted on failure."),
'A07': ("every response of every request, over records with secrets, via symbolic names and expressions; search over the mapping NetAuth really builds; malformed queries.", "no byte string of a response contains the secret or its handle; the secret never reaches the index."),
'A08': ("every request with right and wrong secrets, good, bad and missing tokens and one fault, a bootstrap and restart, main(), the bcrypt engine, the RSA token service with intact, damaged and missing keys, the three stores, the client library, the command-line tool and the failed-login plugin; the logger is a recorder and what is printed is kept (a message logged whole counts with all its fields).", "no recorded argument or printed text contains the secret (symbolic letters after a marker that occurs nowhere else), a stored handle, a token or the private key."),
'B01': ("every mutating request x drawn authority (any capability value, none, invalid/missing/doubled token, own-object, unknown token) with symbolic names; two-request histories in which another holder acted before.", "documented capability table (docs/): success implies authority, authority implies no `permission` refusal; refused implies store unchanged."),
'B02': ("every request in read-only mode, any authority including delegated managers.", "store byte-for-byte equal; mutating requests answer 'read-only'/unsupported (also with invalid tokens)."),
'B03': ("every group-changing request with drawn managing groups (none, self, missing, nested), memberships, tokens; histories that end a delegation; also with names and texts drawn from 31 that code could be tempted to trim, fold, cut or interpret.", "membership reference semantics of the managing group of the named group; nothing else grants."),
'B04': ("every request except SystemCapabilities with capability fields filled in, by the most powerful non-root; SystemCapabilities by any authority.", "capability sets of every stored object equal before/after, unless root-authorised capability request."),
'B05': ("SystemCapabilities grant/removal over 0..3 symbolic existing capabilities, missing targets, faults.", "set algebra over the prior capabilities; no duplicates; rest of the record equal."),
'C01': ("EntityCreate/GroupCreate over names in use, unreadable, undecodable, empty records, faults; also with names and texts drawn from 31 that code could be tempted to trim, fold, cut or interpret.", "store frame equality on failure; exactly the requested object on success."),
'C02': ("automatic and explicit numbering over arbitrary 32-bit numbers already present, sequences with deletions.", "`n > 0 and n not in used`, for all bit-vector values; otherwise failure."),
'C03': ("EntityUpdate with any subset of fields and foreign fields supplied; also with names and texts drawn from 31 that code could be tempted to trim, fold, cut or interpret.", "field-by-field expected record."),
'C04': ("GroupUpdate likewise; also with names and texts drawn from 31 that code could be tempted to trim, fold, cut or interpret.", "field-by-field expected record."),
'C05': ("KV2 add/del/replace/get on entities and groups with symbolic keys and values; also with names and texts drawn from 31 that code could be tempted to trim, fold, cut or interpret.", "reference map; distinct error codes."),
'C06': ("untyped metadata upsert/clear/fuzzy clear/read with keys over an alphabet that contains the index syntax; also with names and texts drawn from 31 that code could be tempted to trim, fold, cut or interpret.", "reference rules written from the documentation over the byte vectors."),
'C07': ("EntityKeys add/remove/list with types in any case and key texts sharing substrings; also with names and texts drawn from 31 that code could be tempted to trim, fold, cut or interpret.", "reference set."),
'C08': ("every request with names over letters, '/' and '.' (also names that path-clean to other records), root authority; reads likewise.", "every stored record whose key is not exactly the named object's is byte-for-byte unchanged; returned objects carry exactly the requested name."),
'C09': ("destroy over memberships, rules, faults, before and after restart.", "every read/auth/list/membership path reports absence; store otherwise unchanged."),
'D01': ("resolver answers (MemberOf, listings, AuthGetToken paths) over every acyclic rule graph, all storage orders at start, all map orders, and one to three arbitrary changes; also with names and texts drawn from 31 that code could be tempted to trim, fold, cut or interpret; also large objects with many dependants.", "independent recursive reference semantics over the stored objects."),
'D02': ("member and membership listings after a change.", "they are each other's inverse and equal to the reference; no duplicates."),
'D03': ("every rule change between any two groups of every acyclic graph, existing or missing, by any typed request; symbolic names; also with names and texts drawn from 31 that code could be tempted to trim, fold, cut or interpret.", "accepted iff target exists, no rule for target yet, no cycle results; refused implies unchanged."),
'D04': ("rule and membership edits with symbolic names sharing prefixes, substrings and colons; also with names and texts drawn from 31 that code could be tempted to trim, fold, cut or interpret.", "exact reference set of rules/memberships."),
'D05': ("every answer of a server that lived through drawn changes against one freshly started on the same store (any enumeration order).", "equality of authentication, membership, listing and capability answers."),
'E01': ("every mutating request with a fault at any store or crypto call, or plugin-less hooks; sequences.", "failure => stored data equal; success => requested change is in the store."),
'E02': ("a second client's whole request at any storage/tree access of the first; three clients under the server's own locks as goroutines.", "final store equals one of the serial orders, which are executed symbolically as well; numbers unique; nobody waits forever."),
'E03': ("pairs of operations on resolver, memory store, token cache and whole requests executed from the same symbolic state with lock-set recording; every lock released on every path; self-deadlock.", "no two unordered conflicting accesses without a common lock."),
'E04': ("memory store: histories of put/get/del/keys/close with symbolic keys and values incl. glob characters; foreign keys.", "reference map; events exactly for the object changed."),
'E05': ("filesystem store: same histories on the virtual file system; arbitrary keys; unreadable files, directories as keys, the marker file; data directories with any name.", "reference map; every path touched lies within the base (recorded by the stand-in, nothing real is touched)."),
'E06': ("filesystem store with the process dying before/after/inside any file-system call of a write or delete, then a restart.", "each object reads old or new; the rest unchanged; enumeration equals the objects."),
'E07': ("bitcask store over an engine stand-in with faults at any call; opening and closing.", "reference map; ErrNoValue iff absent; event exactly for the object."),
'E08': ("`nsutil db copy` main flow over two real stores with symbolic objects, both switches, faults, same store twice.", "byte equality of all records; source never written; dry run writes nothing."),
'E09': ("token caches (memory, file) with histories of symbolic owners; permissions on the virtual file system; also with texts drawn from 31 that code could be tempted to trim, fold, cut or interpret.", "reference map per owner; mode 0600 and never visible to others at any instant."),
'F01': ("server main() and Bootstrap histories with symbolic id/secret text.", "at most one effect, before DisableBootstrap; recovered entity equals the old one but lock, secret, root."),
'F02': ("every request with each field present/absent/odd, by every requester, over healthy and damaged stores.", "no panic, no exit, no unbounded loop/recursion on any path (engine-level)."),
'F03': ("status over 0..3 registered checks with symbolic names and results; plugin checks.", "conjunction; each exactly once; first failure named iff any."),
'F04': ("server main() and client dial with drawn configuration, certificate loading and sockets failing.", "TLS credentials with the configured files or no server/connection, unless the explicit switch."),
'F05': ("every client library call with symbolic arguments over recorded connections; sequences; unreachable master; empty answers; 64-bit numbers; also with texts drawn from 31 that code could be tempted to trim, fold, cut or interpret.", "exactly one request equal to the arguments on the right connection; result/error passed through."),
'F06': ("client-side decoding of untyped metadata with symbolic entries and index annotations; also with texts drawn from 31 that code could be tempted to trim, fold, cut or interpret.", "order by index, multiset of values per key preserved."),
'F07': ("chain construction and execution with drawn priorities, failing stages, map orders, plus plugin stages.", "ascending order, load first, save last, later stages not run after a failure."),
'F08': ("every request through the plugin manager, RPC glue and 0..2 plugins with drawn behaviours (amend, error, transport fault, default); the server's main function with plugins disabled, searched for or listed.", "as without plugins / amended object / aborted with stored data unchanged."),
'F09': ("fail2lock with drawn login histories, times, configuration; races; also with texts drawn from 31 that code could be tempted to trim, fold, cut or interpret.", "reference counter over the drawn times."),
'F10': ("unreadable/undecodable records in any position for every request; memberships over unreadable groups, before and after restart.", "internal error/authentication failure, record untouched; nobody gains membership compared with the readable world."),
'F11': ("every change, with the index as recording stand-in; searches afterwards; several objects; also with texts drawn from 31 that code could be tempted to trim, fold, cut or interpret.", "index documents = stored objects under exactly their names; returned objects are the current ones."),
'F14': ("the real command-line tool and client library on answers with drawn patterns of fields, values, orders and subsystems, and drawn --fields flags.", "the answer given: each value asked for occurs once and in order in what is printed, nothing else of the answer does; values stand under their keys."),
'F12': ("the real command-line tool (cobra, flags, client library) for every command with drawn arguments, flags and keyword spellings, token/cache/login/prompt outcomes, and every kind of mistyped command; also with texts drawn from 31 that code could be tempted to trim, fold, cut or interpret.", "table of commands to requests written from the documentation; exactly that one request with the valid token; exit status 0 iff it succeeded."),
'F13': ("server main(), client construction and `nsutil db copy` with several implementations of each kind registered (names differing in case, some failing to start) and every kind of configured name; the four registries with symbolic names; bcrypt cost and key size.", "the implementation first registered under exactly the configured name is the only one started and used, else refusal."),
'G03': ("server main() with plugin processes, signals and requests in flight as goroutines.", "requests finished, plugins stopped, exit code 0."),
}
