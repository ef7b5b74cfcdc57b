"""What each check is made of; used for the evidence files and by mkmanifest.py."""
TOOL_REAL = ["ui/keypair.c, ui/sign.c, ui/open.c (all twelve builds)", "xmss.c", "xmss_core.c / xmss_core_fast.c", "xmss_commons.c", "wots.c", "hash.c", "hash_address.c", "fips202.c", "params.c", "randombytes.c", "utils.c", "glibc stdio buffering", "OpenSSL SHA-2"]
LIB_REAL = TOOL_REAL[1:11] + ["OpenSSL SHA-2"]
OS_STUB = ["system calls: files, page cache and stable storage, locks, entropy device, clock, process scheduling, memory allocation", "tree shapes and one-time signatures of most runs are scaled down through the code's own parameter structure"]
LIB_STUB = ["entropy device, clock, memory allocation, hash provider failures", "tree shapes and one-time signatures of most runs are scaled down through the code's own parameter structure (a share of the runs uses real ones)"]
ASSUMPTIONS = [
    "sampling, not enumeration: nothing is claimed about runs that were not drawn",
    "the simulated file system and entropy device behave as documented in DESIGN.md (512-byte sectors are atomic, fsync that succeeds makes the file durable)",
    "scaled-down parameters take the same code paths as registered ones",
    "the independent model of RFC 8391 / SP 800-208 in sim/model.cpp is right",
]
OSR = "Each run draws a parameter set and tree shape, an implementation, a key at some point of its life, messages, "
ABOUT = {
 "C01": dict(tech="deterministic simulation: crashes, power loss and I/O faults around the signing tool", rule=OSR + "and a history of signing-tool runs with kills, power losses and failing, short or lost I/O at drawn system calls, single ones or conditions that last; some histories mix the tools of both implementations. Non-trivial: at least one fault or crash hit a running tool.", real=TOOL_REAL, stub=OS_STUB),
 "C02": dict(tech="deterministic simulation: I/O and allocation faults in the signing tool", rule=OSR + "and faults or short transfers at drawn system calls and allocations of one run of the signing tool, power lost right after it. Non-trivial: a fault fired.", real=TOOL_REAL, stub=OS_STUB),
 "C03": dict(tech="deterministic simulation: interleaved signing-tool processes", rule=OSR + "and rounds of two or three concurrent signing-tool processes on one key file, scheduled at every system call, some killed, some stalled for up to 100 s of simulated time, a sixth of the rounds with I/O faults, a sixth of the runs with a key file that has two names. All completed runs are non-trivial.", real=TOOL_REAL, stub=OS_STUB),
 "C04": dict(tech="deterministic simulation: entropy and output faults in the key generation tool", rule=OSR + "and faults of the entropy device and of stdout during a run of the key generation tool. Non-trivial: a fault fired.", real=TOOL_REAL, stub=OS_STUB),
 "C05": dict(tech="deterministic simulation: entropy device faults under simulated time", rule="Each run draws request lengths (0 to some MiB), a number of calls and a sequence of failing opens, failing, interrupted, empty and short reads of the entropy device. Non-trivial: a fault fired.", real=["randombytes.c"], stub=["entropy device, clock, sleep"]),
 "C06": dict(tech="deterministic simulation: damaged and unreadable files in the verification tool", rule=OSR + "and damages to, truncations of and read faults on the files given to the verification tool. Non-trivial: a file was damaged or a fault fired.", real=TOOL_REAL, stub=OS_STUB),
 "C07": dict(tech="deterministic simulation: truncated keys and unreadable files in the signing tool", rule=OSR + "and a truncated or mislabelled key file, a failing read, or a message file that shrinks while it is read. Every run is non-trivial.", real=TOOL_REAL, stub=OS_STUB),
 "C08": dict(tech="deterministic simulation: whole key lives with restarts and killed signing calls", rule="Each run draws an implementation, tree shape and restart rate and signs along the key's life (all of it for small trees), moving the key to new processes and killing calls on the way; every signature is verified by the model, some by the code; a few runs walk 66000 signatures up a tree of height 17. Non-trivial: a restart or kill happened.", real=LIB_REAL, stub=LIB_STUB),
 "C09": dict(tech="deterministic simulation: refinement against an executable model across key histories", rule="Each run draws a registered or scaled parameter set, an index anywhere in its index space, a message, and compares signatures, key pairs or verdicts byte by byte with the model's, after real or no previous history; a few runs sign in tall trees or hash messages of more than 4 GiB. All runs are non-trivial.", real=LIB_REAL, stub=LIB_STUB),
 "C10": dict(tech="deterministic simulation: exhausted keys across restarts and crashes", rule="Each run draws a shape (a third with index fields without spare bits), goes to the end of the key's life and on, with reloads, or does so through the signing tool with crashes and faults. All runs are non-trivial.", real=TOOL_REAL, stub=OS_STUB),
 "C11": dict(tech="deterministic simulation: a network that damages, exchanges and reorders deliveries", rule="Each run draws a pool of genuine signed messages and a sequence of deliveries: intact, duplicated, with flipped bits in any field, spliced, truncated, extended, under wrong keys. Non-trivial: a damaged delivery occurred.", real=LIB_REAL, stub=LIB_STUB),
 "C12": dict(tech="deterministic simulation: truncated and garbled deliveries in guarded memory", rule="Each run draws input lengths (around every field boundary), contents and key identifiers; input, key and output lie against unmapped pages; rare inputs exceed 4 GiB. All runs are non-trivial.", real=LIB_REAL, stub=LIB_STUB),
 "C13": dict(tech="deterministic simulation: crash injection at every memory access of a signing call", rule="Each run draws a parameter set, index and message, watches one complete signing call access by access, then repeats it cut short at drawn accesses, and signs again from the surviving key. All completed runs are non-trivial.", real=LIB_REAL + ["compiled with -fsanitize=thread instrumentation"], stub=LIB_STUB + ["the sanitizer runtime"]),
 "C14": dict(tech="deterministic simulation: seeded interleaving of threads at memory accesses", rule="Each run draws two or three threads with one or two operations each on keys of their own and preempts them at drawn memory accesses, at accesses to writable globals, at hash calls and system calls. Non-trivial: more switches than threads.", real=LIB_REAL + ["compiled with -fsanitize=thread instrumentation"], stub=LIB_STUB + ["the sanitizer runtime", "thread scheduler, locks"]),
 "C15": dict(tech="deterministic simulation: keys migrating between processes and interleaved in one", rule="Each run draws two to four keys and a sequence of signing, verification and key generation steps in guarded buffers at changing addresses, with process changes. All runs are non-trivial.", real=LIB_REAL, stub=LIB_STUB),
 "C16": dict(tech="deterministic simulation: failing hash provider", rule="Each run draws successful operations and then one operation during which the hash provider fails at a drawn call, once, a few times or from then on. Non-trivial: a call failed.", real=LIB_REAL, stub=LIB_STUB),
 "C17": dict(tech="deterministic simulation: repeated attempts from an old key state", rule="Each run draws a key state and message and signs it several times from the same key bytes, with restarts, killed attempts, other keys' operations and a failing entropy device in between. All runs are non-trivial.", real=LIB_REAL, stub=LIB_STUB),
 "C18": dict(tech="deterministic simulation: work counted at the hash provider along whole key lives", rule="Each run draws a tree shape and walks along the key's life with restarts, counting hash calls and one-time key evaluations of every signing call. All runs are non-trivial.", real=LIB_REAL, stub=LIB_STUB, assumptions=["work is counted for the SHA-2 parameter sets only"]),
 "C19": dict(tech="deterministic simulation: recovery after kills and power loss", rule=OSR + "and one signing-tool run killed or cut off by power loss, then an undisturbed one. Non-trivial: the crash hit a running tool.", real=TOOL_REAL, stub=OS_STUB),
 "C24": dict(tech="deterministic simulation: histories of disturbed signing runs on one key file", rule=OSR + "and rounds of one to three signing-tool runs with kills, power losses and faults, looking at the key file after every round and every power loss. Non-trivial: a fault or crash happened or runs overlapped.", real=TOOL_REAL, stub=OS_STUB),
 "C25": dict(tech="deterministic simulation: verification interleaved with signing processes", rule=OSR + "and one or two signing-tool processes interleaved with one to three verification-tool processes at every system call, half of the signers killed or faulted, processes stalled in a quarter of the runs. All runs are non-trivial.", real=TOOL_REAL, stub=OS_STUB),
 "C26": dict(tech="deterministic simulation: long call histories with resource accounting", rule="Each run draws one to five operations (key generation, signing, verification of valid, damaged or truncated messages, calls with unknown identifiers or used-up keys, random bytes) and repeats them 10 to 33 times in one process, half of the time with a failing entropy device. All runs are non-trivial.", real=LIB_REAL, stub=LIB_STUB),
 "C27": dict(tech="deterministic simulation: whole tool life cycles with crashes and faults", rule=OSR + "runs the key generation tool, one to four rounds of one or two signing-tool processes with kills, power losses and faults, and then the verification tools on everything handed out. All completed runs are non-trivial.", real=TOOL_REAL, stub=OS_STUB),
 "C28": dict(tech="deterministic simulation: search for secrets in everything that survives faults and kills", rule=OSR + "and one to three tool runs with kills, faults, unreadable messages and cut keys (two thirds of the runs) or library calls that are killed or fail at hash calls or are refused (one third). Non-trivial: something disturbed the run.", real=TOOL_REAL, stub=OS_STUB),
 "C30": dict(tech="deterministic simulation: tools on different keys interleaved", rule="Each run draws two or three keys (same or different parameter sets, implementations and directories) and rounds of signing, verification and key generation tools on them, interleaved at every system call, one of them possibly killed or hit by faults, others stalled. Non-trivial: at least two tools ran at the same time.", real=TOOL_REAL, stub=OS_STUB),
 "C29": dict(tech="deterministic simulation: key generation across forks, restarts and entropy faults", rule="Each run draws one or two parameter sets and a sequence of key generations in the same, a forked or a new process with other calls in between, half of the time with a failing entropy device. Non-trivial: a fork or a fault happened.", real=LIB_REAL, stub=LIB_STUB),
}
NA = {
 "C20": "computational hardness: no schedule, fault or history decides it",
 "C21": "timing and cache behaviour are properties of the machine, which the simulator replaces; it cannot see them",
 "C22": "a pure function of its argument with no schedule, time, fault or history in it; simulation would be input generation under another name",
 "C23": "a pure function of its argument with no schedule, time, fault or history in it; simulation would be input generation under another name",
}
LEVEL_NOTE = "Seeded search over simulated executions: a clean batch is evidence, not proof. Trusts the simulated OS, the independent model in sim/model.cpp, and that scaled-down parameters take the same paths as registered ones."
