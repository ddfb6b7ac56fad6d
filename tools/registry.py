"""What check.py and tools/gen_manifest.py need to know about each property's check."""
CHECKS = {}

PBT = "rapid property-based testing"
STATEFUL = "stateful property-based testing (rapid) against a reference model"
TRUST = " Trusted: the Go toolchain, rapid and the oracle in the harness. Generated-input search: strong evidence, not a proof."


def reg(pid, pkg, technique, note, race=False, shards=2, assumes=(), **kw):
    CHECKS[pid] = dict(pkg=pkg, technique=technique, note=note + TRUST, race=race, shards=shards,
                       assumes=list(assumes), **kw)


FAKE_CLOCK = "time is testing/synctest's fake clock, which the code under test reads through time.Now and timers"
RACE = "the race detector and the Go scheduler only show the interleavings that ran"

for pid in ("C01", "C02", "C03", "C04", "C05"):
    reg(pid, "limiter", STATEFUL + " on a fake clock",
        "Every decision of random (gap, burst) histories, gaps biased to the decision edges and parameters up to the "
        "maximum integer, is compared with an exact (big-integer) model; sequential use only (concurrency is C06).",
        assumes=[FAKE_CLOCK])
reg("C06", "limiterc", "random concurrent bursts under the race detector against the sequential count",
    "Random bursts of goroutines on each limiter at frozen fake instants and on the real clock; admissions must equal "
    "the sequential model's and the race detector must stay quiet.", race=True, shards=4,
    assumes=[FAKE_CLOCK, RACE])
reg("C07", "delayq", STATEFUL + " on a fake clock",
    "Random push/pop/look/take histories, delays and sleeps biased to due instants, ties and extremes, compared with a "
    "multiset model; sequential (concurrency is C08).", assumes=[FAKE_CLOCK])
reg("C08", "delayq", "random concurrent scripts in a deterministic-clock bubble with history invariants, under the race detector",
    "Scripts of concurrent takers, delivery channels, pushes and cancellations; after every step no due element may be "
    "in the queue while a live taker waits, cancelled takers must have returned, and at the end each element must have "
    "been delivered once. Interleavings within one instant are the scheduler's.", race=True, shards=4,
    assumes=[FAKE_CLOCK, RACE])
for pid, note in (
    ("C09", "One-shot tasks with delays biased to tick, turn and overflow-wheel edges, scheduled by concurrent goroutines "
            "and by tasks; every run must fall in its window, exactly once."),
    ("C10", "Stops in quiescence (result must be exact), from the task itself and racing with the expiry, and context "
            "cancellation at task edges followed by more scheduling; a goroutine left behind fails the bubble."),
    ("C11", "Recurring tasks with generated series of times; runs are matched with the yielded times and the scheduler's "
            "arguments are checked.")):
    reg(pid, "wheel", "random schedules and scripts in a fake-clock bubble with history invariants, under the race detector",
        note + " Preemption inside one call is the scheduler's (see DESIGN).", race=True, shards=4, assumes=[FAKE_CLOCK, RACE])
reg("C12", "ring", STATEFUL, "Random operation sequences on all three rings against a slice model, panics and slice aliasing "
    "included; huge sizes are reached with zero-width elements.")
reg("C13", "ringc", "random producer/consumer programs under the race detector, received sequence checked",
    "One producer and one consumer goroutine with drawn programs on tiny rings; interleavings are the scheduler's.",
    race=True, shards=4, assumes=[RACE])
for pid, note in (
    ("C14", "Random operation sequences on three lists with current, removed, foreign and never-inserted handles; both traversals "
            "compared by handle identity after every step. Handles from before a Clear count as removed elements; removal at an empty end is unspecified."),
    ("C15", "Random operation sequences on several instances each; popping from an empty one is unspecified."),
    ("C16", "Every top, pop and removal of random histories is compared with the multiset of elements; which element a position names "
            "is learnt by replaying the history on a second heap."),
    ("C17", "Random histories against a plain map; after every step all keys are looked up and the top must be minimal."),
    ("C18", "Random histories with live and dead handles of the heap itself (another heap's handles are unspecified).")):
    reg(pid, "cont", STATEFUL, note)
reg("C19", "bloomh", STATEFUL + "; measured false-positive rate",
    "Random histories in all three forms, and filled filters probed with elements never added; filters seed themselves from the "
    "fake clock, so runs repeat exactly. Capacities from 1, rates strictly between 0 and 1.", assumes=[FAKE_CLOCK])
reg("C20", "bloomh", PBT + " against exact arithmetic, and enumeration of the 8- and 16-bit types",
    "Hashers against a map of earlier results; every helper over all integer widths with edge-biased values. NaN, the most negative "
    "integer's absolute value, logarithms of non-positive numbers and powers of two that do not fit their type are excluded.")
SQLITE = "the database is SQLite in memory behind a recording, fault-injecting database/sql driver"
reg("C21", "dbh", PBT + " against a table model on a real SQLite database with injected faults",
    "Records of random shapes and values, and sizes around every placeholder boundary; the table must hold exactly the records. "
    "Scalar fields; batches in which no record has any field and nested values are excluded.", assumes=[SQLITE], shards=4)
reg("C22", "dbh", PBT + " against a table model on a real SQLite database with injected faults",
    "Random batches and sizes around the chunk and placeholder limits; the whole table is compared afterwards. Scalar values; "
    "entries without any field and updates of the id itself are excluded.", assumes=[SQLITE], shards=4)
reg("C23", "dbh", STATEFUL + " on a real SQLite database with injected faults",
    "Random call sequences over two tables, both compared with the model after every call; failures at begin, statement and commit.",
    assumes=[SQLITE, FAKE_CLOCK], shards=4)
reg("C24", "codec", PBT + " against an independent CBC/PKCS#7 reference",
    "Random messages, keys, crafted paddings and corruptions; arguments sit inside larger buffers compared byte for byte after every call.")
reg("C25", "codec", PBT + " against independent encoders and the standard decoders",
    "Random bytes, reader splittings, near digests, JSON maps of valid text. Undecodable base64 and JSON are unspecified.")
reg("C37", "codec", PBT + " against an independent table of the sniffing rules",
    "Signatures of every type cut, altered, shifted and continued; all contents of up to two bytes are enumerated.")
SCRATCH = "everything happens in a scratch directory, as an unprivileged user"
reg("C26", "fsh", STATEFUL + " on real directories",
    "Random histories of storing, retransmitting, assembling and removing several uploads, also concurrently and with a file size "
    "limit as injected fault. Assembling with no chunk at all or with a torn chunk is unspecified.", assumes=[SCRATCH])
reg("C27", "fsh", "grammar-based fuzzing (rapid) of names, digests and archive entries with a whole-tree comparison",
    "Every call runs in a nest of directories with victims at every level, which are compared afterwards.", assumes=[SCRATCH])
reg("C28", "fsh", PBT + ": round trips, the standard zip reader as second opinion, injected damage and resource limits",
    "Random file sets, damaged archives, file size and descriptor limits, a full device.", assumes=[SCRATCH])
reg("C29", "fsh", STATEFUL + "; injected write faults",
    "Random rows after files in random spellings; malformed files by construction; file size limit, full device, unwritable targets.", assumes=[SCRATCH])
reg("C30", "fsh", STATEFUL + " (a file-system model)",
    "Random call histories on trees with links of every kind, compared with the model after every call. Moving between two names of one "
    "file, whether a move between file systems succeeds, and special files are unspecified.", assumes=[SCRATCH])
reg("C31", "mapc", STATEFUL + "; random concurrent histories checked for linearizability (porcupine) under the race detector",
    "Random sequential histories, and random concurrent scripts whose recorded histories porcupine decides; interleavings are the scheduler's, "
    "widened by yields inside callbacks.", race=True, shards=4, assumes=[RACE])
reg("C32", "textc", PBT + " against a reference masker",
    "Random addresses, numbers and names in many scripts; several at signs and invalid UTF-8 must only not panic, and so must any mask length.")
reg("C33", "textc", PBT + " against exact rational arithmetic",
    "Ties, their neighbours and random numbers up to a million; any finite number and any number of decimals beyond; sizes around every digit and unit change. A few last places of floating-point error are allowed.")
reg("C34", "textc", "grammar-based " + PBT + " against a reference builder and a model of browsers' URL parsing",
    "Random prefixes and parameters of many types; the empty link is unspecified. Paths assembled from the pieces browsers treat specially.")
reg("C35", "textc", PBT + " against independent definitions; dates under a fake clock",
    "Random integers, spoilt texts, multi-byte texts, classes, option histories, instants, zones and program paths. Self-overlapping separators and setting in a nil map are unspecified.",
    assumes=[FAKE_CLOCK])
reg("C36", "shellc", "grammar-based " + PBT + ": generated shell scripts against an interpreter of the same grammar, under the race detector",
    "Random scripts run for real as an unprivileged user, in sequence and concurrently; scripts that read their own standard input are excluded.",
    race=True, shards=4, assumes=[RACE])
reg("C38", "dbh", STATEFUL + " of the table; JSON round trips",
    "Random histories of inserting, updating, soft-deleting and querying through the model, the helpers and behind their backs; "
    "ids and instants of every magnitude.", assumes=[SQLITE, FAKE_CLOCK])
reg("C39", "reloadc", "random trees of real processes that reload, each counting the signals it gets (rapid)",
    "Trees of two to seven processes, in sequence and at the same moment, also without a kill program to be found.",
    assumes=["the processes run as an unprivileged user in a session of their own"])
reg("C40", "conc", "differential " + PBT + ": random calls alone against the same calls made concurrently, under the race detector",
    "Random helper calls, container scripts and table operations; every goroutine has files, instances and databases of its own.",
    race=True, shards=4, assumes=[RACE, SQLITE])
reg("C41", "leakc", "fault-injecting " + PBT + ": what the process holds before and after every call",
    "Random calls on whole, damaged, missing and unreadable files with full devices, size limits and few descriptors; failing scripts and statements. "
    "The collector is off during the cases, so that a forgotten file stays visible.", assumes=[SQLITE])
reg("C42", "growc", "random long histories with a bounded number of live elements (rapid): memory in use after collection early and late in the history",
    "Histories of 3000 to 20000 operations on every container, limiter, queue and wheel and on the stateless helpers. A leak of less than a few bytes per operation stays unseen.",
    shards=3, assumes=[FAKE_CLOCK])
reg("C43", "argc", "metamorphic " + PBT + ": arguments inside guarded memory, the same call before and after its results and arguments were overwritten",
    "Random calls of the helpers, the database functions, the rings, lists and limiters with arguments that lie inside larger "
    "buffers; everything around and in them is compared before and after, and results are overwritten up to their capacity.",
    assumes=[SQLITE])
KERNEL = "a system call is refused, cut or replaced by death at its entry, by ptrace; data the kernel accepted is not lost (no power failure)"
reg("C44", "iofault", "crash-injecting stateful property-based testing (rapid): real processes killed at a drawn system call, possibly after half a write, and taken up by another process",
    "Random uploads and file operations; the process dies in place of its n-th file system call or after the kernel did a part of it. "
    "What a torn last row of a table holds is unspecified.", shards=3, assumes=[KERNEL])
reg("C45", "iofault", "fault-injecting " + PBT + ": real processes in which a drawn system call fails, or transfers only a part",
    "Random helper calls on random files; one call, or all from one on, fail with a drawn error, or one read, write or copy is cut short.",
    shards=3, assumes=[KERNEL])
