"""Which rules decide which property."""
from rules.common import part
from rules import transport, locks, mutex, deadman, timing, sync, readers, writers, packets, rpc, own, files, ids, errors, cxx, endpoints, wrap, names, discover

PROPS = {
    "C01": [transport.pages, transport.evict_commit, transport.commit_whole, transport.lock_resets, transport.init_order],
    "C02": [locks.locks, locks.lock_result],
    "C03": [transport.append_links, transport.drop_oldest, transport.readers_pure, transport.moves, transport.window_out, wrap.c03],
    "C04": [transport.placement, transport.no_overlap, transport.high_water, wrap.c04],
    "C05": [transport.predicates, transport.window_out, transport.moves, transport.frame_access, transport.jump_bounds, wrap.c05],
    "C06": [transport.waits, transport.notify, transport.pred_fns],
    "C07": [mutex.acquire, mutex.release, mutex.robust_list,
            part(mutex.cnd_wait, ("mtx-bracket", "mtx-listed", "mtx-word", "mtx-owner", "mtx-shared"))],
    "C08": [mutex.cnd_wait, mutex.cnd_wake],
    "C09": [timing.kernel, timing.passing, timing.clocks, wrap.c09],
    "C10": [deadman.deadman, deadman.shutdown, wrap.c10],
    "C11": [sync.objects],
    "C12": [readers.sync_reads, readers.can_read, readers.placing, readers.thread, cxx.c12_cxx, wrap.c12],
    "C13": [readers.zc_calls, readers.copying, readers.closing, readers.thread],
    "C14": [writers.dispatch, writers.base, writers.stages, writers.stack, writers.state_release, wrap.c14],
    "C15": [writers.headers, writers.endpoints, wrap.c15],
    "C16": [writers.if_empty, writers.merge, writers.cfg_writes, wrap.c16],
    "C17": [packets.sizes, packets.serialise, packets.copies, packets.accessors, wrap.c17],
    "C18": [rpc.c18, cxx.c18_cxx, wrap.c18, part(endpoints.c29, ("ep-options",), "a0_rpc_")],
    "C19": [rpc.c19, cxx.c19_cxx, wrap.c19, part(endpoints.c29, ("ep-options",), "a0_prpc_")],
    "C20": [own.c20],
    "C21": [files.creation],
    "C22": [transport.modes, files.file_modes],
    "C23": [errors.c_errors, errors.cxx_errors, errors.cxx_catch, errors.cxx_null,
            part(readers.sync_reads, ("read-once",), "reports success although it failed")],
    "C24": [cxx.c24, cxx.c24_packets],
    "C26": [mutex.identity],
    "C25": [discover.c25, cxx.c25, wrap.c25],
    "C27": [names.c27, wrap.c27],
    "C28": [endpoints.c28, wrap.c28],
    "C29": [endpoints.c29, wrap.c29],
    "C33": [ids.c33, ids.fresh],
}
# properties whose rules look at the C++ sources
CXX = {k for k, fs in PROPS.items() if any(f.__module__ in ("rules.cxx", "rules.wrap") or f.__name__.startswith("cxx") for f in fs)}

ASSUME = [
    "the LLVM IR clang produces from the sources has the behaviour of the program gcc builds from them",
    "the processor and compiler keep the order of the stores the rules talk about (x86 stores are not reordered)",
    "callers respect the documented single-owner rules (a locked transport is used by the thread that locked it)",
]

TEXT = {
    "C01": ("static analysis: value-numbered store/commit ordering over the IR of every transport function",
            "Decides, for all paths, which state page each store targets, that the commit is one store ordered after them, that evictions are committed before space is reused, that locking discards uncommitted state, and the order of initialisation. Compiler/CPU store order is assumed."),
    "C02": ("static analysis: lock typestate over all paths of every function that takes or is lent a transport lock",
            "Path-sensitive typestate per function with the lock state of callees summarised by their signatures; user callbacks are assumed to respect the contract."),
    "C03": ("static analysis: symbolic value flow of sequence numbers and links, decided over order types",
            "The stored sequence numbers, head/tail offsets and links are shown to be the required functions of the previous state on all success paths; induction over operations is the argument, carried by a stated state invariant."),
    "C04": ("static analysis: gated value numbering of the placement decision, tabulated over order-type representatives",
            "Placement, refusal and eviction conditions are extracted as expressions and compared over a finite grid of boundary representatives, not over all 64-bit values."),
    "C05": ("static analysis: guard and value-flow analysis of cursor operations, tabulated over order types",
            "Each cursor predicate, move and dereference is compared with its specification over representatives of all orderings of the quantities involved."),
    "C06": ("static analysis: path-sensitive typestate of wait loops and must-pass-through for notifications",
            "Decides re-check before sleeping, wake-up after each commit/shutdown and balanced waiter counts; fairness of the scheduler is not decided."),
    "C07": ("static analysis: path-sensitive model of the lock word and the robust list over the IR of every mutex function",
            "All paths of lock, timed lock, try-lock and unlock are explored against the kernel's documented futex behaviour: who may own the word, what is reported, and what the robust list says at every point. Fairness is not decided."),
    "C08": ("static analysis: path-sensitive model of condition wait and wake over their IR",
            "Decides that the sequence word is sampled before the mutex is let go, that every return has the mutex back, what is reported, and that wakers always bump and retry; kernel requeue semantics are assumed as documented."),
    "C09": ("static analysis: flow of deadlines from every entry point to the kernel wait, and value analysis of the clock arithmetic",
            "Decides that each deadline reaches the wait unchanged, on the right clock and in absolute form, that untimed calls pass none, and that time addition and conversion are the required functions over boundary representatives; the latency of the kernel is not decided."),
    "C10": ("static analysis: path-sensitive model of the shared word, token and flags over the IR of every deadman function",
            "All paths of take, release, both waits and shutdown are explored; accesses are taken to be sequentially consistent, waking a mapped word is taken not to fail, and one thread uses a handle at a time (plus shutdown)."),
    "C11": ("static analysis: path-sensitive typestate of event and latch state, lock and wake-ups over their IR",
            "All paths of each operation are explored with the state's sign tracked: when it is read and changed, who is woken, and what each call may report. The mutex and condition are taken to do what C07 and C08 decide."),
    "C12": ("static analysis: exhaustive exploration of every reader entry point over an abstract transport (empty / overtaken / last / more)",
            "For each start mode, iteration mode and abstract cursor state, all paths of the polling, blocking, timed and threaded readers are explored and the cursor moves before each delivery compared with the specification. When the first message was overtaken or the transport started empty, the newest and the oldest remaining message are both accepted for readers that iterate to the newest."),
    "C13": ("static analysis: path-sensitive typestate of lock, copy, callback and thread over the IR",
            "Decides lock state at every callback, copy/call/free order, refusal of self-close and stop-unlock-join order on all paths; that user callbacks return is assumed."),
    "C14": ("static analysis: value flow of the chain and packet through every stage, and path-sensitive typestate of lock, serialise and commit",
            "Decides for every stage what it hands on, to whom and how often, and for the appending stage the order and conditions of serialise, commit and unlock; middleware supplied by the user is assumed to forward once."),
    "C15": ("static analysis: value flow of header blocks, composition tree and endpoint construction over the IR",
            "Decides which headers are added where, from what source, in which phase, that earlier headers stay linked, and that every endpoint pushes them on all paths on which it becomes ready. The text conversion itself is C32."),
    "C16": ("static analysis: guards and value flow of the locked stages, explored over emptiness and failure of each step",
            "Decides that emptiness and the newest value are read in the same lock hold as the write, what is written when, and what is reported. The JSON library is taken to do what it documents."),
    "C17": ("static analysis: affine layout expressions per loop-free stretch, with inductive loop invariants over headers and bytes handled",
            "Decides that every write of serialise, deserialise and deep copy goes to the offset the layout prescribes, for any number of blocks, headers and string lengths, that enumeration visits each header once in order, and that the accessors read the same offsets. Malformed flat packets are not covered."),
    "C18": ("static analysis: typestate exploration of the RPC entry points and packet callbacks over every kind of packet, with value-numbered arguments",
            "Decides what goes on the wire (type, identity, payload, headers kept), registration under the lock before sending and removal on cancel or failure, which callback each kind of packet invokes, with what and under which lock, and the blocking request's reader lifetime and result. A callback already looked up when a cancel arrives may still run. Malformed identities from foreign writers are not covered. The C++ client's callback table and the C++ server's hand-over are explored the same way."),
    "C19": ("static analysis: typestate exploration of the progress-RPC entry points and packet callbacks over every kind of packet, with value-numbered arguments",
            "As C18, with the completion mark: progress keeps the connection registered, completion removes it before the callback runs, and the flag passed tells which it was."),
    "C20": ("static analysis: ownership typestate over every constructor, destructor and resource-using public function, each fallible call explored both ways",
            "Every path of every constructor with each acquisition failing or succeeding: nothing acquired survives a failure, everything is kept in the object on success; every destructor releases exactly what its constructor keeps, threads before anything they use. Strings held inside discovery's maps, C++ wrappers (C24) and allocation failure are outside it; an enumeration is taken to hold one of its enumerators."),
    "C21": ("static analysis: typestate of descriptor, temporary name, mapping and errno over every path of the file-opening function, each system call explored succeeding and failing",
            "Every path with every outcome of every system call (errno split into ENOENT, EEXIST and other): permissions and size precede the only call that names the file, that call cannot replace another, losing the race reopens, nothing is left on failure, the mapping has the size of that descriptor's file. Which prefixes of the path are created as directories is not decided."),
    "C22": ("static analysis: mode-guard analysis on all paths", "Decides that writes, locks and waits are guarded by the arena mode on every path."),
    "C26": ("static analysis: thread-local caches and their invalidation at fork, over the IR",
            "Decides that cached ids and robust-list registration are per thread, come from the kernel, and are dropped in a forked child before first use."),
    "C23": ("static analysis: fate of every error result over all paths of every C function that can report one, and of every C call the C++ sources make",
            "A fixed list of operations counts as affecting the outcome (see DESIGN.md); for each call of one, all paths on which it failed are followed to the return, which must report an error (or the documented stand-in), and no object whose construction failed may be used. In C++ every such result must reach a throw or be reported, and each method must test its handle before using it."),
    "C24": ("static analysis: flow of shared-pointer copies, captured values and deleters through every C++ function, over the IR",
            "Decides that each C++ object built on another holds a share of it (directly, in its storage or in its deleter), that each handle has exactly the closing call of its type in its deleter, that packets carry a share of the memory their bytes are in, and that reusable buffers are swapped out before a packet leaves. The standard library is taken to do what it documents."),
    "C25": ("static analysis: typestate exploration of the discovery thread and its scan over every kind of entry and queued event, with the text of each path followed",
            "Every path of the thread's event loop and of the scan for every kind of entry and event: watch before scan, each directory scanned in turn, each matching file looked up, remembered and reported once under its full path, the next event found where this one ends, lost events made up for, close waiting for the thread. The maps and pattern matching are taken to work; files moved in and a root that is removed and made again are outside the claim."),
    "C27": ("static analysis: the text of every path handed to the operating system, followed piece by piece for every kind of name, template and root",
            "Every path of the name functions for null, empty, absolute and relative names, templates with and without the placeholder, and each root: what text is used, that it fits its buffer, that unusable names are refused before anything is touched, that removal follows no link and leaves the tree. String functions of the C library are taken to do what they document."),
    "C28": ("static analysis: value flow of level tags and truth table of the filter over every level and threshold",
            "Decides which level each logging call attaches, where its packet goes, and for each threshold and level whether a listener's callback runs, with what; the table of level names is read from the program's constants. The C++ logger and listener must reach the same C functions with the same values."),
    "C29": ("static analysis: value flow of topic, arena and reader options through every endpoint's construction and operations",
            "Decides for publish/subscribe, configuration, log, RPC and progress-RPC endpoints that both sides open the same template with the given topic, that the reader and writer are built over the file just opened, with which start and iteration options, and that each operation is applied once to the endpoint's own part; C++ endpoints must reach the same C functions with the same values."),
    "C33": ("static analysis: seeding typestate of the generator on every path, and every character of an id tabulated over the random bits it depends on",
            "Decides that a thread's generator is private, wholly seeded from the kernel before its first draw and again after a fork; that every character has its fixed value or range; and that 122 independent random bits reach the id. The statistical quality of the kernel's source and of the library generator is taken as given."),
}
NOT_APPLICABLE = {
    "C30": "equality of the matcher's verdict with the glob rules is a functional property of a backtracking loop over arbitrary strings; no structural clause short of re-deriving the algorithm implies it",
    "C31": "the map's contents after an arbitrary sequence of operations depend on probe distances and hash values at run time (Robin Hood displacement); a static rule would only freeze the present text",
    "C32": "round-trip equality of numeric and date text conversions is arithmetic over unbounded inputs (libc date functions included)",
    "C34": "the merge itself is computed by a JSON library that is not part of the tree; its result cannot be derived from these sources",
    "C35": "bounded delay depends on the kernel scheduler",
}
