LEVEL_NOTE = ("Decided on the SSA form of the current source for every path the abstract interpreter can distinguish; branches the facts "
              "do not decide are taken both ways, calls into repository code are analysed in the caller's context, library calls are "
              "modelled by their documented contract. Trusted: go/packages, go/ssa, the checker itself and those contracts. Analysed for GOOS=linux.")
PROPS = []
def P(**k): PROPS.append(k)

P(id="C01", title="A read-only view never lets its holder change what it wraps",
  statement="Through a read-only filesystem, sub-root or file view, and through any handle obtained from one, no operation changes the wrapped tree: every mutating operation is refused with an error before anything is forwarded, opens are forwarded only when their flags request no write, create, append or truncate access, and every handle or sub-root handed out is itself read-only.",
  over=["inputs", "programs"], forall="every method of every read-only wrapper, every flag combination, every path through each method, and every handle reachable from the wrapper",
  why="Tests try a handful of flags and methods; the guarantee is that no method, promoted method, flag bit or returned handle escapes the wrapper.",
  files=["vroot/readonly.go", "vroot/iofs_from.go", "vroot/widen.go"], mech=[("read-only wrappers refuse mutators and filter open flags", "vroot/readonly.go"), ("io/fs adapter expands a read-only file", "vroot/iofs_from.go")],
  observe=["ReadOnlyFs / ReadOnlyRoot / ReadOnlyFile methods", "FromIoFs"],
  tech="typestate dataflow over SSA: reachable mutating calls, proved-zero flag bits, wrapper types of escaping handles",
  note="Shows that no path of any method reaches a mutating operation and that every escaping handle is a wrapper; it trusts the wrapped value's read operations to be read-only.")

P(id="C02", title="A prefixed filesystem never touches names outside its base",
  statement="A filesystem confined to a base directory, or adapted from io/fs, hands the underlying filesystem only names that are lexically the base or beneath it, whatever name the caller passes; a name that would leave the base is refused with an error and nothing is forwarded.",
  over=["inputs", "programs"], forall="every name a caller may pass, every operation, both name arguments of two-name operations",
  why="Tests sample a few traversal strings on a few operations; one operation that forwards a name unchecked breaks the boundary for every caller.",
  files=["vroot/pathprefix.go", "vroot/osfs/fs.go", "vroot-adapter/sftpfs/sftpfs.go", "vroot/iofs_from.go"], mech=[("name resolution refuses non-local names before joining", "vroot/pathprefix.go, vroot/osfs/fs.go, vroot-adapter/sftpfs/sftpfs.go, vroot/iofs_from.go")],
  observe=["arguments passed to the wrapped filesystem, package os, or the SFTP client"],
  tech="dataflow over SSA: every path argument at an underlying call is the base or base joined with a proved-local name",
  note="Lexical confinement only; symlinks inside the base are C10 and the platform root. The link target of a symlink is data, not a path.")

P(id="C03", title="Escaping a root is always reported as the escape error",
  statement="Whenever an operation on an OS-backed root fails because the name leaves the root, the error the caller receives matches the exported path-escape sentinel, for every name-taking operation the type offers.",
  over=["inputs", "programs"], forall="every name-taking method in the method set of the OS root, promoted ones included, and every error the platform returns",
  why="The acceptance tests exercise the interface's methods; promoted methods and each error wrapper shape are outside them.",
  files=["vroot/osfs/root.go"], mech=[("translation of the platform's unexported error", "vroot/osfs/root.go")],
  observe=["errors returned by osfs.Root methods"],
  tech="method-set closure plus typestate: each platform error is tested for the escape text before it is returned",
  note="The platform's message text is taken from the code's own literal (path escapes from parent).")

P(id="C05", title="Adapters forward each operation faithfully",
  statement="A filesystem adapter performs exactly the operation it was asked for on what it wraps: the same operation, names and arguments in the caller's order, non-name arguments and link targets unchanged, names only respelled or placed beneath the adapter's base, what the operation gave handed back as it is, links not followed where the operation does not, and it reports success only when the forwarded operation was performed and succeeded.",
  over=["inputs", "programs"], forall="every operation of every path-normalising, prefixing, widening, io/fs, OS and SFTP adapter, and every outcome of the forwarded operation",
  why="Argument swaps, dropped errors or a sibling operation used by mistake show only on the inputs where the two differ; tests sample few of them per adapter.",
  files=["vroot/pathnormalizer.go", "vroot/pathprefix.go", "vroot/widen.go", "vroot/iofs_from.go", "vroot/iofs_to.go", "vroot/osfs/fs.go", "vroot/osfs/root.go", "vroot-adapter/sftpfs/fs.go"],
  mech=[("one forwarding method per operation", "vroot/*.go, vroot/osfs, vroot-adapter/sftpfs")], observe=["calls on the wrapped value", "returned error"],
  tech="dataflow over SSA: argument provenance and error typestate per forwarding method",
  note="Checks the identity of the operation, argument provenance and error propagation, not the behaviour of the wrapped implementation.")

P(id="C11", title="No operation returns still holding a lock",
  statement="Every operation releases each lock it acquired before it returns, on every path including error and early returns, and never releases a lock it does not hold.",
  over=["inputs", "programs", "schedules"], forall="every exported operation and every callback reachable from outside, every path through it",
  why="A forgotten unlock on one error path hangs the next caller only after that error occurred; tests rarely take that path and then use the object again.",
  files=["vroot/synthfs", "vroot-adapter/overlayfs", "tarfs", "stream", "fsutil", "aferofs"], mech=[("mutexes around shared state", "synthfs, overlayfs, tarfs, stream")],
  observe=["lock state at every return of an entry point"],
  tech="lock typestate dataflow over SSA, interprocedural, deferred calls replayed",
  note="sync.Mutex and sync.RWMutex of the repository's own types, in every module.")
P(id="C12", title="Locks are taken in one order and never twice",
  statement="No operation acquires a lock it already holds, and the order in which operations nest different locks is acyclic, so no interleaving of operations can deadlock on the library's own locks.",
  over=["inputs", "programs", "schedules"], forall="every pair of nested acquisitions on every path of every entry point",
  why="A deadlock needs two operations interleaved at the right point or a rare error path; schedules tests run do not enumerate these.",
  files=["vroot/synthfs", "vroot-adapter/overlayfs", "tarfs", "stream", "fsutil", "aferofs"], mech=[("nested mutexes", "synthfs, overlayfs, tarfs, stream")],
  observe=["nested lock acquisitions"],
  tech="interprocedural lock-order graph with cycle detection; held-lock typestate at each acquisition",
  note="Locks are abstracted by owner type and field; different instances of one lock class are ordered conservatively only where nesting occurs.")
P(id="C13", title="Shared mutable state is only touched under its lock",
  statement="Every field of a shared object that some operation writes after construction while another may read it is accessed only while holding the lock that guards it, writes under the exclusive mode, so concurrent use is free of data races on the library's own state. The position of a stream kept in a shared object is moved under one lock wherever it is moved.",
  over=["inputs", "programs", "schedules"], forall="every read and write of every guarded field on every path of every entry point",
  why="Races need concurrent schedules; the race detector sees only those the tests happen to run.",
  files=["vroot/synthfs", "vroot-adapter/overlayfs", "tarfs", "stream", "fsutil", "aferofs"], mech=[("state guarded by mutexes", "synthfs, overlayfs, tarfs, stream")],
  observe=["lock set at each field access"],
  tech="lockset dataflow over SSA with escape analysis for fields guarded by a lock",
  note="The guard of a field is inferred from the lock-owning type and confirmed against a fixed domain table; atomics and fields only set during construction are exempt.")

P(id="C04", title="Removal never deletes the root a view stands on",
  statement="Remove and RemoveAll on a filesystem view never delete the directory the view itself stands on, however the caller spells its name: a spelling that names the root is refused before anything is removed.",
  over=["inputs", "programs"], forall="every spelling of the name, every view type, every path to a removal (and to a rename, for the overlay and the synthetic filesystem)",
  why="The spellings of the root (., a/.., ./, the empty base) are unbounded and deleting the root destroys every file the view holds.",
  files=["vroot/osfs/fs.go", "vroot/pathprefix.go", "vroot/synthfs/remove.go", "vroot-adapter/overlayfs/remove.go", "vroot-adapter/sftpfs/fs.go"],
  mech=[("root check ahead of removal", "remove methods of each view")], observe=["removal calls on the wrapped filesystem or the tree"],
  tech="typestate over SSA: facts proved about the caller's name at every removal site",
  note="Names are compared after lexical cleaning; a symlink naming the root is removed as a link.")
P(id="C06", title="A failed open hands out no handle, a successful one a usable handle",
  statement="No function of the library that opens something returns a handle together with an error it made, returns neither a handle nor an error, or wraps a nil pointer in the interface it returns.",
  over=["inputs", "programs"], forall="every function returning something to close together with an error, every return of it",
  why="A typed nil or a handle leaked beside an error appears only on the one failing path that builds it.",
  files=["vroot", "vroot/osfs", "vroot/synthfs", "vroot-adapter/overlayfs", "vroot-adapter/sftpfs", "tarfs", "stream", "fsutil"],
  mech=[("nil checks ahead of interface conversion", "open methods of each filesystem")], observe=["returned handle and error"],
  tech="nilness dataflow over SSA at every return of every opener",
  note="A callee's (value, error) pair is taken to keep the same contract; each callee in the repository is checked on its own.")
P(id="C07", title="io/fs adapters accept only valid io/fs names",
  statement="Every name-taking method of the filesystems offered as io/fs (the vroot adapters and tarfs) looks a name up, or passes it on, only after it satisfied fs.ValidPath; any other name is refused.",
  over=["inputs", "programs"], forall="every name, every name-taking method of the io/fs-facing types",
  why="fstest tries a few invalid names on a few methods; each optional interface method is a separate way in.",
  files=["vroot/iofs_to.go", "tarfs/fs.go"], mech=[("fs.ValidPath check per method", "vroot/iofs_to.go, tarfs/fs.go")],
  observe=["names at lookups and forwarded calls"],
  tech="dataflow over SSA: proved ValidPath fact at every use of the caller's name", note="Methods promoted from an embedded value are excluded unless the type defines them.")
P(id="C08", title="WalkDir visits everything once, stops only when told, and cannot loop",
  statement="WalkDir ends early only with what the callback returned (SkipDir and SkipAll reported as success, no other callback error dropped), an entry that cannot be examined does not end the visit of its siblings unless the callback says so, a directory is listed only if it is not already being walked, its record is withdrawn when its walk ends, and every link followed spends the remaining link budget, restored afterwards.",
  over=["inputs", "histories"], forall="every tree shape, every callback verdict, every failure of Lstat, Stat and ReadDir",
  why="Loops through links and bind mounts, unreadable entries and callback verdicts combine without bound; tests sample single cases.",
  files=["vroot/walk.go"], mech=[("visited set, link budget, error plumbing", "vroot/walk.go")], observe=["callback invocations and the returned error"],
  tech="interprocedural typestate over SSA of the recursive walk, recursion summarised by its own contract",
  note="Where the platform gives no identity and the real path is unknown (below an absolute link), loops are cut by the link budget alone.")
P(id="C09", title="Following links always ends",
  statement="Every loop or recursion of the library in which a symbolic or hard link's target decides where resolution goes next counts the links it follows against a limit that ends it, so no cycle of links can hang a lookup or exhaust the stack.",
  over=["inputs", "programs"], forall="every link-following site in every package, every cycle of the control-flow graph or call graph through it",
  why="Link cycles can have any length and go through any mixture of symlinks and hard links.",
  files=["fsutil/resolve_symlink.go", "tarfs/entdir.go", "tarfs/fs.go", "vroot/synthfs/tree.go", "vroot/walk.go"], mech=[("resolution counters", "resolvers of each filesystem")],
  observe=["cycles through link-following sites"],
  tech="cycle analysis of the control-flow and call graphs: every cycle through a link read increments and tests a counter",
  note="Limits are taken to be finite constants or configured fields; the numeric value of the limit is not judged.")
P(id="C10", title="A link or .. cannot take resolution outside the root",
  statement="The library's own path resolution (fsutil, tarfs, synthfs, overlayfs) never steps above the boundary directory, never joins an absolute link target into the path it resolves, and uses or returns a resolved path as a success only when it is proved local; such paths are refused.",
  over=["inputs", "programs"], forall="every resolver, every link target and .. sequence, every overlay operation",
  why="Targets and .. combine without bound; a single unguarded step in one resolver is an escape.",
  files=["fsutil/resolve_symlink.go", "tarfs/entdir.go", "vroot/synthfs/tree.go", "vroot-adapter/overlayfs/resolve.go"], mech=[("boundary and locality checks during resolution", "resolvers of each filesystem")],
  observe=["parent steps, link-target uses and resolved names"],
  tech="typestate and dominance over SSA of each resolver",
  note="OS-level races (a component replaced between the check and its use) are outside the path resolution itself; vroot/osfs delegates confinement to os.Root.")

P(id="C14", title="A closed handle refuses every operation",
  statement="After Close, every other method of a file or directory handle of the library reports an error and does not touch what the handle wraps; Close marks the handle before it returns and nothing clears the mark again.",
  over=["inputs", "histories"], forall="every handle type that records its closing, every method, every path",
  why="Use after close is a history, and each method is a separate place to forget the check.",
  files=["vroot/synthfs", "vroot-adapter/overlayfs", "stream"], mech=[("closed flag tested by each method", "handle types of synthfs, overlayfs and stream")],
  observe=["success returns and uses of the wrapped value"],
  tech="typestate over SSA: proved-open fact at each success return and use of the wrapped value",
  note="Covers the handle types whose Close marks a field of the handle; handles that forward to an operating system file inherit its refusal.")
P(id="C15", title="Positional I/O leaves the position alone; Read and Write advance it exactly",
  statement="ReadAt and WriteAt never move or set the position Read, Write and Seek keep, and Read and Write move a position they keep by exactly the number of bytes they report.",
  over=["inputs", "histories"], forall="every type of the library with positional methods, every path through them",
  why="The effect shows only when positional and sequential calls are interleaved.",
  files=["vroot/synthfs", "vroot/iofs_from.go", "tarfs", "stream", "vroot-adapter/overlayfs"], mech=[("cursor fields", "file handles of each package")],
  observe=["stores to cursor fields"],
  tech="effect analysis over SSA: stores to the position from positional methods, linear provenance of each advance",
  note="A ReadAt emulated by seeking must restore the position on every path.")
P(id="C16", title="An iterator stops when its consumer does",
  statement="An iterator handed out by the library never calls yield again after yield returned false, so breaking out of a loop over it is always safe.",
  over=["inputs", "histories"], forall="every function that takes a yield function, every pair of consecutive yields on every path",
  why="Calling yield after a break panics at run time, and only for a consumer that breaks at that very element.",
  files=["vroot", "fsutil", "vroot-adapter/overlayfs", "stream"], mech=[("result of yield tested", "iterator functions")], observe=["calls of yield"],
  tech="typestate over SSA: last yield proved true at every yield", note="Bodies generated for range-over-func loops are excluded: the compiler checks them.")
P(id="C17", title="Pooled buffers are never used after they are given back",
  statement="Nothing taken from a sync.Pool is used, returned to a caller, or put back a second time once it was put back, and none is kept in a shared object.",
  over=["programs", "schedules"], forall="every Get and Put of every pool, every path between them",
  why="Reuse corrupts data only when another goroutine takes the same buffer at that moment.",
  files=["fsutil", "stream", "tarfs", "vroot-adapter/overlayfs"], mech=[("deferred Put", "users of the buffer pools")], observe=["uses of pooled values"],
  tech="ownership typestate over SSA on values from sync.Pool.Get", note="Library functions given a pooled buffer are taken not to keep it.")
P(id="C18", title="Nothing the library opens is left open on any return",
  statement="On every return of every function, each handle, response body, listing, transaction or database that function itself obtained from an open call was closed, handed to its caller, or kept by an object that outlives the call, whatever failed in between. A handle an object keeps and closes itself is closed or handed on before another takes its place.",
  over=["inputs", "faults", "histories"], forall="every call in the library that opens something, every path from it to a return of the opening function",
  why="A leak shows only on the failing branch between an open and its close, and then only as exhaustion much later.",
  files=["fsutil", "stream", "tarfs", "vroot", "vroot-adapter/overlayfs", "vroot-adapter/sftpfs"], mech=[("closing on error branches and by defer", "every function that opens")], observe=["opened values at every return", "old value of an owned field at every store"],
  tech="resource typestate over SSA with defers, closures and hand-over by return, store and wrapping", note="Wrapping constructors and functions given a resource inside a closure are taken to take it over. Panics are outside.")
P(id="C23", title="Range reads hand out only bytes of the object and range asked for",
  statement="httprange delivers bytes of a response body only after proving that the response is uncoded, a 206, carries a well-formed Content-Range that starts at the offset asked for, does not pass the end asked for and is short only at the object's end, and contradicts nothing pinned about the object; success and end-of-object are never reported for an answer not held against the pinned object; and data requests carry the pinned strong validator whenever one is known.",
  over=["inputs", "faults", "histories"], forall="every response a server can send, every method of the reader, every path from request to result",
  why="A misbehaving or changing server has unboundedly many answers; tests script a few dozen.",
  files=["stream/httprange/reader_at.go", "stream/httprange/stream.go", "stream/httprange/probe.go", "stream/httprange/httprange.go", "stream/httprange/content_range.go"],
  mech=[("checkContentEncoding, checkPartial, checkStream, pinOrVerify, ifRangeValue", "stream/httprange")], observe=["uses of response bodies", "results of ReadAt and Probe"],
  tech="typestate over SSA: facts proved about the response at each use of its body and at each return",
  note="The header parsers of net/http are trusted.")
P(id="C24", title="Configured headers never decide what the protocol decides",
  statement="On every request of the stream clients the headers the library sets or removes for the protocol (Range, If-Range, Accept-Encoding) prevail over configured headers, and the caller's header map, the headers of a request and the header snapshots handed out never share one map.",
  over=["inputs", "programs"], forall="every request built, every configured header, every header map crossing the API",
  why="A configured Range or shared map corrupts requests only for particular configurations or later mutations.",
  files=["stream/httprange/httprange.go", "stream/httprange/reader_at.go", "stream/httprange/stream.go", "stream/httprange/probe.go", "stream/fileserver/client.go"],
  mech=[("static headers first, protocol headers after; Clone at each crossing", "newRequest, New, Metadata, applyHeaders")], observe=["headers at Doer.Do", "header maps stored or returned"],
  tech="typestate over SSA per header key up to the send; aliasing check on header-map stores", note="fileserver settles only the headers it sets itself.")
P(id="C26", title="What a reader pinned about its object never changes or goes unchecked",
  statement="The description later responses are held to is completed atomically: a response is accepted only if its length, ETag, Last-Modified and origin each equal what is pinned or are unstated on one side, completing it fills only properties still unset, and it is replaced only by compare-and-swap against the description it was completed from.",
  over=["inputs", "schedules", "histories"], forall="every response, every combination of pinned and unstated properties, every interleaving of concurrent reads",
  why="The combinations of partly known descriptions, and races between two completing reads, are beyond what tests enumerate.",
  files=["stream/httprange/httprange.go", "stream/httprange/reader_at.go"], mech=[("mismatch, completedBy, pinOrVerify", "stream/httprange")], observe=["atomic replacement of the description"],
  tech="per-property typestate over SSA up to the compare-and-swap", note="Atomicity of sync/atomic is trusted.")
P(id="C25", title="Credentials in a URL never reach an error message",
  statement="No error of httprange or fileserver contains the text of a configured or redirected URL or of an error that quotes it: messages name a URL only through the redactor, and transport errors are rebuilt around their cause with the URL redacted, keeping the cause matchable.",
  over=["inputs", "faults"], forall="every error built or returned by either package, every value flowing into it",
  why="Each failing call is a separate way out for the URL, and the tests script only some failures.",
  files=["stream/httprange", "stream/fileserver"], mech=[("redactURL / displayURL, transport error rewriting", "stream/httprange, stream/fileserver")], observe=["operands of error constructors and returned errors"],
  tech="taint analysis over SSA: URL-derived values into error constructors and error returns", note="The inner error text of *url.Error is carried as is.")
P(id="C27", title="Closing a composite closes every part and reports every failure",
  statement="Close of anything made of several parts (a multi-reader, an overlay, a layer with its store, a database over a filesystem, a wrapper) closes each part it owns whatever the others answered, and returns nil only if all of them did; otherwise the error it returns holds every part's error. A sub-overlay, which shares its parts, closes none of them.",
  over=["inputs", "faults"], forall="every type with a Close, every subset of its parts failing, every number of parts",
  why="A part left open, or an error swallowed, shows only when an earlier part fails to close.",
  files=["stream", "vroot", "vroot/synthfs", "vroot-adapter/overlayfs", "stream/internal/serr"], mech=[("close loops and joins", "multiReadCloser, multiReadAtSeekCloser, Fs, DataSource, sqlvfs.DB, sqlvfs.file"), ("ownership mark", "overlayfs.Fs.owner"), ("error joining", "serr.GatherPrefixed")], observe=["Close calls per part on each path", "errors contained in the result", "ownership mark at construction"],
  tech="path-sensitive typestate over SSA with parts derived from the types; loop-completeness typestate; provenance of errors in results",
  note="Parts are the fields of a closable type and lists of them; the sftp client is documented as the caller's.")
P(id="C28", title="End of file is reported only at the real end, short data is an error",
  statement="The joined and ranged readers of stream report io.EOF only where the position was found at the end of what is read: a source or response body that ends early, holds more than declared, or delivers nothing is never passed on as a success or a clean end, and ReadAt returns without error only with the whole buffer filled.",
  over=["inputs", "faults"], forall="Read and ReadAt of the readers of stream and stream/httprange, every path, every behaviour of the sources",
  why="A truncated source or body taken for the end silently loses data, and only for particular lengths, buffers and offsets.",
  files=["stream/multi_read_at_closer.go", "stream/seq_reader_at.go", "stream/httprange"], mech=[("size checks after each source read, EOF replaced by ErrUnexpectedEOF", "readAt, Read, ReadAt, streamReadAt")], observe=["results of Read and ReadAt"],
  tech="path-sensitive linear facts over SSA: what each path proved about count, position and end when it returns",
  note="An unsized opener (NewSeqReaderAt) whose stream ends early is passed on as its end, as documented; the joined reader above it detects it.")
P(id="C29", title="A file-server transfer succeeds only with exactly the content asked for",
  statement="HTTPClient.Get succeeds only with a 200 for an offset not above zero or a 206 starting at the offset with a stated total, Stat only with a known length, Put only with a 2xx answer after announcing the caller's size; 404 and 410 wrap fs.ErrNotExist. ChunkedSink uploads only chunk-aligned, rewound files holding exactly a chunk's bytes, removes every temporary file, and reports complete or success only if every chunk probed or uploaded was.",
  over=["inputs", "faults"], forall="every status, header and size a server may answer, every length and failure of the reader, every chunk",
  why="A misread status or short chunk is stored or returned as good data only for particular servers, offsets and readers.",
  files=["stream/fileserver/client.go", "stream/fileserver/chunk.go"], mech=[("status and range checks, short-read check before Put, cleanup", "Get, Stat, Put, Append, State")], observe=["results of Get, Stat, Put, State, Append", "calls of Put", "temporary files at return"],
  tech="path-sensitive typestate over SSA: bounds proved on the status, offset, count and errors at each success return and upload",
  note="Which content a server stores under a name is the server's.")
P(id="C19", title="Success is reported only if every change it needed succeeded",
  statement="A function that changes files, directories or stored metadata returns without error only if each change on its path succeeded: the error of every write, copy, truncate, sync, rename, create, link, mark, transaction or commit, and of closing a written file, is nil, tolerated by an explicit test for a particular error, superseded by a later success of the same step, or part of the error returned.",
  over=["inputs", "faults"], forall="every function with an error result that changes something, every path, every one of its steps failing",
  why="Each step can fail on its own; a dropped error is lost data that is reported as saved, and tests fail only a few of the steps.",
  files=["fsutil", "vroot/synthfs", "vroot/memfs", "vroot-adapter", "stream"], mech=[("error returns after each mutating call", "copy_fs.go, resumable*.go, safe_write.go, overlayfs, sftpfs, synthfs")], observe=["results of mutating calls and of the function at return"],
  tech="modular path-sensitive typestate over SSA: the error of each mutating call followed to the return",
  note="Attribute changes and removals whose result nothing looks at are best effort and exempt, unless they are the function's own purpose.")
P(id="C20", title="A safe write replaces its target whole or not at all and leaves no temporary",
  statement="SafeWriteOption.Write, Copy and CopyFs touch the target name by a single rename of the temporary, made only after every hook ran, every hook, the writing step and closing succeeded; any other return closes and removes the temporary, and success means the rename succeeded. Random names are created exclusively, with bounded retries; cleanup walks remove only paths matching the policy.",
  over=["inputs", "faults"], forall="every path of the safe-write methods, OpenFileRandom, MkdirRandom and the cleanup walks, every step failing",
  why="A half-written target or stray temporary appears only when one particular step fails; tests fail a few of them on one backend.",
  files=["fsutil/safe_write.go", "fsutil/open_random.go"], mech=[("temporary, deferred cleanup, rename last", "safeOperation, openRandom, WalkFunc")], observe=["filesystem calls with their arguments", "errors of earlier steps at the rename and at return"],
  tech="path-sensitive typestate over SSA of the temporary file, following hooks and errors to the rename and the returns",
  note="Atomicity of the backend's rename is trusted. IgnoreCloseErr lifts the close condition, as documented.")
P(id="C22", title="A resumed transfer commits exactly the content it was asked for",
  statement="Pull renames its part file to the target only after one source, whose ETag does not contradict the expected one nor the part's recorded one, was copied from the part's own length to its end, giving exactly the size known, every hook passed and closing succeeded. The sidecar names the content before bytes are copied. Push and FsSink resume only at the agreed offset of the same content, and Push commits only all of the file.",
  over=["inputs", "crash points", "faults"], forall="every path of Pull, Push, FsSink.Append/Commit/State, FsSource.Open and the copy loop, for every state an earlier attempt may have left",
  why="Mixed or truncated content appears only after particular interruptions and source changes between attempts.",
  files=["fsutil/resumable.go", "fsutil/resumable_fs.go"], mech=[("ETag comparisons, sidecar before copy, size check, rename last", "Pull, Push, FsSink")], observe=["filesystem, source and sink calls with their arguments", "comparisons each path made before them"],
  tech="path-sensitive typestate over SSA: offsets, sizes, ETags and step errors each path established before copying and committing",
  note="Where neither side knows an ETag, resumption goes by size, as documented. A part longer than a source of unknown expected size is not recovered from.")
P(id="C30", title="The overlay never changes anything below its top layer",
  statement="No operation of an overlay, of a handle it hands out, or of its copy-up policy changes a lower layer: every changing filesystem call goes to the top layer, a lower layer is only opened for reading, a file opened on a lower layer is handed out only behind a read-only wrapper or a directory handle that forwards no write, and content and attributes are only written to files of the top.",
  over=["inputs", "programs"], forall="every exported operation of the overlay and its handles, every flag combination, every layer a name may resolve to",
  why="A lower layer is shared and read-only by contract; a write reaches it only for the flag, layer or handle tests do not sample.",
  files=["vroot-adapter/overlayfs"], mech=[("copy-up gate, read-only wrapper, write flag test", "write.go, fs.go, file.go, copyup.go")], observe=["filesystem and file calls by layer", "files handed out"],
  tech="dataflow over SSA: the layer each filesystem and file value comes from at every changing call and hand-out",
  note="The top handed to a copy-up policy is the top; what a third-party policy does is its own.")
P(id="C31", title="Removed or replaced lower content never shows again",
  statement="A name leaves the top only once it is whited out or no lower layer shows it; a whiteout is lifted only once the top holds the name and, for a new directory, once that is opaque, or when no lower layer shows the name; a directory made or moved is opaque before success; after a copy-up no opaque mark is left on the copied name. Marks change in memory, those beneath a whited-out name and no others included, only after the store recorded them. So no failing store or crash between steps brings hidden lower content back.",
  over=["inputs", "faults", "crash points"], forall="every order of steps on every path of every changing overlay operation, each store or filesystem call failing",
  why="Content resurfaces only when a particular step fails or the process dies between two of them.",
  files=["vroot-adapter/overlayfs"], mech=[("whiteout before removal, opaque before unmasking, store before memory", "remove.go, rename.go, mkdir.go, write.go, state.go")], observe=["order of top, store and mark operations on each path"],
  tech="path-sensitive typestate over SSA: what each path established about marks and lower layers before each step",
  note="Marks strictly beneath a renamed directory are not followed one by one; the opaque mark on it covers them.")
P(id="C32", title="The overlay changes the top only when it is ready for the change",
  statement="Under one hold of the state lock: a name is made in the top only if the merged view shows nothing there and the top holds its parent; an entry is changed, linked or moved only once copied up; a directory is removed or replaced only if the merged view shows nothing in it; a rename is refused onto itself, beneath itself, over another kind of entry, and for a directory lower layers still contribute to.",
  over=["inputs", "schedules"], forall="every path of every changing overlay operation",
  why="Each precondition matters only for one arrangement of layers, and a check separated from its act by a lock release fails only under a race.",
  files=["vroot-adapter/overlayfs"], mech=[("lookup, copy-up and parent gates under the state lock", "write.go, mkdir.go, link.go, open.go, rename.go, remove.go")], observe=["lookups, copy-ups and their errors before each call on the top"],
  tech="path-sensitive typestate over SSA: preconditions established by lookups since the lock was taken",
  note="The lookup itself (which layer shows a name) is C33's subject.")
P(id="C33", title="The merged view shows what the layers and their marks say, or an error",
  statement="A whiteout on a name or an ancestor, or an opaque mark on an ancestor (for a directory's children also on itself), bounds the search at its layer, once every ancestor up to the root was asked; no layer below the bound is asked. A lower layer is asked only where none above showed the name or a file on the way to it; a layer that fails to answer ends the operation with an error. A listing shows an entry exactly if no layer above showed or whited it out. Every mark stored is loaded, as its kind, under its clean name.",
  over=["inputs", "histories", "faults"], forall="every name, number of layers, set of marks and layer failure; every path of lookup, merged listing and state loading",
  why="The answer differs only for particular arrangements of three or more layers, nested marks and one failing layer.",
  files=["vroot-adapter/overlayfs"], mech=[("mask bounds, layer loop, merged directory reading, state loading", "state.go, merged.go, metadatastore.go")], observe=["marks and layers asked on each path", "entries listed and skipped", "errors of layers"],
  tech="path-sensitive typestate over SSA with role-tagged values: marks asked, bounds taken, layers probed and entries passed over",
  note="Resolution of symlinks across layers is C10's and C32's subject; what a layer itself answers is the layer's.")
P(id="C34", title="A copy-up is all or nothing and faithful",
  statement="The default copy-up policy refuses a type it cannot reproduce before making anything in the top; writes a regular file's copy only to a file it created exclusively in the staging area, publishes it by one rename to the content path of the name read only after all of the source was copied in, closing succeeded and mode and times were brought over, and removes it on every other return; makes directories and links only as such, a link with the target read; and reports success only once the entry was published.",
  over=["inputs", "faults", "crash points"], forall="every path of CopyUpPolicyWork.CopyUp, every type of entry, each step failing",
  why="A torn or misplaced copy hides the good lower file for ever, and is left only when a particular step fails or the process dies there.",
  files=["vroot-adapter/overlayfs/copyup.go"], mech=[("type check, staging, copy, close, attributes, rename, cleanup", "CopyUp, copyRegular, materializeParents")], observe=["calls on the top with their arguments, in order", "errors of earlier steps"],
  tech="path-sensitive typestate over SSA of the staged file and the entry's type",
  note="Whether applying mode and times worked is best effort, as documented; that io.Copy or a reflink that reports success copied everything is trusted.")
P(id="C36", title="An overlay told not to remove open files never does",
  statement="With DisableOpenFileRemoval, Remove takes a name away, from the top or by a mask, only after finding, under the same hold of the state lock, no handle out on it, and RemoveAll none on it or beneath it. Every handle Open, OpenFile and Create give out is counted exactly once under the resolved name, with the lock held, and closing it the first time, even if that fails, counts it down once under that name; counts change by one and are dropped only with the last handle.",
  over=["inputs", "schedules", "histories"], forall="every path of the overlay's opens and removals and of its handles' Close, every number of handles on a name",
  why="A count off by one, or kept under another spelling, shows only with a particular set of handles, links and failing closes.",
  files=["vroot-adapter/overlayfs"], mech=[("handleTracker, trackedFile, removable, removableTree", "file.go, remove.go, fs.go, open.go")], observe=["counting calls and their names", "removals and the counts read before them"],
  tech="path-sensitive typestate over SSA: counting matched between opens, closes and removals",
  note="Rename is outside the guarantee, as in the option's documentation.")
P(id="C37", title="A mark the default store accepted is on disk, whole, and read back as it was",
  statement="Each change to the default store is one transaction, committed only if every statement in it succeeded and reported done only if the commit did, and leaves in the table exactly the marks promised, whatever was there before. Loading reports every mark as its kind or an error; a store is handed out only with the version it was written with, never altered, and is closed otherwise. The file layer beneath passes every read, write, sync, removal, lock and error through as asked.",
  over=["inputs", "faults", "crash points", "histories"], forall="every path of the store's operations and of its file layer, every content of the table, each statement or call failing",
  why="A lost or torn mark shows only after a crash, a failing backend, or for names that sort next to each other.",
  files=["vroot-adapter/overlayfs/metadatastore_sqlite.go", "vroot-adapter/overlayfs/internal/sqlvfs"], mech=[("transactions, statements, schema check, loading", "exec, initSchema, Load, Set*, Clear*"), ("file layer", "file.go, open.go, sqlvfs.go")], observe=["statements and their values on each path", "transaction ends and errors", "calls on the backing file and filesystem"],
  tech="path-sensitive typestate over SSA; abstract interpretation of the constant SQL over all classes of rows",
  note="SQLite itself, and what the backing filesystem does with a sync, are trusted.")
P(id="C38", title="A tar entry reads as exactly its bytes in the archive, or opening fails",
  statement="New cuts the archive into entries whose bodies start at their header's end and hold what their type and size say, and fails if any read or parse of it failed; a sparse file reads its data in order with zeros over each hole of its map, which is taken only if valid. Of entries with one name the last counts; every valid name of a supported type is listed by its directory and found by lookup, the root is always a directory, and Open never panics on a link.",
  over=["inputs", "faults"], forall="every archive, every path from New and the section iterator to Open, each read failing",
  why="A wrong offset or length shows only for particular sparse maps, types and orders of entries, and a dropped error only for a damaged archive.",
  files=["tarfs"], mech=[("sections, sparse maps, readers, tree", "headers.go, reader.go, fs.go, entdir.go, enthardlink.go")], observe=["offset, length and source of each piece of a reader", "stores of section fields", "errors of reads and parses", "kinds of entry reaching open"],
  tech="path-sensitive abstract interpretation over SSA: symbolic offsets of pieces, typestate of errors, kind analysis of entries",
  note="archive/tar's own header decoding is trusted, as are the copied decoders of sparse maps up to their errors and validation.")
P(id="C39", title="The synthetic tree stays one tree and lets go of all that leaves it",
  statement="After every operation on a synthetic filesystem, each directory's entries are the same in its map and its listing, under the names they call themselves, every directory's parent is the one that holds it, and no directory is beneath itself; what is replaced or removed is taken out first, with all beneath it, and a file's view is closed exactly once, with the last link to it. Every handle given out is counted once and taken off by its first Close, and Remove honours DisableOpenFileRemoval. A rename replaces only like by like, Rename, Link, Symlink, Mkdir and Remove that fail change nothing, and what the merge callback decided is what happens.",
  over=["inputs", "faults", "histories"], forall="every path of the operations on a synthetic tree, every tree, every kind of entry met, each view failing",
  why="A leaked or doubly closed view, a detached subtree or a wrong count shows only after a particular sequence of links, replacements and handles.",
  files=["vroot/synthfs"], mech=[("entries", "node.go: addEntry, removeEntry, unlinkView, linkView"), ("operations", "add.go, rename.go, remove.go, link.go, mkdir.go, open.go"), ("handles", "handle.go, handle_dir.go")], observe=["entries put into and taken out of directories", "views closed and links counted", "handles counted", "results"],
  tech="path-sensitive typestate over SSA of tree entries: shape facts matched between lookups, changes and releases",
  note="What a view does with its own content is C14's; symlinks and boundaries of synthetic roots are C10's.")
P(id="C40", title="An in-memory file holds what was written, and seeks and opens do as asked",
  statement="A successful write puts all of its bytes at the position asked for, or at the end found under the same lock when appending, extends the file with zeros if it must, and changes nothing else; a truncation leaves the size asked for and what is cut never returns; reads hand out the content as it is, with the end of file only there; failures change nothing. Every Seek that keeps its own position lands on the offset from its start, position or end, or fails and stays. Opening creates, refuses, empties, reads and writes only as the flags say.",
  over=["inputs", "schedules", "histories"], forall="every path of the in-memory handles, of every Seek and of the open calls; every combination of open flags",
  why="Stale bytes, torn appends and off-by-one ends show only for particular sequences of growth, truncation and concurrent handles.",
  files=["vroot/synthfs", "vroot/internal/openflag", "stream/multi_read_at_closer.go", "vroot-adapter/overlayfs/open.go", "aferofs/synth"], mech=[("content", "view_mem_buf.go: readAt, writeAt, append, truncate, grow"), ("positions", "Seek methods"), ("flags", "openflag, OpenFile, Create, Open, WriteFile")], observe=["slices stored as the content and bytes copied into or out of it", "positions stored", "flags possible on each path"],
  tech="path-sensitive abstract interpretation over SSA: symbolic lengths and offsets, flags evaluated over their finite domain",
  note="Integer overflow of lengths and running out of memory are not considered.")
P(id="C41", title="Directory listings come complete, in exact pages, from one snapshot",
  statement="Reading an open directory in pages gives every entry of one listing once, whatever the page sizes and whatever is added or removed meanwhile: a page holds at most the entries asked for and as many as the position moves past, all the rest when no number is asked for, no nil element, and io.EOF only to a caller who asked for a number once nothing is left. What is said of an entry is said of the entry itself, not of what a link leads to. Only a seek to the start begins a new listing. Handles that read through another one pass the number on and give back the whole page with its error.",
  over=["inputs", "histories", "schedules"], forall="every path of the directory-reading methods and of Seek on directory handles; every page size, position and listing length",
  why="Skipped or repeated entries need particular page sizes, or removals between two pages, that a sampled listing does not hit.",
  files=["vroot/synthfs/handle_dir.go", "vroot-adapter/overlayfs/file.go", "vroot-adapter/sftpfs/sftpfs.go", "tarfs/entdir.go", "vroot/iofs_from.go", "vroot/iofs_to.go", "vroot/readonly.go"], mech=[("pages", "ReadDir, Readdir, Readdirnames and their readEntries helpers"), ("snapshots", "load, Seek"), ("forwarding", "expandedFile, fsFile, ReadOnlyFile")], observe=["positions and kept listings stored", "pages returned with their errors", "rounds of loops that build pages", "numbers passed to inner handles"],
  tech="path-sensitive abstract interpretation over SSA: lengths and positions as linear forms, counting loops summarised by their step",
  note="What a listing should contain is C33's (overlay) and C39's (synthetic trees); pages of *os.File are the library's.")
P(id="C42", title="A cancelled context stops what was started on its behalf",
  statement="Whatever an operation starts on behalf of the context it was called with - opening, asking, appending to or committing a remote, a request, a chunk opened later - is given that context or one that ends with it, never one that cannot be cancelled; an object that keeps a context keeps one that ends with the one it was made with, and closing it ends that first of all. A source is read for a context only after the context was asked since the read before; once it is found ended nothing more is started and the operation fails with the context's own error, so a transfer cut off this way is never committed. A probe ends with the call's context and with the reader's own.",
  over=["inputs", "schedules", "histories"], forall="every function that has a context at hand, every call it passes one to, every path of the copying loops and context-aware readers, wherever between two steps the context ends",
  why="A context usually outlives the call in tests; a dropped one shows only when it ends at the right moment of a long transfer.",
  files=["fsutil/resumable.go", "stream/cancellable.go", "stream/httprange", "stream/fileserver"], mech=[("copying", "resumable.go: Pull, Push, ctxCopy, ctxReader"), ("readers", "cancellable.go"), ("sessions", "httprange: New, NewRange, Probe, Close"), ("requests", "fileserver: client.go, chunk.go")], observe=["contexts given to calls and kept in fields", "questions asked of a context before each read", "errors returned once it ended", "cancel functions called"],
  tech="interprocedural provenance of context values over SSA, and path-sensitive typestate of asking before reading",
  note="A Read, request or filesystem call already under way is the library's or the backing's to break off. FsSink reads what Append is given: Push gives it a reader that asks.")
