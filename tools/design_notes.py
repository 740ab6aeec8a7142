"""Hand-written part of DESIGN.md, per property: how it is decided, and what that leaves out."""
N = {
"C01": ("Read-only wrappers are found by type (vroot ReadOnlyFs/ReadOnlyRoot/ReadOnlyFile, the io/fs adapter's file); every method of their method sets, promoted ones included, is interpreted from an abstract receiver. A mutating call on the wrapped value is a violation on any path; OpenFile may be forwarded only on paths where the flag argument is a constant without write bits or was tested through the package's write-mask predicate; the value handed out must be constructed as one of the wrappers.",
        "Which io/fs and vroot operations mutate is a table of the two interfaces' method names. A wrapped filesystem that mutates inside a read operation is outside."),
"C02": ("Names sent to the base filesystem of PathPrefixFs, osfs.Fs and SftpFs are tracked back to the translation function; the translator's result must come from a join under the base whose other operand was proved local on this path (IsLocal / ValidPath test, or a Rel result tested), else an error.",
        "Lexical confinement only: links are C10."),
"C03": ("Every name-taking method of osfs.Root (promoted ones included): each error of os.Root that can be returned must pass through the translating function, which maps the os error to the exported sentinel.", "os.Root detecting the escape is trusted."),
"C04": ("Every Remove/RemoveAll of a view: the call that removes must be dominated by a test that the cleaned, translated name is not the view's own root; a raw spelling test alone does not discharge it.", ""),
"C05": ("For every adapter method: the calls it forwards must be the same operation (same name, or the table of sanctioned equivalents, e.g. Create = OpenFile), with each parameter reaching the position of the same meaning (names through the translator only, and by it cleaned, respelled with the other separator or joined to the base, nothing else; others unchanged; Lstat and Lchown do not fall back on the link-following operation where the wrapped value has the right one, except on the base itself), numbers, strings, bytes and file infos given back are the forwarded call's own, and a nil error is returned only on paths where the forwarded operation ran and its error is nil.", "The sanctioned equivalents are a table."),
"C06": ("Every exported or interface function that returns (handle, error): at each return exactly one of the two is nil, decided by nil-ness facts of the engine; an interface result must not wrap a pointer, or a value of a file type parameter, the facts allow to be nil.", "Handles and errors passed through from a foreign call are assumed to obey the same contract."),
"C07": ("Every name-taking io/fs method: before any lookup or forwarded call the name was proved by fs.ValidPath (or a function all of whose success paths prove it).", ""),
"C08": ("WalkDir's loop: what is returned must be the callback's own result (or nil for the two skips); a failing Lstat of a child leads to the callback, not to a return; listing a directory is preceded by a lookup in the set of directories being walked, withdrawn on every exit; the link budget is decremented on each followed link and restored.", ""),
"C09": ("All loops and recursive cycles (SCCs of the call graph) whose next step depends on a Readlink/Linkname result must contain a counter that is compared against a limit on every cycle through the loop.", "Finds the cycles by dataflow from link targets; a new resolver that gets targets by a new API would have to be added."),
"C10": ("Path-sensitive provenance of names during resolution: a '..' step is taken only after the depth was found above the boundary; an absolute target is never joined; the resolved path is used or returned only when a locality test holds on this path.", ""),
"C11": ("Typestate of every mutex (identified by access path from the receiver) over every path of every function that locks, panics excluded; TryLock, deferred unlocks, closures and wrappers are interpreted in context.", ""),
"C12": ("Same interpretation records (held, acquired) pairs across calls; re-acquisition of the same lock and any cycle in the lock-class order is a violation.", "Locks are classed by owner type and field, so two instances of one class nested count as a cycle unless proved distinct."),
"C13": ("For each shared struct with a lock: fields written after construction outside init are inferred to be guarded; each access must hold the guarding lock, in exclusive mode for writes. The guard table was confirmed by reading; exceptions are atomics, sync types and fields written only before publication. A stream kept in a field (its Read, Write, Seek or page reads) has its position moved only under the lock under which some other operation of the object moves it.", "Races on foreign objects behind interfaces are outside."),
"C14": ("Typestate over handle types found by method set: each method other than Close must test the closed mark (under the lock that Close writes it with) and return an error on the closed branch before any call on what the handle wraps.", ""),
"C15": ("ReadAt/WriteAt: no store to a position field, no Seek on the same underlying file. Read/Write: on each path the position advances by the same term that is returned as n.", ""),
"C16": ("On each path of an iterator function (and closures it passes yield to), once a yield call returned false no further yield call is reached.", ""),
"C17": ("Ownership typestate of pool elements: taken, put (possibly deferred, possibly through a wrapper), escaping stores and returns.", ""),
"C18": ("Every call whose results are (closable, ..., error) makes its first result open on paths where the error is not known non-nil; Close/Commit/Rollback (also through wrappers and deferred closures), a return, a store into an object that outlives the call, a send, a go statement or a closure handed out discharge it. A store into a field that the owner type's own methods close makes the old value open unless it was nil, was closed, or is contained in the new one. Opening helpers are judged on their own and not looked into.", "Constructors named New*/Wrap* around a closable take it over and their result is not tracked; a slice collected by append counts as handed over."),
"C19": ("Error-discipline dataflow: every call to a table of effectful operations (filesystem, file, store, SQL, HTTP upload) yields an error value that must be nil, tolerated by errors.Is, joined or returned on each path that returns a nil error.", "Deliberate best-effort sites (cleanup after an earlier error) discharge because an error is already being returned."),
"C20": ("Typestate of the temporary file through create, write, hooks, close, rename, remove, including defers; each return is classified by its error.", ""),
"C22": ("Typestate of one transfer: source identity (ETag comparisons on this path), positions (terms for part length, seek offset, bytes copied), hooks, close, rename, sidecar.", "Equality of counts is decided on terms with branch facts, not by arithmetic."),
"C23": ("Response typestate: every Read of a response body that reaches the caller must be on a path on which status, encoding, Content-Range start/end/total and pinned identity were each compared; success results likewise.", ""),
"C24": ("Effect order on http.Header values: on each path to Do, the last write to a protocol header is the library's, and header maps are cloned where they cross the API.", ""),
"C25": ("Taint: URL strings and transport errors are sources, error construction and returns are sinks, the redactor is the only sanitizer.", ""),
"C26": ("Compare-and-swap protocol of the pinned description: the new value is built from the loaded one, filling only fields tested unset; acceptance is on a path where each field was equal or unstated.", ""),
"C27": ("The parts of each type with its own Close are derived from its struct type (closable fields, lists of closables, lists of things that may be closable), handles not owning the filesystem they came from. On each path of Close: a field is closed, or nil, or the handle was already closed; a list is closed by a loop whose index test is decoded (starts at an end, steps by one, every element closed, nil or proved to have no Close before the next test, left only by the test). Each Close error is nil or contained, possibly through local objects and append, in the returned error. The ownership mark is compared between Close and each construction (shared parts or own). The joining helper is verified by the same loop typestate.", "Parts closed through an iterator function (range over func) are not recognised and would be reported; the library's slices.ContainsFunc is trusted to look at every error."),
"C28": ("io.EOF provenance: on each path returning EOF (own or passed on) the position was compared with the end; n and err of ReadAt at every return.", ""),
"C29": ("Status and header typestate of each HTTP operation; chunk upload state machine with temporary files.", ""),
"C30": ("Provenance of the layer a call goes to: receivers of changing filesystem calls must come from the top field; a layer taken from the list by an index not proved 0 is 'lower'.", ""),
"C31": ("Typestate over marks, store calls and top changes: order of whiteout/unwhiteout/opaque calls, in-memory change only after the store's error is nil, and the range rule (which marks beneath a name are dropped, decided from the prefix or the range test the loop makes).", ""),
"C32": ("Must-hold facts before each top change: merged-view lookup result, parent materialised, copied up, empty, not same/beneath, under one hold of the lock.", ""),
"C33": ("Loop analysis of the layer searches: each iteration's exits are classified (found, masked, not here, failing); which ancestors a mask walk asked; listing merge.", ""),
"C34": ("Typestate of one copy-up, from type check to publish.", ""),
"C36": ("Counting typestate: each handle is counted once, released once, under the same name term; removal on a path where the count under that name was found zero under the same hold.", ""),
"C37": ("The constant SQL text of each statement is parsed and interpreted over all classes of rows (present/absent, each column value class, each relation of a row's name to the argument); transactions and the file layer are typestate.", "SQL semantics is a small abstract evaluator for the statement forms in use; an unknown form is an undecided obligation."),
"C38": ("The reader put together for an entry is followed piece by piece with symbolic positions (end of the last hole, data taken so far); the section fields are checked as symbolic sums at the hand-over, the block padding by evaluating the stored expression over all residues; errors of every read and parse by typestate; kinds of entries reaching open by summaries of the lookup.", "The decoding arithmetic inside the functions copied from archive/tar is not checked beyond errors, validation and the size it is validated for."),
"C39": ("The tree is found by its shape (a directory is a struct with a map and a list of entries and a parent; a file has a view and a shared count of links), and each operation is followed path by path: what was looked up, found free, of which kind, empty, alone or an ancestor; what was put in, taken out, renamed, closed, counted. Each change must be licensed by those facts and each loss paired with its release; the recursive release is checked once by contract (visits every entry) and used as that. Handles are matched between what is returned and what is counted.", "Views outside the tree (a caller's own after AddFile) are the caller's; sizes and times of entries are not checked."),
"C40": ("The buffer is found by shape (a guarded struct whose byte slice grows, with handles that read and write it). Lengths, offsets and positions are linear forms over what was loaded under the current lock (every lock taken starts new values), so an end found before the lock is not the end; each slice stored as the content is taken apart into what it was, zeros, and cuts; the flags a path allows are narrowed branch by branch over the 48 combinations of access mode, append, create, exclusive and truncate. Every Seek with its own position is held against the table of whences.", "Views other than the in-memory one are covered by C14, C15 and C28 only; huge sizes, which make Go's allocator panic, are outside."),
"C41": ("Every method that reads n entries of an open directory is run path by path with what the handle keeps pinned at the call (it changes only under the lock of the handle). Lengths are linear forms; a loop left at one test of a number that grows by one is summarised by how much each round adds to every slice and number, so a page built entry by entry is as long as what the loop goes over, and a round that adds nothing is a dropped entry. On each return the length of the page, the distance the position moved, the number asked for and what was left are compared; io.EOF needs proof that nothing is left. The slice indexed by the position must be one the handle keeps, stored only when found unread and remembered as read, and dropped only with the position at the start. Functions a lister looks entries up by (through fields holding functions too) must not be ones that follow links.", "Listings read through a library handle (os.File, sftp.Client) are taken as given. A page whose length a loop leaves open (entries dropped because Info failed) is only held to the position."),
"C42": ("Every value of type context.Context that a library function passes to a call or keeps in a field is traced back through variables, closures, phis, repository helpers and the With* constructors to where it comes from; in a function with a context of its own everything must come from it (or from the one its receiver keeps), and context.Background, TODO, WithoutCancel, a nil, or a context type with a Done of its own is a violation anywhere, as is a request made without any. Reads by Pull, and by the Read of any type that keeps a context, are run path by path: between two reads of the source the context must have been asked (Err, or a select on Done that does not wait) and found in force, and on every path where it was found ended the error returned must hold what the context says and no Open, Append, Commit, Rename or Read may follow. The reader Push hands a sink and the one NewCancellable returns must be of such a type, holding the caller's context. For Probe the context of the request must descend from one of the two contexts and be tied by AfterFunc to the other, still so when the request is sent. Close of an object with a cancel function calls it on every path, before any lock.", "Blocking calls in progress are outside, and so are custom Clients, sources and sinks that ignore the context they get."),
}
