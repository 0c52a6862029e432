"""The properties: text for properties.jsonl, and which are claimed."""

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=False):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, state=state))


prop("C01", "Every spelling of a path denotes one location, never outside the root",
     "A path, absolute or relative to the working directory, with '.', '..', repeated or trailing slashes, denotes exactly one location: "
     "the one reached by processing its components left to right, where '..' above the root stays at the root. Every operation that takes a "
     "path (reading, writing, listing, removing, moving, copying, mounting, hooks, policies, shell commands and redirections) acts on that location and no other.",
     ["input", "state"], "all path spellings, all working directories, all path-taking operations",
     "The set of spellings is unbounded and the existing tests try a handful; a wrong normalisation only shows on a particular mix of '..', '.', slashes and working directory.",
     ["sandfs/vfs.py"], ["path normalisation", "node resolution"], ["return values and resulting tree of every path-taking call"])

prop("C02", "The tree is exactly the result of the operations performed",
     "After any history of writes, appends, touches, directory creations and removals, exactly the files and directories those operations produce exist, "
     "with the kind and text they should have: a read returns the concatenation of what was last written and since appended. An operation affects only the path it names "
     "(plus the missing parent directories it creates), and operations that make no sense (file below a file, directory over a file, removing a non-empty directory without recursion, removing the root) are refused.",
     ["history", "input"], "all histories of operations, all texts, colliding paths",
     "Tests follow a few fixed scripts; interference between operations needs particular combinations of paths and order.",
     ["sandfs/vfs.py", "sandfs/nodes.py", "sandfs/shell.py"], ["write/append", "mkdir", "touch", "remove"], ["walk, read_file, exists, is_dir, is_file"])

prop("C03", "A refused operation changes nothing",
     "When a single filesystem operation (write, append, conditional write, touch, mkdir, remove, move, copy) fails, for whatever reason — policy, version, kind mismatch, missing path, or a storage back end that refuses — "
     "the whole tree stays as it was: no node added, removed or replaced, no text, version, policy, metadata or modification time changed, the storage back end and search results unchanged, and no hook called.",
     ["state", "input", "fault"], "all operations, all policies and states, refusal at any point",
     "A partial effect needs an operation that fails half-way (a nested read-only node, a back end that refuses) and an observer of everything else; tests only assert that the error is raised.",
     ["sandfs/vfs.py", "sandfs/nodes.py", "sandfs/adapters.py"], ["all mutating operations", "roll-back of refused storage writes"], ["complete dump of the tree before and after"])

prop("C04", "Moving relocates a whole subtree and loses nothing",
     "A successful move makes the source subtree appear at the destination with every text, version, policy and metadata entry intact, removes it from the source, and leaves every other node untouched; searches find the files at their new place only. "
     "A move never replaces or merges with an existing node, never puts a directory inside itself, and moving onto a directory places the node inside it; otherwise a sensible move (existing non-root source, existing parent, free name, nothing forbidden by policy) succeeds.",
     ["input", "state"], "all pairs of source and destination, all node states",
     "Loss needs particular collisions between source name, destination kind and nesting.",
     ["sandfs/vfs.py", "sandfs/shell.py"], ["move", "mv"], ["dump of the tree before and after, read_file, search"])

prop("C05", "Copies are faithful and independent",
     "A successful copy creates nodes with the text, metadata and policy of the source (whole subtree for recursive copies) at the destination, leaving the source and all bystanders untouched; copying onto an existing file replaces just that file and advances its version, and directories are copied only recursively and never into themselves. "
     "Afterwards source and copy are independent: no later change of text, policy or metadata on one side shows on the other.",
     ["input", "state", "history"], "all source/destination pairs, all node states, any later change on either side",
     "Aliasing shows only when a later mutation on one side is observed through the other, for each kind of state.",
     ["sandfs/vfs.py", "sandfs/shell.py"], ["copy", "cp", "node cloning"], ["dumps of both sides"])

prop("C06", "Nothing alters a read-only node",
     "While a file's policy says it is not writable, no operation of the API or the shell changes its text, version or modification time, or removes, renames, moves or replaces it. "
     "While a directory is not writable, no operation adds, removes, renames or replaces an entry directly inside it, nor removes or moves the directory itself.",
     ["history", "state", "input"], "all operations and shell commands, all surrounding policies",
     "Every mutating entry point must consult the policy; tests cover a few of them on a simple layout.",
     ["sandfs/vfs.py", "sandfs/shell.py"], ["write permission checks"], ["node identity, text, version, children of the read-only node"])

prop("C07", "Append-only files only ever grow",
     "While a file is append-only (and writable), its text after any operation is its earlier text followed by appended text: it cannot be truncated, overwritten, removed, moved or replaced, its version never goes back, and appending exactly adds the given text. "
     "Entries of an append-only directory are never removed, renamed or replaced.",
     ["history", "state", "input"], "all operations and shell commands on and around the node",
     "Each mutating entry point is a separate way round the restriction.",
     ["sandfs/vfs.py", "sandfs/shell.py"], ["append-only checks"], ["text, version and identity of the node"])

prop("C08", "Unreadable content is never disclosed",
     "The text of a file whose policy says it is not readable, and the names and contents of the entries of a directory that is not readable, never influence what reading operations return or shell commands print (reading, copying and reading the copy, searching with or without an index, listing, pattern expansion, finding, rendering the tree from an enclosing directory); the direct attempts are refused. "
     "Excluded: the size shown by stat, Python snippets, and naming a node below an unreadable directory by its full path.",
     ["input", "history", "state"], "all texts of the unreadable node, all reading commands, any preparatory operation",
     "Non-interference relates two runs; tests look at one run of one command.",
     ["sandfs/vfs.py", "sandfs/shell.py", "sandfs/search.py"], ["read permission checks", "index and search filtering"], ["outputs of two runs differing only in the unreadable text"])

prop("C09", "A view never reveals or alters what it hides",
     "A shell whose view hides a file (by classification, principal, path prefix or metadata) never prints anything that depends on the hidden file's text, never lists it or expands a pattern to it or reports it in a search, and never modifies, removes, moves or replaces it, whatever command line is run, also after other commands and when several shells with different views share the filesystem. "
     "Python snippets are excluded, and an error may confirm that a path the caller named is hidden.",
     ["input", "history", "state"], "all hidden texts, all command lines in the set, sequences of commands, two shells",
     "Non-interference across all commands and states; one forgotten filter in one command breaks it.",
     ["sandfs/shell.py", "sandfs/policies.py", "sandfs/vfs.py"], ["view filtering in each command"], ["stdout/stderr of two runs differing only in the hidden text; the hidden node"])

prop("C10", "A view shows exactly the nodes its rules admit",
     "A node with principals is visible exactly to views sharing one of them; a node without principals is visible when the view does not restrict classifications or lists the node's one. Path prefixes then admit a node exactly when it lies at, below or on the way to a prefix (by whole components), and metadata filters only when every filter equals the node's value; files that are visible can be read, listed, found and searched through the shell, and hidden ones cannot.",
     ["input", "state"], "all views and node attributes within the bounds",
     "The decision combines four independent criteria with empty/absent cases; tests check single combinations.",
     ["sandfs/policies.py", "sandfs/shell.py"], ["visibility decision", "its use in commands"], ["allows/allows_node and the outputs of each command"])

prop("C11", "Versions count writes and stale writers are rejected",
     "Every successful write or append advances a file's version by exactly one (a never-written file counts as version zero; copying over a file also advances it), and nothing else that keeps the path in place changes its version. "
     "A conditional write or append succeeds exactly when the expected version equals the current one, so under any interleaving of clients that read the version and then write with it no accepted write is based on an outdated read and no update is lost; a rejected write creates nothing.",
     ["schedule", "history", "input"], "all interleavings of clients, all expected versions, all file states",
     "Lost updates need particular interleavings and expected versions (0, missing file, after copy).",
     ["sandfs/vfs.py"], ["version check and increment"], ["get_version, read_file, success of conditional writes"])

prop("C12", "Hooks see every change below their prefix exactly once",
     "Each successful write or append calls every write hook whose prefix contains the file (by whole path components) exactly once, with the file's path, resulting text, new version and whether it was an append; path hooks likewise get one create or update event per write, and one delete event per removed file, also in recursive removals. "
     "When a hook runs the change is already in the tree; operations that fail, create directories or touch files notify nobody, and hooks of other prefixes are never called.",
     ["history", "input"], "all histories, all prefix spellings and nesting, several hooks",
     "Prefix boundaries, recursive removals and failing writes need combinations the tests do not try.",
     ["sandfs/vfs.py", "sandfs/hooks.py", "sandfs/integrations.py"], ["event emission"], ["arguments passed to the registered hooks"])

prop("C13", "A mounted storage back end and the tree stay in step",
     "Below a storage mount the tree and the back end hold the same files with the same texts: mounting shows exactly the back end's files; every successful write, append, touch of a missing file or removal in the tree reaches the back end of the innermost mount (and no other) at once; after synchronising, the tree equals the back end, so changes made there appear and files removed there disappear, "
     "while directories mounted further inside, policies and metadata set in the tree survive; a write that the back end refuses because it was changed there is not applied in the tree.",
     ["history", "state", "input"], "all histories mixing tree operations, back-end changes and synchronisation; nested mounts",
     "Divergence shows only after particular mixes of operations on both sides and with nested mounts.",
     ["sandfs/vfs.py", "sandfs/adapters.py"], ["mount_storage", "sync_storage", "write-through and delete-through"], ["the back end's listing compared with walk/read_file"])

prop("C14", "Mounted and provided contents stay inside their directory",
     "Whatever keys a storage back end lists and whatever names a directory provider returns (with slashes, dots, '..', empty components), loading or synchronising them creates nodes only below the directory they belong to: nothing outside is added, changed or removed, no node gets a name that cannot be addressed, and each loaded file is readable under a normalised path below the mount with the text supplied.",
     ["input"], "all key and name strings within the bounds",
     "Hostile names are exactly the inputs tests do not enumerate.",
     ["sandfs/vfs.py", "sandfs/nodes.py", "sandfs/adapters.py"], ["loading of mounts", "provider results"], ["dump of the tree outside the mount before and after; names of loaded nodes"])

prop("C15", "The directory back end never leaves its root",
     "Whatever path is given to the directory-backed storage adapter — absolute, with '..' or '.', through symbolic links to files or directories outside, with the root itself given through a link or relatively — reading, listing, writing and deleting never read, create, change or remove anything on the host outside the root directory, list nothing that lies outside, and refuse such paths; also when the adapter is mounted and used through the filesystem.",
     ["input", "state"], "all path strings within the bounds, all placements of links",
     "Escapes need odd spellings and link layouts.",
     ["sandfs/adapters.py"], ["path resolution of FileSystemAdapter"], ["log of host accesses and the host tree outside the root"])

prop("C16", "The directory back end stores texts faithfully and detects outside changes",
     "A text written through the directory-backed adapter is read back identical, character for character (line endings included), also by another adapter on the same directory, and listing returns exactly the regular files. "
     "Its versions let stale writers be detected: a write that names the last seen version succeeds exactly when the file on disk has not been changed, replaced, removed or created by someone else since, and a refused write leaves the file alone.",
     ["input", "history"], "all texts, all histories of reads, writes and outside changes",
     "Needs unusual characters and particular interleavings with outside changes.",
     ["sandfs/adapters.py"], ["FileSystemAdapter.read/write/delete/list"], ["returned entries, versions and host files"])

prop("C17", "Restoring a snapshot brings back exactly the saved state",
     "After any operations, restoring a snapshot gives the tree as it was when the snapshot was taken: the same nodes, texts, versions, policies and metadata and nothing else, a valid working directory, and working searches; snapshots are not affected by what happens after they are taken or restored, so they can be restored again, also into another filesystem.",
     ["history", "state"], "all states, any operations between snapshot and restore",
     "Leaks between snapshot and live tree appear only for particular in-place changes.",
     ["sandfs/vfs.py"], ["snapshot", "restore"], ["dump of the tree"])

prop("C18", "The index never changes what a search finds",
     "A search with the full-text index enabled returns the same matches as without it, whatever operations preceded it and whenever the index was enabled: writes, appends, removals, moves, copies, policy changes, storage mounts, synchronisation, snapshot restores.",
     ["history", "input"], "all histories, texts and queries within the bounds",
     "A stale index entry needs a particular operation history and query.",
     ["sandfs/search.py", "sandfs/vfs.py"], ["index maintenance", "candidate selection"], ["search results of two filesystems fed the same history"])

prop("C19", "Searching reports exactly the matching lines",
     "The search API and the grep, rg and search commands report every line of every readable, visible file at or below the searched paths that contains a match, exactly once per operand, with its path, line number and text, operands one after the other and the lines of a file in their order, and no other line; options for case, literal or regular-expression matching and line numbers mean what they say, and invalid patterns are reported as errors.",
     ["input"], "all texts and patterns within the bounds",
     "Line boundaries, case and regular-expression corner cases over all texts.",
     ["sandfs/search.py", "sandfs/vfs.py", "sandfs/shell.py"], ["search_matches", "grep", "rg", "search"], ["matches and printed lines against an independent line matcher"])

prop("C20", "Command lines are split the way a shell user writes them",
     "A command line is divided into pipeline stages, words, leading assignments and redirections the way POSIX quoting says: quoted or escaped characters — operators, blanks and quotes included — are ordinary characters of their word, unquoted |, <, > and >> are operators wherever they stand, a word arrives at the command with exactly its characters, and an incomplete line (open quote, missing command or redirection target) is an error that runs nothing. (Variables and patterns are expanded afterwards, inside quotes too.)",
     ["input"], "all command lines within the bounds",
     "Interactions of quoting, escapes and operators are combinatorial.",
     ["sandfs/shell_parser.py", "sandfs/shell.py"], ["tokenizer", "parse_pipeline", "exec"], ["arguments the commands receive, files written"])

prop("C21", "Pipelines, redirections and variables connect commands correctly",
     "Each command of a pipeline runs once, in order, reading exactly what the previous one printed (or the file its < names); a command that fails stops the pipeline and the script, its exit code and error text are reported, and later commands do not run. "
     "Output redirected with > or >> replaces or extends exactly the named file, only when the command succeeded, and does not reach the next stage; a redirection that cannot be done is a failure. "
     "Variables are replaced by their exact values, prefix assignments are seen by their own command only, assignment lines persist, and nothing leaks from one line's input to the next or from a command's environment into the shell.",
     ["input", "history"], "all outputs, exit codes, placements of redirections, variable values",
     "Needs combinations of stage results, redirections and variable scopes.",
     ["sandfs/shell.py", "sandfs/shell_parser.py"], ["exec", "pipeline execution", "variable expansion"], ["inputs recorded by registered commands, files, result"])

prop("C22", "Only commands on the allow-list run",
     "A shell created with a list of allowed commands runs a command exactly when its name is on the list (an empty list allows nothing; without a list everything is allowed), however the name is spelled or reached — quoted, from a variable, in any pipeline stage or script line, after assignments, through host fallback — and a refused command has no effect, starts no host process, and is reported as a failure. Unknown commands fail, or go to the host only when fallback is enabled and the name is allowed.",
     ["input"], "all allow-lists and command names within the bounds, all ways to invoke a command",
     "One forgotten path to a handler defeats the list.",
     ["sandfs/shell.py"], ["command dispatch"], ["which handlers and host processes ran"])

prop("C23", "Output never exceeds the configured limit",
     "With an output limit, a command's output and error text together are shown only when their UTF-8 size is at most the limit, and then unchanged; anything larger is rejected as a failure showing nothing of it. This holds for every command, registered ones in all their return forms, failures, pipelines, host processes and non-ASCII text; without a limit nothing is cut.",
     ["input"], "all outputs and limits within the bounds",
     "The boundary depends on byte lengths of arbitrary texts and on every way to produce output.",
     ["sandfs/shell.py"], ["output limit"], ["result compared with an unlimited shell's"])

prop("C24", "Running a command line never raises",
     "Whatever command line is given, and whatever fails below it — missing files, bad options or patterns, policies, content and directory providers, storage back ends, hooks, registered commands, host processes — exec returns a result: output and error texts and an exit code, non-zero with a message when something failed, and the shell stays usable.",
     ["input", "fault"], "all command lines and faults within the bounds",
     "Every command and expansion step is a place an exception can escape from.",
     ["sandfs/shell.py"], ["exec", "command dispatch"], ["result or exception of exec"])

prop("C25", "head, tail, wc and cat are exact",
     "head and tail print exactly the first or last N lines or characters of a file or their input (everything when there are fewer, nothing for 0, 10 lines by default), wc counts lines (a last unfinished one included) and UTF-8 bytes, cat prints its inputs verbatim in order; malformed counts and missing operands are errors.",
     ["input"], "all texts and counts within the bounds",
     "Off-by-one errors at empty texts, missing final newlines, count zero.",
     ["sandfs/shell.py"], ["head", "tail", "wc", "cat"], ["printed text against an independent computation"])

prop("C26", "All listings agree with the tree",
     "ls, tree, find, walk, iter_files and pattern expansion all show exactly the nodes that exist where they look, each once, with the right kind and path: ls and tree list directories first and then by name, walk and find visit parents before children, find's filters select exactly the matching nodes, and a pattern (*, ?, [...]) expands to the sorted matching names — or stays as it is when nothing matches — relative to any working directory.",
     ["input", "state"], "all trees, names and patterns within the bounds",
     "Ordering and matching depend on arbitrary names and shapes.",
     ["sandfs/vfs.py", "sandfs/shell.py"], ["ls", "walk", "iter_files", "tree", "glob", "find"], ["listings against the nodes created"])

prop("C27", "Provided content is fetched on demand and faithfully",
     "A provider-backed file shows at every read what its provider returns at that time, asked with the file's current path, metadata and filesystem, and never because of mounting or listing; writing replaces it by the written text, appending adds to what was provided, copies are static. "
     "A provided directory is filled on first access, once, with exactly the nodes its provider returns (kind, text, metadata, policy, nested and lazily nested ones), keeps nodes that already exist, and behaves like any directory afterwards. A failing provider is reported as ProviderError, changes nothing, and is asked again next time.",
     ["history", "input", "fault"], "all sequences of uses, texts and failures within the bounds",
     "Laziness and staleness show only over particular sequences of uses.",
     ["sandfs/nodes.py", "sandfs/providers.py", "sandfs/vfs.py"], ["provider-backed files and directories"], ["texts, calls recorded by the providers"])

prop("C28", "Exports are faithful and contained",
     "Exporting or materialising a directory writes to the target exactly the files and directories below the source, each with its exact text as UTF-8 (line endings included), leaving out nodes and subtrees the filter rejects; nothing outside the target and no other file in it is touched, the virtual tree does not change, and a materialised directory is gone afterwards, also when its user fails.",
     ["input", "state", "fault"], "all texts, names, sources and filters within the bounds",
     "Fidelity for arbitrary characters and all node kinds.",
     ["sandfs/vfs.py"], ["export_to_path", "materialize"], ["host tree before and after"])

prop("C29", "Host commands see and change exactly the visible tree",
     "A host process started by the shell sees a directory holding exactly the visible, readable part of the tree, is started once in the directory asked for with its arguments (sandbox paths mapped), input and variables, and its outcome is passed on. Afterwards its edits — changed, created, deleted, renamed or replaced files and directories — and nothing else appear in the tree (and in storage back ends); unchanged nodes keep version, policy and metadata, hidden, unreadable and read-only files stay as they were, and nothing is left on the host.",
     ["input", "history", "state"], "all edits and texts within the bounds, views and policies",
     "The round trip must be the identity for everything the process did not touch.",
     ["sandfs/shell.py", "sandfs/vfs.py"], ["host process bridge", "synchronising back"], ["the directory the scripted process sees; the tree before and after"])

prop("C30", "The search view shows the current results of its query",
     "Below a search path (/@search?q=...) there is exactly one result file for each visible, readable file with a match, at the file's own path, listing exactly its matching lines with path and line number; queries honour their options, always reflect the present files and the asking shell's view — whatever was queried, changed or restored before — results are not searched themselves, and they cannot be modified, moved or copied.",
     ["history", "input"], "all texts and queries within the bounds, any earlier query or change",
     "Stale or foreign results show only after particular sequences.",
     ["sandfs/vfs.py", "sandfs/shell.py"], ["search view provider", "search paths"], ["listed result files and their texts"])

prop("C31", "Text commands write exactly the given words",
     "echo prints its words separated by single blanks and a final newline unless -n comes first; printf interprets the escapes of its format, once, and prints its values verbatim; write, append and redirected output make the given words, separated by blanks, the new text or extension of exactly the named file in one write, whatever the order of options and whether the file exists; missing operands and impossible targets are errors that change nothing.",
     ["input", "state"], "all words, formats and option orders within the bounds",
     "Escapes, blanks and option positions interact for arbitrary words.",
     ["sandfs/shell.py"], ["echo", "printf", "write", "append"], ["printed text, file text and version"])

prop("C32", "Registered commands get exactly what was typed and answer exactly",
     "A command registered with the shell — function, lambda, method, callable object or partial, with or without a context parameter — is called exactly once per use with the words of its command line, its input, the variables, working directory and view of the moment, and what it returns or raises becomes the result unchanged (text, a full result, nothing, an error). "
     "Registering a name again replaces the earlier command, built-in ones included, and help lists exactly the commands there are.",
     ["input", "history"], "all handler forms, words, inputs and results within the bounds",
     "How a handler is called depends on its form; each form times each result is a separate path.",
     ["sandfs/shell.py"], ["register_command", "command dispatch", "help"], ["calls recorded by handlers; results"])

prop("C33", "The command-line program passes on results and mounts faithfully",
     "sandfs exec prints exactly the command's output and error text on the corresponding streams and exits with its exit code; sandfs shell runs each line typed in one session until exit, quit, :q, end of input or interrupt; mounted host directories appear at their mount points, and writes below them — and nothing else — reach the host; invalid mount options are refused without running anything.",
     ["input", "history"], "all texts, mount layouts and sessions within the bounds",
     "The program has no tests for failures, nested mounts and sessions.",
     ["sandfs/cli.py"], ["exec", "shell", "mount options"], ["captured console, exit status, host files"])

prop("C34", "File times and stat tell the truth",
     "Writing, appending to or touching a file sets its modification time to the present and keeps its creation time; new files and copies are created at the present; every other operation — reading, listing, searching, policies, snapshots, failed writes — leaves both times alone, moves carry them along, and restoring a snapshot brings them back. stat shows a node's path, kind, size, version and times as they are.",
     ["history", "state"], "all histories within the bounds",
     "A stray time update needs an observer of all files after every kind of operation.",
     ["sandfs/nodes.py", "sandfs/vfs.py", "sandfs/shell.py"], ["created_at/modified_at", "touch", "stat"], ["times of all files before and after each operation"])

prop("C35", "The working directory stays where cd put it",
     "pwd reports the directory last gone to with cd — following it when it or a directory above it is moved, and brought back by restoring a snapshot — and nothing else changes it: not failing cds, other commands, searches, synchronisation or host processes. Relative paths, in the API and in every shell of the filesystem, mean exactly the path below the directory pwd reports; one can go exactly to existing directories.",
     ["history", "input"], "all histories within the bounds",
     "Stale or shared working directories show only after particular moves, removals and restores.",
     ["sandfs/vfs.py", "sandfs/shell.py"], ["cd", "pwd", "path normalisation", "move", "restore"], ["pwd and relative lookups after every step"])

prop("C36", "Sandboxes do not influence each other",
     "Nothing done in one filesystem — contents, policies, metadata, hooks, mounts, indexes, working directory — shows in another one, nothing done in one shell — variables, registered commands, snippets — shows in another, and filesystems, shells, policies and back ends created later start afresh. Dictionaries, lists, sets and mappings a caller passes in are not modified, and back ends and shells made from the same ones are separate.",
     ["history", "state"], "all operations within the bounds, on sandboxes made before and after",
     "Shared mutable defaults or class-level state are invisible to tests that use one sandbox each.",
     ["sandfs/vfs.py", "sandfs/nodes.py", "sandfs/shell.py", "sandfs/policies.py", "sandfs/adapters.py", "sandfs/pyexec.py", "sandfs/integrations.py"], ["constructors and defaults"], ["dump of the second filesystem, other shells and newly made objects"])

prop("C37", "The host is not touched unless asked",
     "No filesystem operation and no built-in command, whatever path words it is given (host paths, '..', '~'), looks at, creates, changes or removes a host file or starts a host process; only exports, the host, bash and sh commands, host fallback and directory-backed storage do. Python snippets are given no names to open files, import modules or evaluate code.",
     ["input"], "all operations and commands, path words within the bounds",
     "A single use of the real file system for an unexpected word would go unnoticed.",
     ["sandfs/vfs.py", "sandfs/shell.py", "sandfs/pyexec.py"], ["every API operation and built-in command"], ["log of host accesses and processes"])

prop("C38", "The in-memory back end keeps what it is given and refuses stale writes",
     "The in-memory storage adapter returns for each key exactly the text last stored, lists exactly the stored keys, and accepts a write exactly when it names the present version (or the key is missing), advancing it by one; what it returns and what it was made from are independent of it. Of two filesystems sharing it, the one that has not seen the other's change cannot overwrite it.",
     ["history", "input"], "all histories, keys and texts within the bounds",
     "Aliasing and version slips need a later look after particular histories.",
     ["sandfs/adapters.py", "sandfs/vfs.py"], ["MemoryStorageAdapter"], ["entries read and listed after every step"])

prop("C39", "Python snippets start afresh and report exactly what they print",
     "Every snippet run by the executor or the python commands starts with exactly the configured globals and the allowed builtins, whatever earlier snippets assigned, deleted, shadowed or removed, also after failures; exactly what it prints is returned and nothing reaches the console, its changes to the filesystem are in the tree, the names it set are in the result, its failure is reported as such, and the caller's dictionaries are left alone.",
     ["history", "input"], "all pairs of snippets and values within the bounds",
     "Leaks appear only in the snippet after the one that causes them.",
     ["sandfs/pyexec.py", "sandfs/shell.py"], ["PythonExecutor.run", "python"], ["printed text, result globals, later snippets"])

prop("C40", "Built-in commands do what the corresponding API calls do",
     "A built-in command (touch, mkdir, rm, cp, mv, write, append, cat, cd, tree, redirections) on any operands has exactly the effect, hook calls and printed result of the corresponding calls of the Python API, performed on one operand after the other up to the first that fails; "
     "it exits with 0 and an empty error text exactly when all of them succeed. ls, wc, find, head and tail with several operands show what they show for each of them, in order, and change nothing. A view that hides nothing makes no difference.",
     ["input", "state"], "all commands, operands and policies within the bounds",
     "Shell and API are separate code; a difference shows only for particular operands, kinds and policies, and tests compare a few.",
     ["sandfs/shell.py", "sandfs/vfs.py"], ["every built-in command on paths"], ["dumps, events, output of twin sandboxes"])

prop("C41", "Failures say what is wrong",
     "An operation that cannot be done fails, and one that can be done does not. The error is always a SandboxError of the fitting kind: NodeNotFound when a component of the path is missing, NodeExists for a directory that is already there, InvalidOperation for the wrong kind of node, a policy or a stale version, "
     "ProviderError with the text and the cause when a content or directory provider fails; it always has a text. In the shell an unknown command exits with 127, malformed lines and missing operands with 2, other failures with a non-zero code, always with a message on stderr and nothing done; success leaves stderr empty.",
     ["input", "state", "fault"], "all operations, paths, policies, versions and provider failures within the bounds",
     "The kind of error depends on the combination of path, kind, policy and version; tests check a few with a generic error.",
     ["sandfs/vfs.py", "sandfs/nodes.py", "sandfs/shell.py"], ["every path-taking call"], ["exception class, text and cause; exit codes"])

NOT_APPLICABLE = []
