"""Planted bugs (see plant.py). Written from the property texts and the code."""
BUGS = []
V = "sandfs/vfs.py"
S = "sandfs/shell.py"
N = "sandfs/nodes.py"
A = "sandfs/adapters.py"


def bug(id, property, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))


bug("b01", "C05", [(V, "            principals=set(policy.principals),\n", "            principals=policy.principals,\n")],
    "a copied (or snapshotted) node whose principals are later changed in place on one side",
    "the copy shares the set of principals with its source", '''
vfs = VirtualFileSystem()
vfs.write_file("/a", "x")
vfs.set_policy("/a", NodePolicy(principals={"alice"}))
vfs.copy("/a", "/b")
vfs.get_policy("/b").principals.add("mallory")
sys.exit("mallory" in vfs.get_policy("/a").principals)
''')

bug("b02", "C12", [(V, """        try:
            path.relative_to(prefix)
            return True
        except ValueError:
            return False
""", """        return str(path).startswith(str(prefix))
""")],
    "a sibling whose name merely starts with the registered prefix",
    "hooks (and storage mounts) fire for /ab when registered for /a", '''
vfs = VirtualFileSystem()
seen = []
vfs.register_write_hook("/a", lambda e: seen.append(e.path))
vfs.write_file("/ab", "x")
sys.exit(bool(seen))
''')

bug("b03", "C07", [(V, """                self._ensure_write_allowed(parent_node)
                self._ensure_write_allowed(dest_node)
""", """                self._ensure_write_allowed(parent_node)
                self._ensure_write_allowed(dest_node, append=True)
""")],
    "copying over an append-only file in a writable directory",
    "an append-only file is replaced by a copy", '''
vfs = VirtualFileSystem()
vfs.write_file("/log", "old")
vfs.write_file("/x", "new")
vfs.set_policy("/log", NodePolicy(append_only=True))
try:
    vfs.copy("/x", "/log")
except Exception:
    pass
sys.exit(not vfs.read_file("/log").startswith("old"))
''')

bug("b04", "C11", [(V, """        if expected_version is None:
            return
        if node.version""", """        if not expected_version:
            return
        if node.version""")],
    "a conditional write expecting version 0 on a file written by somebody else in the meantime",
    "an expected version of zero is ignored, so a create race loses an update", '''
vfs = VirtualFileSystem()
vfs.write_file("/f", "theirs")
try:
    vfs.write_file("/f", "mine", expected_version=0)
except Exception:
    pass
sys.exit(vfs.read_file("/f") != "theirs")
''')

bug("b05", "C10", [("sandfs/policies.py", "                node_path.is_relative_to(prefix) or prefix.is_relative_to(node_path)\n",
     "                str(node_path).startswith(str(prefix)) or prefix.is_relative_to(node_path)\n")],
    "a sibling whose name extends the last component of a path prefix",
    "a view limited to /docs also lists /docs-private", '''
vfs = VirtualFileSystem()
vfs.write_file("/docs/a", "x")
vfs.write_file("/docs-private/k", "secret")
sh = SandboxShell(vfs, view=VisibilityView(path_prefixes=["/docs"]))
sys.exit("private" in sh.exec("ls /").stdout)
''')

bug("b06", "C09", [(S, """                try:
                    self._ensure_visible_path(resolved)
                    content = self.vfs.read_file(resolved)
                except (NodeNotFound, InvalidOperation) as exc:
                    return CommandResult(stderr=str(exc), exit_code=1)
            outputs.append(""", """                try:
                    content = self.vfs.read_file(resolved)
                except (NodeNotFound, InvalidOperation) as exc:
                    return CommandResult(stderr=str(exc), exit_code=1)
            outputs.append(""")],
    "wc on a file hidden by the view",
    "wc discloses the size of a hidden file", '''
vfs = VirtualFileSystem()
vfs.write_file("/s", "secret")
vfs.set_policy("/s", NodePolicy(classification="secret"))
sh = SandboxShell(vfs, view=VisibilityView(classifications=["public"]))
sys.exit(sh.exec("wc /s").exit_code == 0)
''')

bug("b07", "C03", [(V, """        self._check_version(node, expected_version)
        previous_version = node.version
""", """        previous_version = node.version
        node.modified_at = time.time()
        self._check_version(node, expected_version)
""")],
    "a conditional write that is rejected",
    "a rejected write changes the modification time", '''
import time
vfs = VirtualFileSystem()
n = vfs.write_file("/f", "a")
t = n.modified_at
time.sleep(0.02)
try:
    vfs.write_file("/f", "b", expected_version=7)
except Exception:
    pass
sys.exit(vfs.get_node("/f").modified_at != t)
''')

bug("b08", "C06", [(V, """            if isinstance(dest_node, VirtualDirectory):
                self._ensure_write_allowed(dest_node)
                dest_parent = dest_node
                dest_name = node.name
            else:
                raise""", """            if isinstance(dest_node, VirtualDirectory):
                dest_parent = dest_node
                dest_name = node.name
            else:
                raise""")],
    "moving onto an existing read-only directory (not naming the new entry)",
    "a move adds an entry to a read-only directory", '''
vfs = VirtualFileSystem()
vfs.mkdir("/ro")
vfs.write_file("/x", "x")
vfs.set_policy("/ro", NodePolicy(writable=False))
try:
    vfs.move("/x", "/ro")
except Exception:
    pass
sys.exit(vfs.exists("/ro/x"))
''')

bug("b09", "C01", [(V, """            if part == "..":
                if parts:
                    parts.pop()
                continue
""", """            if part == "..":
                if len(parts) > 1 or raw.parts[-1] != "..":
                    parts = parts[:-1]
                continue
""")],
    "a path ending in '..' whose parent is the root",
    "/a/.. denotes /a", '''
vfs = VirtualFileSystem()
vfs.mkdir("/a")
sys.exit(vfs.cd("/a/..") != "/")
''')

bug("b10", "C08", [(V, """        self._ensure_read_allowed(node)

        dest_path""", """        if isinstance(node, VirtualFile):
            self._ensure_read_allowed(node)

        dest_path""")],
    "recursively copying an unreadable directory",
    "the entries of an unreadable directory are copied somewhere else", '''
vfs = VirtualFileSystem()
vfs.write_file("/d/f", "secret")
vfs.set_policy("/d", NodePolicy(readable=False))
try:
    vfs.copy("/d", "/e", recursive=True)
except Exception:
    sys.exit(0)
sys.exit(1)
''')


A = "sandfs/adapters.py"
N = "sandfs/nodes.py"
P = "sandfs/shell_parser.py"

bug("b11", "C13", [(V, "        return max(matches, key=lambda item: len(item[0].parts))\n", "        return matches[-1]\n")],
    "nested storage mounts of which the outer one was mounted last",
    "writes below the inner mount go to the outer back end", '''
vfs = VirtualFileSystem()
inner, outer = MemoryStorageAdapter(), MemoryStorageAdapter()
vfs.mount_storage("/m/in", inner)
vfs.mount_storage("/m", outer)
vfs.write_file("/m/in/f", "x")
sys.exit("f" not in inner.list())
''')

bug("b12", "C13", [(V, """            file_node.write(entry.content)
            file_node.version = entry.version
""", """            if file_node.version != entry.version or not file_node.read(self):
                file_node.write(entry.content)
            file_node.version = entry.version
""")],
    "an entry deleted and created again in the back end so that it has the version the tree knows",
    "synchronising keeps the old text", '''
vfs = VirtualFileSystem()
store = MemoryStorageAdapter({"f": "old"})
vfs.mount_storage("/m", store)
store.delete("f")
store.write("f", "new", version=-1)
vfs.sync_storage("/m")
sys.exit(vfs.read_file("/m/f") != "new")
''')

bug("b13", "C14", [(N, """        directory = VirtualDirectory(
            name=name,
""", """        directory = VirtualDirectory(
            name=name.strip(),
""")],
    "a provided directory whose name consists of blanks",
    "a node with an empty name appears that no path can address", '''
vfs = VirtualFileSystem()
vfs.mount_directory("/p", lambda c: {" ": ProvidedNode.directory(children={"f": ProvidedNode.file(content="x")})})
sys.exit(not vfs.exists("/p/ /f"))
''')

bug("b14", "C15", [(A, "        if not target.is_relative_to(self._root_resolved):\n", "        if not str(target).startswith(str(self._root_resolved)):\n")],
    "a sibling of the root whose name starts with the root's name",
    "reading and writing escape into the sibling directory", '''
import tempfile
from pathlib import Path
with tempfile.TemporaryDirectory() as tmp:
    base = Path(tmp)
    (base / "data").mkdir()
    (base / "data-private").mkdir()
    (base / "data-private" / "k").write_text("secret")
    a = FileSystemAdapter(base / "data")
    try:
        a.read("../data-private/k")
        sys.exit(1)
    except ValueError:
        sys.exit(0)
''')

bug("b15", "C15", [(A, """        target = (self.root / Path(rel.as_posix())).resolve()
        if not""", """        if rel.as_posix() in self._versions:
            return self.root / Path(rel.as_posix())
        target = (self.root / Path(rel.as_posix())).resolve()
        if not""")],
    "a file that was used before is replaced by a symbolic link leading outside",
    "a known path is no longer checked, so writing follows the link", '''
import tempfile
from pathlib import Path
with tempfile.TemporaryDirectory() as tmp:
    base = Path(tmp)
    (base / "data").mkdir()
    (base / "k").write_text("secret")
    a = FileSystemAdapter(base / "data")
    a.write("f", "x", version=0)
    (base / "data" / "f").unlink()
    (base / "data" / "f").symlink_to(base / "k")
    try:
        sys.exit(a.read("f").content == "secret")
    except ValueError:
        sys.exit(0)
''')

bug("b16", "C16", [(A, "        if self._mtimes.get(rel_path) != mtime:\n", "        if self._mtimes.get(rel_path, mtime - 1) < mtime:\n")],
    "the file is replaced by one with an older modification time (a restored backup)",
    "the change is not noticed and a stale write is accepted", '''
import tempfile
from pathlib import Path
with tempfile.TemporaryDirectory() as tmp:
    base = Path(tmp)
    a = FileSystemAdapter(base)
    v = a.write("f", "x", version=0).version
    (base / "f").write_text("other")
    os.utime(base / "f", ns=(1, 1))
    try:
        a.write("f", "mine", version=v)
        sys.exit(1)
    except ValueError:
        sys.exit(0)
''')

bug("b17", "C16", [(A, "        for path in self.root.rglob(\"*\"):\n", "        for path in self.root.rglob(\"*\"):\n            if path.name.startswith(\".\"):\n                continue\n")],
    "a file whose name starts with a dot",
    "hidden files are not listed", '''
import tempfile
with tempfile.TemporaryDirectory() as tmp:
    a = FileSystemAdapter(tmp)
    a.write(".f", "x", version=0)
    sys.exit(".f" not in a.list())
''')

bug("b18", "C17", [(V, """                file_node.policy = self._clone_policy(node_state.policy)
                file_node.write(""", """                file_node.policy = node_state.policy
                file_node.write(""")],
    "a policy is changed in place after a restore and the snapshot is restored again",
    "the snapshot's own policy was changed", '''
vfs = VirtualFileSystem()
vfs.write_file("/f", "x")
s = vfs.snapshot()
vfs.restore(s)
vfs.get_policy("/f").writable = False
vfs.restore(s)
sys.exit(not vfs.get_policy("/f").writable)
''')

bug("b19", "C18", [(V, """            self._remove_index_entry(original_path)
            self._index_file(node)
""", """            self._index_file(node)
""")],
    "a file is moved and an empty file is touched at its old place",
    "the index still knows the old text at the old place", '''
vfs = VirtualFileSystem()
vfs.write_file("/a", "needle")
vfs.enable_full_text_index()
vfs.move("/a", "/b")
vfs.touch("/a")
sys.exit([str(r.path) for r in vfs.search(SearchQuery("needle"))] != ["/b"])
''')

bug("b20", "C18", [("sandfs/search.py", """        self._files.clear()
        for path, content in entries:
            self._files[path] = content
""", """        for path, content in entries:
            self._files[path] = content
""")],
    "a directory move (or restore) followed by touching a file at an old place",
    "rebuilding the index keeps stale entries", '''
vfs = VirtualFileSystem()
vfs.write_file("/d/a", "needle")
vfs.enable_full_text_index()
vfs.move("/d", "/e")
vfs.mkdir("/d")
vfs.touch("/d/a")
sys.exit([str(r.path) for r in vfs.search(SearchQuery("needle"))] != ["/e/a"])
''')

bug("b21", "C19", [(S, """        compiled = re.compile(pattern, flags) if regex else None
        lowered = pattern.casefold() if ignore_case and not regex else None
        for target""", """        compiled = re.compile(pattern.lower() if ignore_case else pattern, flags) if regex else None
        lowered = pattern.casefold() if ignore_case and not regex else None
        for target""")],
    "a case-insensitive regular expression with an upper-case escape such as \\D",
    "grep -i -e lower-cases the pattern and matches other lines", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "abc\n")
sh = SandboxShell(vfs)
sys.exit("abc" not in sh.exec("grep -i -e '^\\D' /f").stdout)
''')

bug("b22", "C19", [(S, """                        results.append(f"{prefix}{line}")
        return results""", """                        entry = f"{prefix}{line}"
                        if entry not in results:
                            results.append(entry)
        return results""")],
    "a file with two equal matching lines, searched without line numbers",
    "grep reports equal lines only once", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "x\nx\n")
sh = SandboxShell(vfs)
sys.exit(sh.exec("grep x /f").stdout.count("x") != 2)
''')

bug("b23", "C20", [(P, '    lexer.commenters = ""\n', "")],
    "a word containing '#'",
    "'#' starts a comment, also in the middle of a word", r'''
sh = SandboxShell(VirtualFileSystem())
sys.exit(sh.exec("echo a#b").stdout != "a#b\n")
''')

bug("b24", "C20", [(P, """                current.append = token == ">>"
""", """                current.append = current.append or token == ">>"
""")],
    "a command with >> followed by another redirection with >",
    "the second redirection appends instead of replacing", r'''
vfs = VirtualFileSystem()
vfs.write_file("/b", "old")
SandboxShell(vfs).exec("echo x >> /a > /b")
sys.exit(vfs.read_file("/b") != "x\n")
''')

bug("b25", "C21", [(S, "            stdout_pipe = output\n", "            stdout_pipe = output or stdout_pipe\n")],
    "a pipeline stage that prints nothing (or whose output is redirected) after one that printed something",
    "the next stage reads the output of the stage before the silent one", r'''
vfs = VirtualFileSystem()
sys.exit(SandboxShell(vfs).exec("echo x | touch /f | cat").stdout != "")
''')

bug("b26", "C21", [(S, "            if spec.stdout is not None:\n", "            if spec.stdout is not None and (output or not spec.append and not stdin_data):\n")],
    "a command in a pipeline that prints nothing and is redirected with >",
    "the target file keeps its old text", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "old")
SandboxShell(vfs).exec("echo a | grep b > /f")
sys.exit(vfs.read_file("/f") != "")
''')

bug("b27", "C22", [(S, "            result = self._run_command(name, args, ctx)\n            stderr_chunks", """            if name == "pwd" and not args:
                result = CommandResult(stdout=ctx.cwd)
            else:
                result = self._run_command(name, args, ctx)
            stderr_chunks""")],
    "pwd in a shell whose allow-list does not contain it",
    "a command that is not allowed runs", r'''
sh = SandboxShell(VirtualFileSystem(), allowed_commands=["ls"])
sys.exit(sh.exec("pwd").exit_code == 0)
''')

bug("b28", "C23", [(S, "        if self.max_output_bytes is None:\n", "        if not self.max_output_bytes:\n")],
    "an output limit of zero bytes",
    "a limit of 0 means no limit", r'''
sh = SandboxShell(VirtualFileSystem(), max_output_bytes=0)
sys.exit("x" in sh.exec("echo xyz").stdout)
''')

bug("b29", "C23", [(S, """        return self._enforce_output_limit(
            CommandResult(stdout=stdout_pipe, stderr="".join(filter(None, stderr_chunks)))
        )
""", """        return CommandResult(stdout=stdout_pipe, stderr="".join(filter(None, stderr_chunks)))
""")],
    "several stages of a pipeline that each print error text below the limit",
    "the collected error texts exceed the limit", r'''
sh = SandboxShell(VirtualFileSystem(), max_output_bytes=5)
sh.register_command("warn", lambda args: CommandResult(stderr="abcd"))
r = sh.exec("warn | warn | warn")
sys.exit(r.exit_code == 0 and len(r.stderr) > 5)
''')

bug("b30", "C24", [(S, """            return CommandResult(stderr=f"{name} failed: {exc}", exit_code=1)
""", """            return CommandResult(stderr=str(exc), exit_code=getattr(exc, "errno", 1))
""")],
    "a registered command that raises an OSError without an error number",
    "the failure is reported without an exit code", r'''
sh = SandboxShell(VirtualFileSystem())
def boom(args):
    raise OSError("broken")
sh.register_command("boom", boom)
r = sh.exec("boom")
sys.exit(not isinstance(r.exit_code, int) or r.exit_code == 0)
''')

bug("b31", "C24", [(S, """            return CommandResult(stderr=f"{name} failed: {exc}", exit_code=1)
""", """            return CommandResult(stderr=str(exc), exit_code=1)
""")],
    "a command failing with an exception that has no text (an assertion, a bare KeyboardInterrupt-like error)",
    "the command fails without any message", r'''
sh = SandboxShell(VirtualFileSystem())
def boom(args):
    raise RuntimeError()
sh.register_command("boom", boom)
r = sh.exec("boom")
sys.exit(r.exit_code != 0 and not r.stderr)
''')

bug("b32", "C25", [(S, """                    format_counts(len(content.splitlines()), len(content.encode("utf-8")), "-")
""", """                    format_counts(len(content.splitlines()), len(content), "-")
""")],
    "wc - on input with non-ASCII characters",
    "wc counts characters instead of bytes", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "\u00e9")
sys.exit(SandboxShell(vfs).exec("cat /f | wc -c -").stdout.split()[0] != "2")
''')

bug("b33", "C25", [(S, """                lines = content.splitlines(keepends=True)
                output.append("".join(lines[:count]))
""", """                lines = content.splitlines()[:count]
                output.append("".join(f"{line}\\n" for line in lines))
""")],
    "head on a file without a final newline (or with carriage returns)",
    "head adds a newline that is not in the file", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "a")
sys.exit(SandboxShell(vfs).exec("head /f").stdout != "a")
''')

bug("b34", "C26", [(V, "        entries.sort(key=lambda entry: (not entry.is_dir, entry.name))\n",
     "        entries.sort(key=lambda entry: (not entry.is_dir, entry.name.lower()))\n")],
    "names that differ in case",
    "ls sorts without regard to case, tree does not", r'''
vfs = VirtualFileSystem()
vfs.write_file("/a", "")
vfs.write_file("/B", "")
sys.exit([e.name for e in vfs.ls("/")] != ["B", "a"])
''')

bug("b35", "C19", [(V, "            return any(target.is_relative_to(prefix) for prefix in prefixes)\n",
     "            return any(str(target).startswith(str(prefix)) for prefix in prefixes)\n")],
    "the search view is enabled and a directory's name starts with the view's name",
    "files below /@searches are never searched", r'''
vfs = VirtualFileSystem()
vfs.enable_search_view()
vfs.write_file("/@searches/f", "needle")
sys.exit(len(vfs.search(SearchQuery("needle"))) != 1)
''')

bug("b36", "C27", [(V, """            file_clone.write(node.read(self))
""", """            file_clone._content, file_clone._provider = node._content, node._provider
""")],
    "copying a provider-backed file whose provider later returns something else",
    "the copy is not static", r'''
vfs = VirtualFileSystem()
state = ["one"]
vfs.mount_file("/p", lambda c: state[0])
vfs.copy("/p", "/q")
state[0] = "two"
sys.exit(vfs.read_file("/q") != "one")
''')

bug("b37", "C27", [(N, """        if provided.children:
            for""", """        if provided.children and provided.directory_provider is None:
            for""")],
    "a provided directory with both static children and a provider",
    "the static children are lost", r'''
vfs = VirtualFileSystem()
d = ProvidedNode.directory(children={"a": ProvidedNode.file(content="x")}, directory_provider=lambda c: {"b": ProvidedNode.file(content="y")})
vfs.mount_directory("/p", lambda c: {"d": d})
sys.exit(not vfs.exists("/p/d/a"))
''')

bug("b39", "C28", [(V, """        with tempfile.TemporaryDirectory() as tmp:
            root = Path(tmp)
""", """        tmp = tempfile.TemporaryDirectory(delete=False)
        with contextlib.nullcontext(tmp.name) as name:
            root = Path(name)
"""), (V, """            yield root
""", """            yield root
            tmp.cleanup()
""")],
    "the user of a materialised directory raises an exception",
    "the materialised files stay on the host", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "x")
seen = []
try:
    with vfs.materialize("/") as root:
        seen.append(root)
        raise RuntimeError
except RuntimeError:
    pass
left = seen[0].exists()
if left:
    (seen[0] / "f").unlink()
    seen[0].rmdir()
sys.exit(left)
''')

bug("b40", "C29", [(S, """        if env:
            merged_env.update(env)
""", """        for key, value in (env or {}).items():
            merged_env.setdefault(key, value)
""")],
    "a shell variable that also exists in the host environment",
    "the host process sees the host's value instead of the shell's", r'''
os.environ["SANDFS_DEMO"] = "host"
sh = SandboxShell(VirtualFileSystem())
r = sh.exec("SANDFS_DEMO=mine host printenv SANDFS_DEMO")
sys.exit(r.stdout.strip() != "mine")
''')

bug("b42", "C30", [(S, """        with self.vfs.search_view_context(parsed.query, view=self.view):
            self.vfs._reset_directory(parsed.base)
            yield resolved
""", """        with self.vfs.search_view_context(parsed.query, view=self.view):
            if parsed != getattr(self, "_last_search", None):
                self.vfs._reset_directory(parsed.base)
                self._last_search = parsed
            yield resolved
""")],
    "the same query twice with a change in between",
    "old results are shown", r'''
vfs = VirtualFileSystem()
vfs.enable_search_view()
sh = SandboxShell(vfs)
sh.exec("ls /@search?q=needle")
vfs.write_file("/f", "needle")
sys.exit("f" not in sh.exec("ls /@search?q=needle").stdout)
''')

bug("b43", "C31", [(S, """        if args and args[0] == "-n":
            newline = False
            args = args[1:]
""", """        while args and args[0] == "-n":
            newline = False
            args = args[1:]
""")],
    "echo with the word -n twice",
    "the second -n is not printed", r'''
sys.exit(SandboxShell(VirtualFileSystem()).exec("echo -n -n").stdout != "-n")
''')

bug("b44", "C31", [(S, """            if token == "--append":
                append = True
""", """            if token in ("-a", "--append"):
                append = True
""")],
    "the word -a among the words to write",
    "the word is lost and the file is extended instead of replaced", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "old")
SandboxShell(vfs).exec("write /f -a b")
sys.exit(vfs.read_file("/f") != "-a b")
''')

bug("b45", "C32", [(S, "        self._handler_accepts_ctx[name] = accepts_ctx\n", "        self._handler_accepts_ctx.setdefault(name, accepts_ctx)\n")],
    "a command is registered again with a handler of the other form",
    "the new handler is called with the wrong arguments", r'''
sh = SandboxShell(VirtualFileSystem())
sh.register_command("c", lambda args, ctx: "one")
sh.register_command("c", lambda args: "two")
sys.exit(sh.exec("c").stdout != "two")
''')

bug("b46", "C32", [(S, """            elif params[0].kind == inspect.Parameter.VAR_POSITIONAL:
                accepts_ctx = True
""", "")],
    "a handler declared with only *args",
    "the handler does not get the context", r'''
sh = SandboxShell(VirtualFileSystem())
sh.register_command("c", lambda *a: str(len(a)))
sys.exit(sh.exec("c").stdout != "2")
''')

bug("b47", "C33", [("sandfs/cli.py", """            if line.strip() in {":q", "exit", "quit"}:
""", """            if line.split(" ")[0] in {":q", "exit", "quit"}:
""")],
    "the word exit typed with blanks in front (or a line starting with that word)",
    "the session does not end", r'''
import subprocess
r = subprocess.run([sys.executable, "-c", "from sandfs.cli import main; main(['shell'])"], input=" exit\npwd\n", capture_output=True, text=True)
sys.exit("Unknown command" in r.stderr)
''')

bug("b48", "C33", [("sandfs/cli.py", """    return result.exit_code


def _run_shell""", """    return 1 if result.exit_code else 0


def _run_shell""")],
    "a command that fails with an exit code other than 1",
    "sandfs exec exits with 1", r'''
import subprocess
r = subprocess.run([sys.executable, "-c", "from sandfs.cli import main; main(['exec', 'nosuch'])"], capture_output=True, text=True)
sys.exit(r.returncode != 127)
''')

bug("b49", "C34", [(V, """        node.modified_at = time.time()
        return node
""", """        node.modified_at = max(node.modified_at, time.time())
        return node
""")],
    "touching a file whose modification time lies in the future",
    "touch does not set the time to the present", r'''
import time
vfs = VirtualFileSystem()
n = vfs.write_file("/f", "x")
n.modified_at = time.time() + 1000
vfs.touch("/f")
sys.exit(vfs.get_node("/f").modified_at > time.time() + 500)
''')

bug("b50", "C34", [(S, """        modified = datetime.fromtimestamp(node.modified_at)""", """        modified = datetime.fromtimestamp(node.modified_at if node.version else node.created_at)""")],
    "stat of a file that was only touched, or of a directory",
    "stat shows the creation time as the modification time", r'''
vfs = VirtualFileSystem()
n = vfs.touch("/f")
n.modified_at = 86400 * 400
out = SandboxShell(vfs).exec("stat /f").stdout
sys.exit("1971" not in out)
''')

bug("b51", "C35", [(V, """        self._ensure_read_allowed(node)
        self.cwd = node
        return self.pwd()
""", """        self.cwd = node
        self._ensure_read_allowed(node)
        return self.pwd()
""")],
    "cd to an unreadable directory",
    "a refused cd changes the working directory", r'''
vfs = VirtualFileSystem()
vfs.mkdir("/d")
vfs.set_policy("/d", NodePolicy(readable=False))
try:
    vfs.cd("/d")
except Exception:
    pass
sys.exit(vfs.pwd() != "/")
''')

bug("b52", "C36", [(N, """        parent: "VirtualDirectory" | None = None,
        content: str | None = None,
        provider: ContentProvider | None = None,
        metadata: dict[str, object] | None = None,
    ) -> None:
        super().__init__(name=name, parent=parent, metadata=dict(metadata or {}))
""", """        parent: "VirtualDirectory" | None = None,
        content: str | None = None,
        provider: ContentProvider | None = None,
        metadata: dict[str, object] | None = None,
    ) -> None:
        super().__init__(name=name, parent=parent, metadata=metadata if metadata is not None else {})
""")],
    "one ProvidedNode returned to two filesystems, one of which changes the file's metadata",
    "the metadata is shared between the filesystems and the caller", r'''
node = ProvidedNode.file(content="x", metadata={"k": 1})
one, two = VirtualFileSystem(), VirtualFileSystem()
for v in (one, two):
    v.mount_directory("/p", lambda c: {"f": node})
one.get_node("/p/f").metadata["k"] = 2
sys.exit(two.get_node("/p/f").metadata["k"] != 1)
''')

bug("b53", "C36", [("sandfs/pyexec.py", "        self._builtins = dict(_ALLOWED_BUILTINS)\n", "        self._builtins = _ALLOWED_BUILTINS\n")],
    "an executor made with extra builtins, then another executor",
    "the extra builtins of one executor appear in all of them", r'''
from sandfs.pyexec import PythonExecutor
vfs = VirtualFileSystem()
PythonExecutor(vfs, builtins={"secret": lambda: 1})
try:
    PythonExecutor(VirtualFileSystem()).run("secret()")
    sys.exit(1)
except NameError:
    sys.exit(0)
''')

bug("b54", "C36", [(S, "        self.env: dict[str, str] = dict(env or {})\n", "        self.env: dict[str, str] = env if env is not None else {}\n")],
    "two shells made with the same dictionary of variables",
    "a variable set in one shell shows in the other and in the caller's dictionary", r'''
env = {"A": "1"}
sh = SandboxShell(VirtualFileSystem(), env=env)
sh.exec("A=2")
sys.exit(env["A"] != "1")
''')

bug("b56", "C38", [(A, "        if entry and entry.version != version:\n", "        if entry and entry.version > version:\n")],
    "a write that names a version newer than the stored one (the entry was deleted and created again)",
    "the write is accepted although the caller never saw the present text", r'''
m = MemoryStorageAdapter()
m.write("f", "a", version=4)
m.delete("f")
m.write("f", "theirs", version=0)
try:
    m.write("f", "mine", version=5)
except ValueError:
    pass
sys.exit(m.read("f").content != "theirs")
''')

bug("b57", "C38", [(A, """        return {
            path: StorageEntry(content=entry.content, version=entry.version)
            for path, entry in self._entries.items()
        }
""", """        return dict(self._entries)
""")],
    "a caller changes an entry of the returned listing",
    "the back end's own entry changes", r'''
m = MemoryStorageAdapter({"f": "x"})
m.list()["f"].content = "y"
sys.exit(m.read("f").content != "x")
''')

bug("b58", "C39", [("sandfs/pyexec.py", '        env["__builtins__"] = dict(self._builtins)\n', '        env["__builtins__"] = self._builtins\n')],
    "a snippet that removes a name from its builtins",
    "later snippets miss the name", r'''
from sandfs.pyexec import PythonExecutor
e = PythonExecutor(VirtualFileSystem())
e.run("__builtins__.pop('len')")
try:
    e.run("len([])")
    sys.exit(0)
except NameError:
    sys.exit(1)
''')

bug("b59", "C39", [("sandfs/pyexec.py", """        env: dict[str, Any] = dict(self._globals_template)
        if extra_globals:
            env.update(extra_globals)
""", """        env: dict[str, Any] = self._globals_template
        if extra_globals:
            env = {**env, **extra_globals}
""")],
    "two snippets run one after the other",
    "names set by one snippet are visible in the next", r'''
from sandfs.pyexec import PythonExecutor
e = PythonExecutor(VirtualFileSystem())
e.run("x = 1")
try:
    e.run("print(x)")
    sys.exit(1)
except NameError:
    sys.exit(0)
''')

bug("b60", "C04", [(V, """                dest_parent_path.relative_to(node_path)
                raise InvalidOperation("Cannot move a directory inside itself")
            except ValueError:
                pass
""", """                if str(dest_parent_path).startswith(str(node_path)):
                    raise InvalidOperation("Cannot move a directory inside itself")
            except ValueError:
                pass
""")],
    "moving a directory into a sibling whose name starts with its name",
    "the move is refused", r'''
vfs = VirtualFileSystem()
vfs.mkdir("/a")
vfs.mkdir("/ab")
try:
    vfs.move("/a", "/ab")
except Exception:
    sys.exit(1)
''')

bug("b61", "C02", [(V, """        if not isinstance(existing, VirtualDirectory):
            raise InvalidOperation(f"{existing.path()} is not a directory")
        if not exist_ok:
            raise NodeExists(f"Directory {existing.path()} already exists")
""", """        if not exist_ok:
            if not isinstance(existing, VirtualDirectory):
                raise InvalidOperation(f"{existing.path()} is not a directory")
            raise NodeExists(f"Directory {existing.path()} already exists")
""")],
    "mkdir -p on the path of an existing file",
    "the command succeeds although there is no directory", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "x")
try:
    vfs.mkdir("/f", parents=True, exist_ok=True)
except Exception:
    sys.exit(0)
sys.exit(1)
''')

bug("b62", "C09", [(S, """        self._ensure_visible_path(dest)
        try:
            self.vfs.copy""", """        try:
            self.vfs.copy""")],
    "cp onto a file hidden by the view",
    "a hidden file is overwritten", r'''
vfs = VirtualFileSystem()
vfs.write_file("/s", "secret")
vfs.write_file("/x", "x")
vfs.set_policy("/s", NodePolicy(classification="secret"))
SandboxShell(vfs, view=VisibilityView(classifications=["public"])).exec("cp /x /s")
sys.exit(vfs.read_file("/s") != "secret")
''')

bug("b63", "C06", [(V, """        self._ensure_write_allowed(node)
        self._ensure_write_allowed(parent)

        dest_path""", """        self._ensure_write_allowed(node)

        dest_path""")],
    "moving a file out of a read-only directory",
    "an entry of a read-only directory disappears", r'''
vfs = VirtualFileSystem()
vfs.write_file("/d/f", "x")
vfs.set_policy("/d", NodePolicy(writable=False))
try:
    vfs.move("/d/f", "/f")
except Exception:
    pass
sys.exit(not vfs.exists("/d/f"))
''')

bug("b64", "C08", [(V, """        root_dir = self._resolve_dir(path or self.cwd.path())
        self._ensure_read_allowed(root_dir)
""", """        root_dir = self._resolve_dir(path or self.cwd.path())
        if root_dir is not self.cwd:
            self._ensure_read_allowed(root_dir)
""")],
    "tree while the working directory has become unreadable",
    "the names in an unreadable directory are shown", r'''
vfs = VirtualFileSystem()
vfs.write_file("/d/f", "x")
vfs.cd("/d")
vfs.set_policy("/d", NodePolicy(readable=False))
sys.exit("f" in SandboxShell(vfs).exec("tree").stdout)
''')

bug("b65", "C12", [(V, """        event_type = "create" if previous_version == 0 else "update"
""", """        event_type = "update" if append or previous_version else "create"
""")],
    "a file created by appending",
    "its first event says update", r'''
vfs = VirtualFileSystem()
seen = []
vfs.register_path_hook("/", lambda e: seen.append(e.event))
vfs.append_file("/f", "x")
sys.exit(seen != ["create"])
''')

bug("b66", "C17", [(V, """                metadata=dict(node.metadata),
                policy=self._clone_policy(node.policy),
                version=node.version,
                created_at""", """                metadata=node.metadata,
                policy=self._clone_policy(node.policy),
                version=node.version,
                created_at""")],
    "metadata changed in place after a snapshot",
    "the snapshot changes with the tree", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "x").metadata["k"] = 1
s = vfs.snapshot()
vfs.get_node("/f").metadata["k"] = 2
vfs.restore(s)
sys.exit(vfs.get_node("/f").metadata["k"] != 1)
''')

bug("b67", "C07", [(V, """        self._ensure_write_allowed(node)
        self._ensure_write_allowed(parent)
        if isinstance(node, VirtualDirectory) and node.children""", """        self._ensure_write_allowed(node)
        self._ensure_write_allowed(parent, append=isinstance(node, VirtualFile))
        if isinstance(node, VirtualDirectory) and node.children""")],
    "removing a file from an append-only directory",
    "an entry of an append-only directory is removed", r'''
vfs = VirtualFileSystem()
vfs.write_file("/d/f", "x")
vfs.set_policy("/d", NodePolicy(append_only=True))
try:
    vfs.remove("/d/f")
except Exception:
    pass
sys.exit(not vfs.exists("/d/f"))
''')

bug("b68", "C11", [(V, """        node.version += 1
        node.modified_at = time.time()
""", """        node.version = previous_version + (1 if data or not append else 0)
        node.modified_at = time.time()
""")],
    "appending an empty text to an empty file",
    "a successful append does not advance the version", r'''
vfs = VirtualFileSystem()
vfs.append_file("/f", "")
sys.exit(vfs.get_version("/f") != 1)
''')

bug("b69", "C26", [(S, """                if name_pattern and not fnmatch.fnmatch(node.name, name_pattern):
""", """                if name_pattern and not fnmatch.fnmatch(node.name.lower(), name_pattern.lower()):
""")],
    "find -name with names that differ in case",
    "find reports files whose name does not match", r'''
vfs = VirtualFileSystem()
vfs.write_file("/A", "")
sys.exit(SandboxShell(vfs).exec("find / -name a").stdout != "")
''')

bug("b70", "C30", [(S, """            path_prefix = PurePosixPath(path_prefix_raw)
            if not path_prefix.is_absolute():
                path_prefix = PurePosixPath("/").joinpath(path_prefix)
""", """            path_prefix = PurePosixPath(path_prefix_raw)
            if not path_prefix.is_absolute():
                path_prefix = PurePosixPath(self.vfs.pwd()).joinpath(path_prefix)
""")],
    "a query with a relative path= while the working directory is not the root",
    "the results depend on the working directory", r'''
vfs = VirtualFileSystem()
vfs.enable_search_view()
vfs.write_file("/d/f", "needle")
vfs.mkdir("/w")
vfs.cd("/w")
sys.exit("f" not in SandboxShell(vfs).exec("find /@search?q=needle&path=d").stdout)
''')

bug("b71", "C01", [(V, """            if not raw.is_absolute():
                base = self.cwd.path()
                raw = base.joinpath(raw)
        parts""", """            if not raw.is_absolute():
                base = self.cwd.path()
                while raw.parts and raw.parts[0] == "..":
                    base = base.parent
                    raw = PurePosixPath(*raw.parts[1:]) if len(raw.parts) > 1 else PurePosixPath("")
                raw = base.joinpath(raw)
                if len(raw.parts) > 1 and raw.parts[-1] == ".." and raw.parts[-2] == "..":
                    raw = raw.parent
        parts""")],
    "a relative path ending in several '..' after a name (a/b/../..)",
    "the path denotes a directory one level too deep", r'''
vfs = VirtualFileSystem()
vfs.mkdir("/a/b", parents=True)
sys.exit(vfs.cd("a/b/../..") != "/")
''')

bug("b72", "C10", [("sandfs/policies.py", """                if node.metadata.get(key) != value:
                    return False
""", """                if key in node.metadata and node.metadata[key] != value:
                    return False
""")],
    "a node without the metadata key a view filters on",
    "the node is visible although the filter does not match", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "x")
sh = SandboxShell(vfs, view=VisibilityView(metadata_filters={"team": "a"}))
sys.exit("f" in sh.exec("ls /").stdout)
''')

bug("b73", "C03", [(V, """        self._ensure_write_allowed(node)
        self._ensure_write_allowed(parent)
        if isinstance(node, VirtualDirectory) and node.children and not recursive:
            raise InvalidOperation("Directory not empty; pass recursive=True")
""", """        self._ensure_write_allowed(node)
        if isinstance(node, VirtualFile):
            self._remove_index_entry(target)
        self._ensure_write_allowed(parent)
        if isinstance(node, VirtualDirectory) and node.children and not recursive:
            raise InvalidOperation("Directory not empty; pass recursive=True")
""")],
    "a file in a read-only directory, the index enabled, and a refused removal",
    "the refused removal takes the file out of the search results", r'''
vfs = VirtualFileSystem()
vfs.enable_full_text_index()
vfs.write_file("/d/f", "needle")
vfs.set_policy("/d", NodePolicy(writable=False))
try:
    vfs.remove("/d/f")
except Exception:
    pass
sys.exit(len(vfs.search(SearchQuery("needle"))) != 1)
''')

bug("b74", "C05", [(V, """            directory_clone = VirtualDirectory(name=node.name, metadata=dict(node.metadata))
            directory_clone.policy = self._clone_policy(node.policy)
""", """            directory_clone = VirtualDirectory(name=node.name, metadata=dict(node.metadata))
            directory_clone.policy = NodePolicy(
                readable=node.policy.readable,
                writable=node.policy.writable,
                append_only=node.policy.append_only,
                classification=node.policy.classification,
            )
""")],
    "recursively copying a directory with principals",
    "the copy is visible to everybody", r'''
vfs = VirtualFileSystem()
vfs.mkdir("/d/e", parents=True)
vfs.set_policy("/d/e", NodePolicy(principals={"alice"}))
vfs.copy("/d", "/c", recursive=True)
sys.exit(vfs.get_policy("/c/e").principals != {"alice"})
''')

bug("b38", "C28", [(V, "            target = dest / child.name\n", "            target = dest.joinpath(child.name.rstrip())\n")],
    "a name ending in a blank next to the same name without it",
    "one of the two exported files overwrites the other", r'''
import tempfile
from pathlib import Path
with tempfile.TemporaryDirectory() as tmp:
    vfs = VirtualFileSystem()
    vfs.write_file("/a", "1")
    vfs.write_file("/a ", "2")
    vfs.export_to_path(Path(tmp), source="/")
    sys.exit((Path(tmp) / "a").read_text() != "1")
''')

bug("b41", "C29", [(S, "                    if existing == text:\n", "                    if existing.rstrip() == text.rstrip():\n")],
    "a host process that only changes blanks or newlines at the end of a file",
    "the change does not reach the tree", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "x")
SandboxShell(vfs).exec("host sh -c 'echo x > f'")
sys.exit(vfs.read_file("/f") != "x\n")
''')

bug("b55", "C37", [(S, """        else:
            code = " ".join(args)
        result = self.py_exec""", """        elif len(args) == 1 and Path(args[0]).is_file():
            code = Path(args[0]).read_text(encoding="utf-8")
        else:
            code = " ".join(args)
        result = self.py_exec""")],
    "python with a single word that is the path of a host file",
    "a host file is read and run", r'''
import tempfile
with tempfile.NamedTemporaryFile("w", suffix=".py") as f:
    f.write("print(12345)")
    f.flush()
    sys.exit("12345" in SandboxShell(VirtualFileSystem()).exec("python " + f.name).stdout)
''')

bug("b75", "C40", [(S, """            self._ensure_visible_tree(target)
            self.vfs.remove(target, recursive=recursive)
""", """            if recursive and not self.vfs.exists(target):
                continue
            self._ensure_visible_tree(target)
            self.vfs.remove(target, recursive=recursive)
""")],
    "rm -r of a file below a file",
    "rm -r silently succeeds where the API refuses", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "x")
sys.exit(SandboxShell(vfs).exec("rm -r /f/x").exit_code == 0)
''')

bug("b76", "C40", [(S, """            self.vfs.mkdir(path, parents=parents, exist_ok=parents)
""", """            if parents and path is not paths[-1]:
                self.vfs._resolve_dir(path, create=True)
                continue
            self.vfs.mkdir(path, parents=parents, exist_ok=parents)
""")],
    "mkdir -p with several operands, an early one in a read-only directory",
    "the directory is made although the policy forbids it", r'''
vfs = VirtualFileSystem()
vfs.mkdir("/ro")
vfs.set_policy("/ro", NodePolicy(writable=False))
SandboxShell(vfs).exec("mkdir -p /ro/a /b")
sys.exit(vfs.exists("/ro/a"))
''')

bug("b77", "C40", [(S, """        blobs: list[str] = []
        for path in args:
""", """        blobs: list[str] = []
        for path in dict.fromkeys(args):
""")],
    "cat naming the same file twice",
    "the text appears once", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "x")
sys.exit(SandboxShell(vfs).exec("cat /f /f").stdout != "xx")
''')

bug("b78", "C40", [(S, """            self._ensure_visible_path(path)
            self.vfs.touch(path)
""", """            self._ensure_visible_path(path)
            if self.vfs.is_dir(path):
                continue
            self.vfs.touch(path)
""")],
    "touch of a directory among the operands",
    "the command reports success although the API refuses", r'''
vfs = VirtualFileSystem()
vfs.mkdir("/d")
sys.exit(SandboxShell(vfs).exec("touch /d").exit_code == 0)
''')

bug("b79", "C41", [("sandfs/nodes.py", """        try:
            return self.children[name]
        except KeyError as exc:
            raise NodeNotFound(""", """        try:
            return self.children[name]
        except KeyError as exc:
            if self.loader is not None:
                raise ProviderError(f"{self.path()} does not provide {name}") from exc
            raise NodeNotFound(""")],
    "looking up a missing name below a directory with a provider",
    "ProviderError instead of NodeNotFound, so nothing can be created there and exists() raises", r'''
vfs = VirtualFileSystem()
vfs.mount_directory("/p", lambda ctx: {})
try:
    vfs.read_file("/p/x")
except sandfs.exceptions.NodeNotFound:
    sys.exit(0)
except Exception:
    sys.exit(1)
''')

bug("b80", "C41", [(V, """        if not isinstance(existing, VirtualDirectory):
            raise InvalidOperation(f"{existing.path()} is not a directory")
        if not exist_ok:
""", """        if not isinstance(existing, VirtualDirectory):
            raise NodeNotFound(f"{existing.path()} is not a directory")
        if not exist_ok:
""")],
    "mkdir over a file",
    "the error claims that something is missing", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "x")
try:
    vfs.mkdir("/f")
except sandfs.exceptions.NodeNotFound:
    sys.exit(1)
except sandfs.exceptions.SandboxError:
    sys.exit(0)
''')

bug("b81", "C41", [(V, """        if isinstance(node, VirtualDirectory) and not recursive:
            raise InvalidOperation("Source is""", """        if isinstance(node, VirtualDirectory) and node.children and not recursive:
            raise InvalidOperation("Source is""")],
    "a plain copy of a directory that is empty or not loaded yet",
    "the copy is made instead of being refused", r"""
vfs = VirtualFileSystem()
vfs.mkdir("/d")
try:
    vfs.copy("/d", "/e")
except sandfs.exceptions.InvalidOperation:
    sys.exit(0)
sys.exit(1)
""")

bug("b82", "C41", [("sandfs/nodes.py", """        try:
            snapshot = self.loader(ctx)
        except Exception as exc:
            raise ProviderError""", """        try:
            snapshot = self.loader(ctx)
        except (NodeNotFound, NodeExists):
            raise
        except Exception as exc:
            raise ProviderError""")],
    "a directory provider that itself runs into a missing node",
    "NodeNotFound is reported, so the existing directory seems to be missing", r'''
vfs = VirtualFileSystem()
vfs.mount_directory("/p", lambda ctx: ctx.vfs.read_file("/gone"))
try:
    vfs.ls("/p")
except sandfs.exceptions.ProviderError:
    sys.exit(0)
except Exception:
    sys.exit(1)
''')

# -- third round -----------------------------------------------------------------
N = "sandfs/nodes.py"
A = "sandfs/adapters.py"
P = "sandfs/shell_parser.py"
E = "from sandfs.exceptions import *\n"

bug("b83", "C01", [(V, """            base = self.cwd.path()
            raw = base
        else:
            raw = PurePosixPath(path)
            if not raw.is_absolute():
                base = self.cwd.path()
                raw = base.joinpath(raw)
""", """            base = self.cwd.path()
            raw = base
        else:
            raw = PurePosixPath(path)
            if not raw.is_absolute():
                cached = self._joined.get(str(path))
                if cached is None or cached[0] is not self.cwd.name:
                    cached = (self.cwd.name, self.cwd.path().joinpath(raw))
                    self._joined[str(path)] = cached
                raw = cached[1]
"""), (V, """        self.cwd = self.root
        self._write_hooks: list""", """        self.cwd = self.root
        self._joined: dict[str, tuple[str, PurePosixPath]] = {}
        self._write_hooks: list""")],
    "the same relative path used in two directories of the same name (or in one that was moved)",
    "the path still denotes the location below the first one", r'''
vfs = VirtualFileSystem()
name = "sub"
for top in ("/a", "/b"):
    vfs.mkdir(top + "/sub", parents=True)
    vfs.get_node(top + "/sub").name = name
    vfs.cd(top + "/sub")
    vfs.write_file("f", top)
sys.exit(not vfs.exists("/b/sub/f"))
''')

bug("b84", "C02", [(V, """        parent = self._resolve_dir(parent_path or PurePosixPath("/"), create=create)
        name = target.name
        if not name:
            raise InvalidOperation("Missing file name")
        try:
            node = parent""", """        parent = self._last_parent
        if parent is None or parent.path() != parent_path:
            parent = self._resolve_dir(parent_path or PurePosixPath("/"), create=create)
            self._last_parent = parent
        name = target.name
        if not name:
            raise InvalidOperation("Missing file name")
        try:
            node = parent"""), (V, """        self.cwd = self.root
        self._write_hooks: list""", """        self.cwd = self.root
        self._last_parent: VirtualDirectory | None = None
        self._write_hooks: list""")],
    "a directory is removed and made again, with nothing written elsewhere in between",
    "files written there are lost", r'''
vfs = VirtualFileSystem()
vfs.write_file("/d/f", "x")
vfs.remove("/d", recursive=True)
vfs.mkdir("/d")
vfs.write_file("/d/g", "y")
sys.exit(not vfs.exists("/d/g"))
''')

bug("b87", "C05", [(V, """            file_clone.policy = self._clone_policy(node.policy)
            file_clone.write""", """            file_clone.policy = node.policy
            if node.policy.principals:
                file_clone.policy = self._clone_policy(node.policy)
            file_clone.write""")],
    "a policy without principals that is changed in place after a copy",
    "source and copy share the policy", r'''
vfs = VirtualFileSystem()
vfs.write_file("/a", "1")
vfs.copy("/a", "/b")
vfs.get_policy("/b").writable = False
sys.exit(not vfs.get_policy("/a").writable)
''')

bug("b88", "C06", [(V, """        if not node.policy.writable:
            raise InvalidOperation(f"{node.path()} is read-only")
""", """        if not node.policy.writable and not (append and node.policy.append_only):
            raise InvalidOperation(f"{node.path()} is read-only")
""")],
    "a file that is both read-only and append-only",
    "it can be appended to", E + r'''
vfs = VirtualFileSystem()
vfs.write_file("/a", "1")
vfs.set_policy("/a", NodePolicy(writable=False, append_only=True))
try:
    vfs.append_file("/a", "2")
except InvalidOperation:
    pass
sys.exit(vfs.read_file("/a") != "1")
''')

bug("b89", "C07", [(V, """        if node.policy.append_only and not append:
""", """        if node.policy.append_only and not append and (node.version or node.children_or_text()):
"""), (N, """    def build_context(self, vfs""", """    def children_or_text(self) -> object:
        return getattr(self, "_content", None) or getattr(self, "children", None)

    def build_context(self, vfs""")],
    "an append-only file whose text comes from a provider",
    "it can be overwritten or removed", E + r'''
vfs = VirtualFileSystem()
vfs.mount_file("/log", lambda ctx: "entries")
vfs.set_policy("/log", NodePolicy(append_only=True))
try:
    vfs.write_file("/log", "")
except InvalidOperation:
    pass
sys.exit(vfs.read_file("/log") != "entries")
''')

bug("b91", "C09", [(S, """        if not self.view.allows(node.policy):
            raise InvalidOperation(f"Path {path} is hidden for this view")
        if self.view.metadata""", """        if (path, node.version) in self._seen:
            return
        if not self.view.allows(node.policy):
            raise InvalidOperation(f"Path {path} is hidden for this view")
        if self.view.allows_node(node):
            self._seen.add((path, node.version))
        if self.view.metadata"""), (S, """        self.host_fallback = host_fallback
        self._handler""", """        self.host_fallback = host_fallback
        self._seen: set[tuple[str, int]] = set()
        self._handler""")],
    "a file that is hidden (or replaced by a hidden one) after it was seen",
    "the shell goes on disclosing it", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "x")
sh = SandboxShell(vfs, view=VisibilityView(classifications={"public"}))
sh.exec("cat /f")
vfs.set_policy("/f", NodePolicy(classification="secret"))
sys.exit(sh.exec("cat /f").stdout == "x")
''')

bug("b92", "C10", [("sandfs/policies.py", """        return policy.classification in self.classifications
""", """        return any(
            policy.classification == label or policy.classification.startswith(f"{label}-")
            for label in self.classifications
        )
""")],
    "a classification that extends an admitted one by a dash and more",
    "public-embargoed is shown to a view that admits public", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "x")
vfs.set_policy("/f", NodePolicy(classification="public-embargoed"))
sys.exit(len(vfs.ls("/", view=VisibilityView(classifications={"public"}))) != 0)
''')

bug("b93", "C11", [(V, """        node.write(data)
        node.version += 1
""", """        if node.version == 0 or node._provider is not None or node._content != data:
            node.version += 1
        node.write(data)
""")],
    "writing the text the file already has",
    "the version does not advance, so a stale writer is not noticed", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "x")
vfs.write_file("/f", "x")
sys.exit(vfs.get_version("/f") != 2)
''')

bug("b94", "C12", [(V, """        normalized = self._normalize(prefix)
        self._path_hooks.append((normalized, hook))
""", """        normalized = self._normalize(prefix)
        for idx, (known, registered) in enumerate(self._path_hooks):
            if registered is hook and self._path_matches_prefix(known, normalized):
                self._path_hooks[idx] = (normalized, hook)
                return
        self._path_hooks.append((normalized, hook))
""")],
    "one hook registered for a directory and for one above it",
    "it is called once instead of once per registration", r'''
vfs = VirtualFileSystem()
seen = []
hook = seen.append
vfs.register_path_hook("/a/b", hook)
vfs.register_path_hook("/a", hook)
vfs.write_file("/a/b/f", "x")
sys.exit(len(seen) != 2)
''')

bug("b95", "C13", [(V, """        relative = self._relative_storage_path(node.path(), prefix)
        adapter.delete(relative)
""", """        relative = self._relative_storage_path(node.path(), prefix)
        if node.version or node.read(self):
            adapter.delete(relative)
""")],
    "removing a stored file that is empty and was never written",
    "the entry stays in the back end and comes back", r'''
from sandfs.adapters import MemoryStorageAdapter
vfs = VirtualFileSystem()
ad = MemoryStorageAdapter({"f": ""})
vfs.mount_storage("/m", ad)
vfs.remove("/m/f")
sys.exit(len(ad.list()) != 0)
''')

bug("b97", "C15", [(A, """    def delete(self, path: str) -> None:
        target = self._resolve(path)
        if target""", """    def delete(self, path: str) -> None:
        target = self.root / path.lstrip("/")
        if target""")],
    "deleting a path that leads outside by '..' or a symbolic link",
    "a file outside the root is deleted", r'''
import tempfile
from pathlib import Path
from sandfs.adapters import FileSystemAdapter
with tempfile.TemporaryDirectory() as tmp:
    (Path(tmp) / "outside").write_text("x")
    ad = FileSystemAdapter(Path(tmp) / "root")
    try:
        ad.delete("../outside")
    except ValueError:
        pass
    sys.exit(not (Path(tmp) / "outside").exists())
''')

bug("b98", "C16", [(A, """        mtime = target.stat().st_mtime_ns
        if rel_path not in""", """        mtime = target.stat().st_mtime_ns // 1_000_000
        if rel_path not in"""), (A, """        mtime = target.stat().st_mtime_ns
        new_version""", """        mtime = target.stat().st_mtime_ns // 1_000_000
        new_version""")],
    "an outside change less than a millisecond after the last look",
    "the change is not noticed and is overwritten", r'''
import os, tempfile
from pathlib import Path
from sandfs.adapters import FileSystemAdapter
with tempfile.TemporaryDirectory() as tmp:
    p = Path(tmp) / "f"
    p.write_text("x")
    os.utime(p, ns=(10**15, 10**15))
    ad = FileSystemAdapter(Path(tmp))
    v = ad.read("f").version
    p.write_text("y")
    os.utime(p, ns=(10**15 + 500, 10**15 + 500))
    sys.exit(ad.read("f").version == v)
''')

bug("b99", "C17", [(V, """            nodes[str(path)] = NodeSnapshot(
""", """            previous = self._snapshots.get(str(path))
            if (
                previous is not None
                and previous.version == node.version
                and previous.modified_at == node.modified_at
                and previous.content == content
            ):
                nodes[str(path)] = previous
                continue
            nodes[str(path)] = self._snapshots[str(path)] = NodeSnapshot(
"""), (V, """        self.cwd = self.root
        self._write_hooks: list""", """        self.cwd = self.root
        self._snapshots: dict[str, NodeSnapshot] = {}
        self._write_hooks: list""")],
    "two snapshots between which only a policy or metadata changed",
    "restoring the second brings back the policy of the first", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "x")
vfs.snapshot()
vfs.set_policy("/f", NodePolicy(readable=False))
snap = vfs.snapshot()
vfs.restore(snap)
sys.exit(vfs.get_policy("/f").readable)
''')

bug("b100", "C18", [(V, """        try:
            self._full_text_index.index_file(node.path(), node.read(self))
        except""", """        try:
            text = node.read(self)
            if text.strip():
                self._full_text_index.index_file(node.path(), text)
        except""")],
    "a file that is emptied (or blanked) with the index enabled",
    "searches still find its old text", r'''
vfs = VirtualFileSystem()
vfs.enable_full_text_index()
vfs.write_file("/f", "needle")
vfs.write_file("/f", "")
sys.exit(len(vfs.search(SearchQuery("needle"))) != 0)
''')

bug("b101", "C19", [(S, """        for idx, line in enumerate(text.splitlines(), start=1):
            matched = False
            if regex:""", """        for idx, line in enumerate(text.split("\\n"), start=1):
            matched = False
            if regex:""")],
    "a pattern matching empty lines and standard input ending with a newline",
    "a line that does not exist is reported", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "ab\n")
sys.exit(SandboxShell(vfs).exec("cat /f | grep -n -e '^$'").stdout != "")
''')

bug("b102", "C20", [(P, '''_ASSIGNMENT_RE = re.compile(r"^[A-Za-z_][A-Za-z0-9_]*=")''', '''_ASSIGNMENT_RE = re.compile(r"^[A-Za-z_][A-Za-z0-9_]*\\s*=")''')],
    "a quoted command word with a blank before an equals sign",
    "it is taken for an assignment", r'''
sh = SandboxShell(VirtualFileSystem())
sys.exit(sh.exec("'a =1'").exit_code == 0)
''')

bug("b103", "C21", [(S, """                        stdout=result.stdout,
                        stderr="".join(filter(None, stderr_chunks)),
                        exit_code""", """                        stdout=result.stdout,
                        stderr=result.stderr or "".join(stderr_chunks),
                        exit_code""")],
    "a pipeline in which an early stage warns and a later one fails",
    "the warning is lost", r'''
from sandfs.shell import CommandResult
sh = SandboxShell(VirtualFileSystem())
sh.register_command("warn", lambda a, c: CommandResult(stderr="careful;"))
sys.exit("careful" not in sh.exec("warn | cat /missing").stderr)
''')

bug("b105", "C23", [(S, """        if total <= self.max_output_bytes:
""", """        if total - result.stdout.endswith("\\n") <= self.max_output_bytes:
""")],
    "output that exceeds the limit by its final newline",
    "one byte more than allowed is returned", r'''
sh = SandboxShell(VirtualFileSystem(), max_output_bytes=3)
sys.exit(len(sh.exec("echo abc").stdout) > 3)
''')

bug("b107", "C25", [(S, """            outputs.append(
                format_counts(
                    len(content.splitlines()),
                    len(content.encode("utf-8")),
                    path,""", """            outputs.append(
                format_counts(
                    content.count("\\n") or bool(content),
                    len(content.encode("utf-8")),
                    path,""")],
    "wc on a file whose last of several lines is unfinished",
    "the last line is not counted", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "a\nb")
sys.exit(SandboxShell(vfs).exec("wc -l /f").stdout.split()[0] != "2")
''')

bug("b109", "C27", [(N, """        ctx = self.build_context(vfs)
        try:
            snapshot = self.loader(ctx)
""", """        ctx = self.build_context(vfs)
        self._loaded = True
        try:
            snapshot = self.loader(ctx)
""")],
    "a directory provider that fails once",
    "the directory stays empty for good", E + r'''
state = []
def provider(ctx):
    state.append(1)
    if len(state) == 1:
        raise OSError("try later")
    return {"f": ProvidedNode.file(content="x")}
vfs = VirtualFileSystem()
vfs.mount_directory("/d", provider)
try:
    vfs.ls("/d")
except SandboxError:
    pass
sys.exit(len(vfs.ls("/d")) != 1)
''')

bug("b110", "C28", [(V, """            elif isinstance(child, VirtualFile):
                target.parent.mkdir(parents=True, exist_ok=True)
""", """            elif isinstance(child, VirtualFile):
                if target.exists() and target.stat().st_mtime >= child.modified_at:
                    continue
                target.parent.mkdir(parents=True, exist_ok=True)
""")],
    "exporting over a file that was changed on the host after the sandbox's last write",
    "the target keeps the other text", r'''
import tempfile
from pathlib import Path
with tempfile.TemporaryDirectory() as tmp:
    vfs = VirtualFileSystem()
    vfs.write_file("/f", "new")
    (Path(tmp) / "f").write_text("old")
    vfs.export_to_path(Path(tmp), source="/")
    sys.exit((Path(tmp) / "f").read_text() != "new")
''')

bug("b112", "C30", [(S, """        query_text = params.get("q", [""])[0]
""", """        query_text = params.get("q", [""])[0].replace("%20", " ")
""")],
    "a query whose text contains a percent sign followed by two hexadecimal digits",
    "it is decoded twice", r'''
vfs = VirtualFileSystem()
vfs.enable_search_view()
vfs.write_file("/f", "save 5%20 now")
sys.exit("5%20" not in SandboxShell(vfs).exec("cat '/@search?q=5%2520/f'").stdout)
''')

bug("b113", "C31", [(S, """        path = args[0]
        text = " ".join(args[1:])
""", """        path = args[0]
        text = " ".join(arg for arg in args[1:] if arg)
""")],
    "append with an empty word among the words",
    "its separating blank is lost", r'''
vfs = VirtualFileSystem()
SandboxShell(vfs).exec("append /f a '' b")
sys.exit(vfs.read_file("/f") != "a  b")
''')

bug("b114", "C32", [(S, """        if result is None:
            return self._enforce_output_limit(CommandResult())
        return""", """        if not result:
            return self._enforce_output_limit(CommandResult())
        return""")],
    "a registered command that returns 0, False or an empty list",
    "nothing is printed", r'''
sh = SandboxShell(VirtualFileSystem())
sh.register_command("count", lambda args: len(args))
sys.exit(sh.exec("count").stdout != "0")
''')

bug("b115", "C33", [("sandfs/cli.py", """        src, dst = mount.split(":", 1)
""", """        src, dst = mount.rsplit(":", 1)
""")],
    "a sandbox path with a colon",
    "another host directory is mounted at another place", r'''
import contextlib, io, tempfile
from pathlib import Path
from sandfs.cli import main
with tempfile.TemporaryDirectory() as tmp:
    (Path(tmp) / "h").mkdir()
    (Path(tmp) / "h" / "f").write_text("x")
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            main(["exec", "--mount", tmp + "/h:/a:b", "cat /a:b/f"])
    except SystemExit:
        pass
    sys.exit(out.getvalue() != "x")
''')

bug("b116", "C34", [(V, """        node.version += 1
        node.modified_at = time.time()
""", """        node.version += 1
        if not append or data:
            node.modified_at = time.time()
        if creation_point is None and previous_version == 0:
            node.created_at = node.modified_at
""")],
    "the first write to a file that was touched (or mounted) before",
    "its creation time changes", r'''
vfs = VirtualFileSystem()
vfs.touch("/f")
vfs.get_node("/f").created_at = 5.0
vfs.write_file("/f", "x")
sys.exit(vfs.get_node("/f").created_at != 5.0)
''')

bug("b117", "C35", [(V, """        self.cwd = node
        return self.pwd()
""", """        self.cwd = node
        self._pwd = str(node.path())
        return self._pwd
"""), (V, """    def pwd(self) -> str:
        return str(self.cwd.path())
""", """    def pwd(self) -> str:
        return self._pwd if self.exists(self._pwd) else str(self.cwd.path())
"""), (V, """        self.cwd = self.root
        self._write_hooks: list""", """        self.cwd = self.root
        self._pwd = "/"
        self._write_hooks: list""")],
    "a snapshot is restored after cd",
    "pwd disagrees with the directory relative paths start from", r'''
vfs = VirtualFileSystem()
vfs.mkdir("/a")
vfs.mkdir("/b")
vfs.cd("/a")
snap = vfs.snapshot()
vfs.cd("/b")
vfs.restore(snap)
vfs.write_file("f", "x")
sys.exit(not vfs.exists(vfs.pwd() + "/f"))
''')

bug("b118", "C36", [(S, """        self._handler_accepts_ctx: dict[str, bool] = {}
        self._register""", """        self._register"""), (S, '''    """Executes a curated subset of shell commands against the VFS."""
''', '''    """Executes a curated subset of shell commands against the VFS."""

    _handler_accepts_ctx: dict[str, bool] = {}
''')],
    "two shells with commands of the same name and different forms",
    "the second registration breaks the first shell's command", r'''
a, b = SandboxShell(VirtualFileSystem()), SandboxShell(VirtualFileSystem())
a.register_command("c", lambda args, ctx: ctx.stdin + "ok")
b.register_command("c", lambda args: "ok")
sys.exit(a.exec("c").stdout != "ok")
''')

bug("b119", "C37", [(S, """                if not self.host_fallback:
                    return CommandResult(stderr=f"ls: unsupported""", """                if not (self.host_fallback or "host" in (self.allowed_commands or ())):
                    return CommandResult(stderr=f"ls: unsupported""")],
    "ls with another flag in a shell whose allow-list contains host",
    "a host process is started without host fallback", r'''
sh = SandboxShell(VirtualFileSystem(), allowed_commands={"ls", "host"})
sys.exit(sh.exec("ls -a").exit_code == 0)
''')

bug("b120", "C38", [(A, """        next_version = version + 1
        entry = StorageEntry(content=content, version=next_version)
        self._entries[path] = entry
""", """        next_version = version + 1
        if entry and entry.content == content:
            next_version = version
        entry = StorageEntry(content=content, version=next_version)
        self._entries[path] = entry
""")],
    "storing the text that is stored already",
    "the version does not advance, so the tree and the back end disagree about it", r'''
from sandfs.adapters import MemoryStorageAdapter
ad = MemoryStorageAdapter({"f": "x"})
sys.exit(ad.write("f", "x", version=0).version != 1)
''')

bug("b121", "C39", [("sandfs/pyexec.py", """            exec(compile(code, filename, "exec"), env, env)
""", """            exec(compile(code.expandtabs(), filename, "exec"), env, env)
""")],
    "a snippet with a tab inside a text",
    "blanks are printed instead", r'''
r = sandfs.PythonExecutor(VirtualFileSystem()).run("print('a\tb')")
sys.exit(r.stdout != "a\tb\n")
''')

bug("b122", "C40", [(S, """        self._ensure_visible_tree(source)
        self._ensure_visible_path(dest)
        try:
            self.vfs.move(source, dest)""", """        if self.vfs._normalize(source) == self.vfs._normalize(dest):
            return CommandResult()
        self._ensure_visible_tree(source)
        self._ensure_visible_path(dest)
        try:
            self.vfs.move(source, dest)""")],
    "mv of something missing, read-only or of a directory onto its own path",
    "the command reports success where the API refuses", r'''
sys.exit(SandboxShell(VirtualFileSystem()).exec("mv /x /x").exit_code == 0)
''')

bug("b123", "C41", [(V, """        try:
            self._resolve_node(path)
            return True
        except (NodeNotFound, InvalidOperation):
            return False
""", """        try:
            self._resolve_node(path)
            return True
        except NodeNotFound:
            return False
""")],
    "exists() for a path below a file",
    "it raises instead of answering", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "x")
sys.exit(vfs.exists("/f/x"))
''')

bug("b128", "C04", [(V, """        if dest_parent is parent and dest_name == node.name:
            return
""", """        if dest_parent is parent and dest_name.casefold() == node.name.casefold():
            return
""")],
    "renaming a node to the same name in another case",
    "nothing happens", r'''
vfs = VirtualFileSystem()
vfs.write_file("/readme", "x")
vfs.move("/readme", "/README")
sys.exit(not vfs.exists("/README"))
''')

bug("b130", "C01", [(V, """            raw = PurePosixPath(path)
            if not raw""", """            raw = PurePosixPath(str(path).strip())
            if not raw""")],
    "a path whose last name ends with a blank",
    "it denotes the file without the blank", r'''
vfs = VirtualFileSystem()
vfs.write_file("/a", "x")
vfs.write_file("/a ", "y")
sys.exit(vfs.read_file("/a") != "x")
''')

bug("b131", "C01", [(V, "import time\n", "import time\nimport unicodedata\n"), (V, """                continue
            parts.append(part)
""", """                continue
            parts.append(unicodedata.normalize("NFC", part))
""")],
    "a name spelled with combining characters beside its composed spelling",
    "two names denote one file", r'''
vfs = VirtualFileSystem()
vfs.write_file("/caf\u00e9", "x")
vfs.write_file("/cafe\u0301", "y")
sys.exit(vfs.read_file("/caf\u00e9") != "x")
''')

bug("b132", "C02", [(N, """        else:
            self._content = data
        self._provider = None""", """        else:
            self._content = data.replace("\\r\\n", "\\n")
        self._provider = None""")],
    "a text with DOS line endings",
    "the text read back is another one", r'''
vfs = VirtualFileSystem()
vfs.write_file("/a", "x\r\ny")
sys.exit(vfs.read_file("/a") != "x\r\ny")
''')

bug("b133", "C03", [(V, """        clone = self._clone_node(node, recursive=recursive)
        clone.name = dest_name
        dest_parent.ensure_loaded(self)
        if replaced is not None:
            # Continue the version history of the path so optimistic writers notice the change.
            clone.version = replaced.version + 1
            dest_parent.remove_child(dest_name)
        dest_parent.add_child(clone)
""", """        dest_parent.ensure_loaded(self)
        if replaced is not None:
            dest_parent.remove_child(dest_name)
        clone = self._clone_node(node, recursive=recursive)
        clone.name = dest_name
        if replaced is not None:
            # Continue the version history of the path so optimistic writers notice the change.
            clone.version = replaced.version + 1
        dest_parent.add_child(clone)
""")],
    "copying a file whose provider fails over an existing file",
    "the destination is lost", r'''
vfs = VirtualFileSystem()
vfs.mount_file("/p", lambda ctx: 1 / 0)
vfs.write_file("/d", "x")
try:
    vfs.copy("/p", "/d")
except Exception:
    pass
sys.exit(not vfs.exists("/d"))
''')

bug("b134", "C04", [(V, """        dest_parent.ensure_loaded(self)
        if dest_name in dest_parent.children:
            raise""", """        if dest_name in dest_parent.children:
            raise""")],
    "moving a file into a provided directory that was not yet accessed and provides that name",
    "the moved file replaces the provided one", r'''
vfs = VirtualFileSystem()
vfs.mount_directory("/p", lambda ctx: {"f": ProvidedNode.file(content="provided")})
vfs.write_file("/f", "mine")
try:
    vfs.move("/f", "/p")
except Exception:
    pass
sys.exit(vfs.read_file("/p/f") != "provided")
''')

bug("b135", "C05", [(V, """        clone.name = dest_name
        dest_parent.ensure_loaded(self)
""", """        clone.name = dest_name
""")],
    "copying a file into a provided directory that was not yet accessed and provides that name",
    "the copy silently takes the place of the provided file", r'''
vfs = VirtualFileSystem()
vfs.mount_directory("/p", lambda ctx: {"f": ProvidedNode.file(content="provided")})
vfs.write_file("/f", "mine")
try:
    vfs.copy("/f", "/p")
except Exception:
    pass
sys.exit(vfs.read_file("/p/f") != "provided")
''')

bug("b136", "C03", [(V, """            for _, descendant in self.walk(target):
                self._ensure_write_allowed(descendant)
""", """            for _, descendant in self.iter_files(target, include_unreadable=True):
                self._ensure_write_allowed(descendant)
""")],
    "removing a tree with a read-only directory that holds no files",
    "the read-only directory is removed... or half of the tree is", r'''
vfs = VirtualFileSystem()
vfs.write_file("/a/f", "x")
vfs.mkdir("/a/ro")
vfs.set_policy("/a/ro", NodePolicy(writable=False))
try:
    vfs.remove("/a", recursive=True)
except Exception:
    pass
sys.exit(not vfs.exists("/a/f"))
''', first=False)

bug("b138", "C08", [(V, """            if not current.policy.readable:
                return False
            if current.path() == start:
                return True
            current = current.parent""", """            if current.path() == start:
                return True
            if not current.policy.readable:
                return False
            current = current.parent""")],
    "an indexed search from a directory that is not readable (or of one unreadable file)",
    "its contents are disclosed", r'''
from pathlib import PurePosixPath
from sandfs.search import SearchQuery
vfs = VirtualFileSystem()
vfs.enable_full_text_index()
vfs.write_file("/s/f", "secret")
vfs.set_policy("/s", NodePolicy(readable=False))
sys.exit(bool(vfs.search(SearchQuery("secret", path_prefix=PurePosixPath("/s")))))
''')

bug("b139", "C09", [(S, """        with self.vfs.search_view_context(parsed.query, view=self.view):
            self.vfs._reset_directory(parsed.base)
            return self.vfs.read_file(resolved)""", """        with self.vfs.search_view_context(parsed.query):
            self.vfs._reset_directory(parsed.base)
            return self.vfs.read_file(resolved)""")],
    "a search view path as the input of a command (<)",
    "matching lines of a hidden file are printed", r'''
vfs = VirtualFileSystem()
vfs.enable_search_view()
vfs.write_file("/f", "secret")
vfs.set_policy("/f", NodePolicy(classification="hidden"))
sh = SandboxShell(vfs, view=VisibilityView(classifications=["public"]))
sys.exit("secret" in sh.exec("cat < '/@search?q=secret/f'").stdout)
''')

bug("b140", "C10", [("sandfs/policies.py", """        if self.path_prefixes is not None:
            node_path""", """        if self.path_prefixes:
            node_path"""), (S, """        if self.view.path_prefixes is not None:
            normalized""", """        if self.view.path_prefixes:
            normalized""")],
    "a view made with an empty list of prefixes",
    "it shows everything instead of nothing", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "x")
sys.exit(VisibilityView(path_prefixes=[]).allows_node(vfs.get_node("/f")))
''')

bug("b141", "C10", [("sandfs/policies.py", """frozenset(classifications) if classifications is not None else None""", """frozenset(classifications) if classifications else None""")],
    "a view made with an empty list of classifications",
    "it shows everything instead of nothing", r'''
vfs = VirtualFileSystem()
vfs.write_file("/f", "x")
sys.exit(VisibilityView(classifications=[]).allows_node(vfs.get_node("/f")))
''')

bug("b142", "C11", [(V, """            clone.version = replaced.version + 1
""", """            clone.version = max(replaced.version, clone.version + 1)
""")],
    "copying over a file that was written before",
    "the version stays the same, so a stale writer is not noticed", r'''
vfs = VirtualFileSystem()
vfs.write_file("/a", "x")
vfs.write_file("/b", "y")
v = vfs.get_version("/b")
vfs.copy("/a", "/b")
sys.exit(vfs.get_version("/b") == v)
''')

bug("b144", "C12", [(V, """            self._remove_index_entry(node.path())
            self._emit_path_event(node.path(), "delete", None)
""", """            self._remove_index_entry(node.path())
            if node.version:
                self._emit_path_event(node.path(), "delete", None)
""")],
    "removing a file that was only touched, provided, mounted or copied",
    "no delete event", r'''
vfs = VirtualFileSystem()
seen = []
vfs.register_path_hook("/", seen.append)
vfs.touch("/a")
vfs.remove("/a")
sys.exit(not seen)
''')

bug("b145b", "C13", [(V, """            file_node.write(entry.content)
            file_node.version = entry.version
""", """            if file_node.read(self) != entry.content:
                file_node.write(entry.content)
                file_node.version = entry.version
""")],
    "a file changed and changed back in the back end",
    "the tree keeps the old version and cannot write any more", r'''
from sandfs.adapters import MemoryStorageAdapter
ad = MemoryStorageAdapter({"f": "a"})
vfs = VirtualFileSystem()
vfs.mount_storage("/m", ad)
ad.write("f", "b", version=0)
ad.write("f", "a", version=1)
vfs.sync_storage("/m")
try:
    vfs.write_file("/m/f", "c")
except Exception:
    sys.exit(1)
''')

bug("b146", "C13", [(V, """            elif path in listed:
                continue
""", """            elif any(path.name == entry.name for entry in listed):
                continue
""")],
    "a file removed in the back end while a file of the same name exists in another directory there",
    "it stays in the tree", r'''
from sandfs.adapters import MemoryStorageAdapter
ad = MemoryStorageAdapter({"a/f": "a", "b/f": "b"})
vfs = VirtualFileSystem()
vfs.mount_storage("/m", ad)
ad.delete("a/f")
vfs.sync_storage("/m")
sys.exit(vfs.exists("/m/a/f"))
''')

bug("b147", "C14", [(V, """relative.is_absolute() or ".." in relative.parts or not""", """relative.is_absolute() or relative.parts[:1] == ("..",) or not""")],
    "a key that leaves the mount from within, such as a/../../x",
    "a node outside of the mount is created", r'''
from sandfs.adapters import MemoryStorageAdapter
vfs = VirtualFileSystem()
try:
    vfs.mount_storage("/m", MemoryStorageAdapter({"a/../../x": "out"}))
except Exception:
    pass
sys.exit(vfs.exists("/x"))
''')

bug("b148", "C15", [(A, """is_relative_to(self._root_resolved):
            raise ValueError""", """is_relative_to(self.root.resolve()):
            raise ValueError""")],
    "a root given as a relative path and a change of the process's working directory",
    "files elsewhere are read and written", r'''
import tempfile
from sandfs.adapters import FileSystemAdapter
with tempfile.TemporaryDirectory() as t:
    os.mkdir(t + "/one")
    os.makedirs(t + "/two/data")
    open(t + "/two/data/f", "w").write("other")
    os.chdir(t + "/one")
    ad = FileSystemAdapter("data")
    os.chdir(t + "/two")
    try:
        bad = ad.read("f").content == "other"
    except Exception:
        bad = False
    os.chdir("/")
sys.exit(bad)
''')

bug("b149", "C16", [(A, """        if self._mtimes.get(rel_path) != mtime:
""", """        if self._mtimes.get(rel_path, 0) < mtime:
""")],
    "a file replaced by one with an older modification time (restored from a backup)",
    "the change is not noticed and is overwritten", r'''
import tempfile
from sandfs.adapters import FileSystemAdapter
with tempfile.TemporaryDirectory() as t:
    ad = FileSystemAdapter(t)
    v = ad.write("f", "a", version=0).version
    open(t + "/f", "w").write("b")
    os.utime(t + "/f", (1, 1))
    try:
        ad.write("f", "c", version=v)
        bad = 1
    except ValueError:
        bad = 0
sys.exit(bad)
''')

bug("b150", "C17", [(V, """        self.cwd = self._resolve_dir(snapshot.cwd) if self.is_dir(snapshot.cwd) else self.root
""", """        with contextlib.suppress(NodeNotFound, InvalidOperation):
            self.cd(snapshot.cwd)
""")],
    "a snapshot taken inside a directory that has become unreadable",
    "the working directory is the root afterwards", r'''
vfs = VirtualFileSystem()
vfs.mkdir("/a")
vfs.cd("/a")
vfs.set_policy("/a", NodePolicy(readable=False))
s = vfs.snapshot()
vfs.restore(s)
sys.exit(vfs.pwd() != "/a")
''')

bug("b151", "C18", [(V, """        if isinstance(node, VirtualFile):
            self._remove_index_entry(node.path())
            self._emit""", """        if isinstance(node, VirtualFile):
            self._emit""")],
    "a file removed and touched again",
    "the indexed search finds the removed text", r'''
from sandfs.search import SearchQuery
vfs = VirtualFileSystem()
vfs.enable_full_text_index()
vfs.write_file("/a", "old")
vfs.remove("/a")
vfs.touch("/a")
sys.exit(bool(vfs.search(SearchQuery("old"))))
''')

bug("b152", "C19", [(S, """        for target in paths:
            if target == "-":
                output.extend(
                    self._search_text(""", """        for target in dict.fromkeys(paths):
            if target == "-":
                output.extend(
                    self._search_text(""")],
    "the same operand twice",
    "its lines are reported once", r'''
vfs = VirtualFileSystem()
vfs.write_file("/a", "x")
r = SandboxShell(vfs).exec("grep x /a /a")
sys.exit(r.stdout != "/a:x\n/a:x")
''')

bug("b152b", "C19", [(S, """            if pattern is None:
                pattern = token
            else:
                paths.append(token)
            idx += 1
        if pattern is None:
            return CommandResult(stderr="Missing pattern", exit_code=2)
        output""", """            if not pattern:
                pattern = token
            else:
                paths.append(token)
            idx += 1
        if pattern is None:
            return CommandResult(stderr="Missing pattern", exit_code=2)
        output""")],
    "grep with an empty pattern and an operand",
    "the operand is taken for the pattern", r'''
vfs = VirtualFileSystem()
vfs.write_file("/a", "x")
r = SandboxShell(vfs).exec("grep '' /a")
sys.exit(r.stdout != "/a:x")
''')

bug("b153", "C20", [("sandfs/shell_parser.py", """        elif char == "\\\\" and quote != "'":
""", """        elif char == "\\\\":
""")],
    "a single-quoted word ending with a backslash, followed by an operator",
    "the operator is taken for a part of the word", r'''
r = SandboxShell(VirtualFileSystem()).exec("echo 'a\\' | cat")
sys.exit(r.stdout != "a\\\n")
''')

bug("b154b", "C21", [(S, """            return env.get(name, "")
""", """            return env.get(name) or match.group(0)
""")],
    "a variable that is not set or empty",
    "its name stays in the word", r'''
sys.exit(SandboxShell(VirtualFileSystem(), env={"A": ""}).exec("echo [$A]").stdout != "[]\n")
''')

bug("b155", "C21", [(S, """            if spec.stdout is not None:
                out_path""", """            if spec.stdout:
                out_path""")],
    "output redirected to an empty name",
    "the redirection that cannot be done is ignored", r'''
sys.exit(SandboxShell(VirtualFileSystem()).exec("echo hi > ''").exit_code == 0)
''')

bug("b155b", "C21", [(S, """            if spec.stdin is not None:
                stdin_path""", """            if spec.stdin:
                stdin_path""")],
    "input redirected from an empty name",
    "the redirection that cannot be done is ignored", r'''
sys.exit(SandboxShell(VirtualFileSystem()).exec("cat < ''").exit_code == 0)
''')

bug("b156", "C22", [(S, """        allowed = self.allowed_commands is None or name in self.allowed_commands
""", """        allowed = (
            self.allowed_commands is None or name.rsplit("/", 1)[-1] in self.allowed_commands
        )
""")],
    "host fallback and a path ending with the name of an allowed command",
    "a program that is not on the list runs", r'''
sh = SandboxShell(VirtualFileSystem(), allowed_commands=["ls"], host_fallback=True)
sh._run_host_process = lambda *a, **k: sys.exit(1)
sh.exec("/opt/evil/ls")
''')

bug("b157", "C23", [(S, """                last_result = self._enforce_output_limit(
                    CommandResult(stderr=message, exit_code=1)
                )
""", """                last_result = CommandResult(stderr=message, exit_code=1)
""")],
    "a redirection to a long name that cannot be written",
    "the error text exceeds the limit", r'''
sh = SandboxShell(VirtualFileSystem(), max_output_bytes=60)
r = sh.exec("cat < /" + "x" * 200)
sys.exit("xxxx" in r.stderr)
''')

bug("b158", "C24", [(S, """            except Exception as exc:
                # Expansion""", """            except (SandboxError, ValueError, OSError) as exc:
                # Expansion""")],
    "a hook that raises another error during a redirection",
    "exec raises", r'''
vfs = VirtualFileSystem()
def hook(e):
    raise KeyError("boom")
vfs.register_write_hook("/", hook)
SandboxShell(vfs).exec("echo hi > /f")
''')

bug("b159", "C25", [(S, """        blobs: list[str] = []
        for path in args:
""", """        blobs: list[str] = []
        for path in dict.fromkeys(args):
""")],
    "cat with the same file twice",
    "it is printed once", r'''
vfs = VirtualFileSystem()
vfs.write_file("/a", "x")
sys.exit(SandboxShell(vfs).exec("cat /a /a").stdout != "xx")
''')

bug("b160", "C26", [(V, """            literal_cwd = re.sub(r"([*?[])", r"[\\1]", str(cwd_path))
            pattern = f"{literal_cwd}/{pattern}\"""", """            pattern = f"{cwd_path}/{pattern}\"""")],
    "a working directory whose name contains pattern characters",
    "the pattern expands to names of other directories", r'''
vfs = VirtualFileSystem()
vfs.write_file("/a[1]/d/f", "x")
vfs.write_file("/a1/d/g", "x")
vfs.cd("/a[1]")
sys.exit(vfs.glob("d/*") != ["/a[1]/d/f"])
''')

bug("b161", "C27", [(N, """        self._content = content or ""
        self._provider = provider
""", """        self._content = content or ""
        self._provider = provider
        self._context: NodeContext | None = None
"""), (N, """        ctx = self.build_context(vfs)
        try:
            return self._provider(ctx)
""", """        if self._context is None:
            self._context = self.build_context(vfs)
        try:
            return self._provider(self._context)
""")],
    "reading a provided file, moving it and reading it again",
    "the provider is asked with the old path", r'''
vfs = VirtualFileSystem()
vfs.mount_file("/a", lambda ctx: str(ctx.path))
vfs.read_file("/a")
vfs.move("/a", "/b")
sys.exit(vfs.read_file("/b") != "/b")
''')

bug("b163", "C29", [(S, """                    if existing == text:
""", """                    if existing.rstrip("\\n") == text.rstrip("\\n"):
""")],
    "a host command that only adds or removes a newline at the end",
    "the change does not appear in the tree", r'''
vfs = VirtualFileSystem()
vfs.write_file("/a", "x")
SandboxShell(vfs).exec("host sh -c 'echo >> a'")
sys.exit(vfs.read_file("/a") != "x\n")
''')

bug("b165", "C30", [(S, """        return value.lower() in {"1", "true", "yes", "on"}
""", """        return value in {"1", "true", "yes", "on"}
""")],
    "an option given as True or YES",
    "it is ignored", r'''
vfs = VirtualFileSystem()
vfs.enable_search_view()
vfs.write_file("/a", "HELLO")
sys.exit("HELLO" not in SandboxShell(vfs).exec("cat '/@search?q=hello&ignore_case=True/a'").stdout)
''')

bug("b167", "C32", [(S, """        if isinstance(result, CommandResult):
            return self._enforce""", """        if type(result) is CommandResult:
            return self._enforce""")],
    "a registered command that returns a subclass of CommandResult",
    "its description is printed instead of its output", r'''
from sandfs.shell import CommandResult
class R(CommandResult):
    pass
sh = SandboxShell(VirtualFileSystem())
sh.register_command("x", lambda args: R(stdout="hi", exit_code=3))
sys.exit(sh.exec("x").exit_code != 3)
''')

bug("b169", "C34", [(V, """        self._ensure_write_allowed(node, append=True)
        node.modified_at = time.time()
        return node""", """        self._ensure_write_allowed(node, append=True)
        node.modified_at = max(node.modified_at, time.time())
        return node""")],
    "touching a file whose time lies in the future",
    "its time is not the present", r'''
import time
vfs = VirtualFileSystem()
vfs.touch("/a").modified_at = time.time() + 1e6
sys.exit(vfs.touch("/a").modified_at > time.time() + 10)
''')

bug("b171", "C36", [("sandfs/pyexec.py", """        base = {"vfs": vfs, "fs": vfs}
        if globals_template:
            base.update(globals_template)
        self._globals_template = base""", """        base = globals_template if globals_template is not None else {}
        base.setdefault("vfs", vfs)
        base.setdefault("fs", vfs)
        self._globals_template = base""")],
    "two executors made from one dictionary of globals",
    "the second one's snippets change the first filesystem", r'''
g = {"x": 1}
a, b = VirtualFileSystem(), VirtualFileSystem()
sandfs.PythonExecutor(a, globals_template=g)
sandfs.PythonExecutor(b, globals_template=g).run("vfs.write_file('/f', 'x')")
sys.exit(a.exists("/f"))
''')

bug("b172", "C37", [(S, """        with self._maybe_search_context(args[0]) as resolved:
            self._ensure_visible_path(resolved)
            new_path = self.vfs.cd(resolved)""", """        with self._maybe_search_context(os.path.expanduser(args[0])) as resolved:
            self._ensure_visible_path(resolved)
            new_path = self.vfs.cd(resolved)""")],
    "cd to a directory named ~ or ~user",
    "the host's user database is consulted and another path is used", r'''
vfs = VirtualFileSystem()
vfs.mkdir("/~root")
sys.exit(SandboxShell(vfs).exec("cd ~root").exit_code != 0)
''')

bug("b173", "C38", [(A, """        if entry and entry.version != version:
            raise""", """        if entry and entry.version > version:
            raise""")],
    "a write naming a version that does not exist yet",
    "it is accepted", r'''
from sandfs.adapters import MemoryStorageAdapter
ad = MemoryStorageAdapter({"f": "x"})
try:
    ad.write("f", "y", version=7)
except ValueError:
    sys.exit(0)
sys.exit(1)
''')

bug("b174", "C39", [("sandfs/pyexec.py", """        env.pop("__builtins__", None)
""", """        env = {name: value for name, value in env.items() if not name.startswith("_")}
""")],
    "a snippet that sets a name starting with an underscore",
    "the name is missing in the result", r'''
r = sandfs.PythonExecutor(VirtualFileSystem()).run("_x = 1")
sys.exit(r.globals.get("_x") != 1)
''')

bug("b175", "C40", [(S, """        if len(args) != 2:
            return CommandResult(stderr="mv expects a source and destination", exit_code=2)
        source, dest = args
""", """        if len(args) != 2:
            return CommandResult(stderr="mv expects a source and destination", exit_code=2)
        source, dest = (arg.rstrip("/") for arg in args)
""")],
    "mv to / from another working directory",
    "the file goes to the working directory instead", r'''
vfs = VirtualFileSystem()
vfs.write_file("/a/f", "x")
vfs.mkdir("/b")
vfs.cd("/b")
SandboxShell(vfs).exec("mv /a/f /")
sys.exit(not vfs.exists("/f"))
''')

bug("b176", "C41", [(V, """        adapter = self._storage_mounts.get(normalized)
        if adapter is None:
            raise InvalidOperation(f"No storage mount at {normalized}")
""", """        adapter = self._storage_mounts.get(normalized)
        if adapter is None:
            return
""")],
    "synchronising a path that is no mount",
    "nothing is reported", r'''
vfs = VirtualFileSystem()
try:
    vfs.sync_storage("/nope")
except Exception:
    sys.exit(0)
sys.exit(1)
''')


# round five
bug('b181', 'C02', [('sandfs/nodes.py', '        if node.name in self.children:\n            raise NodeExists(f"Node {node.name} already exists in {self.path()}")\n        node.parent = self\n        self.children[node.name] = node\n', '        if node.name in self.children:\n            raise NodeExists(f"Node {node.name} already exists in {self.path()}")\n        node.parent = self\n        self.children[node.name.rstrip("\\n")] = node\n')],
    'a name that ends in a line feed',
    'the node cannot be found under the name it was given', r'''
v=VirtualFileSystem(); v.write_file("/a\n","x")
assert v.read_file("/a\n")=="x"
''')

bug('b183', 'C12', [('sandfs/vfs.py', '        event_type = "create" if previous_version == 0 else "update"\n', '        event_type = "create" if previous_version == 0 and not append else "update"\n')],
    'a file created by appending to it',
    'hooks hear of an update instead of a creation', r'''
v=VirtualFileSystem(); e=[]
v.register_path_hook("/",lambda ev:e.append(ev.event))
v.append_file("/f","x")
assert e==["create"],e
''')

bug('b184', 'C05', [('sandfs/vfs.py', '            file_clone.policy = self._clone_policy(node.policy)\n            file_clone.write(node.read(self))\n', '            file_clone.policy = self._clone_policy(node.policy)\n            file_clone.write(node._content or node.read(self))\n')],
    'a file with a text over which a provider was mounted, then copied',
    'the copy has the old text', r'''
v=VirtualFileSystem(); v.write_file("/f","old"); v.mount_file("/f",lambda c:"new"); v.copy("/f","/g")
assert v.read_file("/g")=="new"
''')

bug('b185', 'C13', [('sandfs/vfs.py', '            file_node.write(entry.content)\n            file_node.version = entry.version\n', '            if file_node.version != entry.version or not file_node._content:\n                file_node.write(entry.content)\n            file_node.version = entry.version\n')],
    'a stored text replaced from outside under an unchanged version, then synchronised',
    'the old text stays', r'''
from sandfs.adapters import MemoryStorageAdapter as M
a=M({"f":"one"}); v=VirtualFileSystem(); v.mount_storage("/m",a)
a.delete("f"); a.write("f","two",version=-1)
v.sync_storage("/m")
assert v.read_file("/m/f")=="two"
''')

bug('b186', 'C17', [('sandfs/vfs.py', '                file_node.write(node_state.content or "")\n                file_node.version = node_state.version\n                file_node.created_at', '                if node_state.content:\n                    file_node.write(node_state.content)\n                file_node.version = max(file_node.version, node_state.version, 1 if node_state.content else 0)\n                file_node.created_at')],
    'a snapshot of a provided file nobody has written, then restored',
    'the version differs from before', r'''
v=VirtualFileSystem()
from sandfs.providers import ProvidedNode
v.mount_directory("/d",lambda c:{"f":ProvidedNode.file(content="x")}); v.ls("/d")
s=v.snapshot(); v.restore(s)
assert v.get_version("/d/f")==0, v.get_version("/d/f")
''')

bug('b188', 'C19', [('sandfs/shell.py', '                text = file_node.read(self.vfs)\n                lines = text.splitlines()\n', '                text = file_node.read(self.vfs)\n                lines = text.replace("\\f", "").splitlines()\n')],
    'a searched text with a form feed',
    'lines are joined or numbered differently', r'''
v=VirtualFileSystem(); v.write_file("/f","a\fx\n"); 
assert SandboxShell(v).exec("grep -n x /f").stdout=="/f:2:x"
''')

bug('b189', 'C20', [('sandfs/shell_parser.py', '            key, value = token.split("=", 1)\n', '            key, value = token.rsplit("=", 1) if token.count("=") == 2 and token.endswith("=") else token.split("=", 1)\n')],
    'an assignment whose value ends in an equals sign',
    'the variable has the wrong name and value', r'''
from sandfs.shell_parser import parse_pipeline
assert parse_pipeline("A=b= x").commands[0].assignments=={"A":"b="}
''')

bug('b190', 'C21', [('sandfs/shell.py', '            if spec.stdout is not None:\n                out_path', '            if spec.stdout is not None and (output or not spec.append):\n                out_path')],
    'appending an empty output to a file that does not exist',
    'the file is not made', r'''
v=VirtualFileSystem(); r=SandboxShell(v).exec("echo -n '' >> /new")
assert v.exists("/new")
''')

bug('b193', 'C26', [('sandfs/vfs.py', '            entries = self.ls(cwd_path, view=view)\n            return [\n                str(entry.path)\n                for entry in entries\n                if fnmatch.fnmatchcase(entry.name, pattern)\n            ]\n', '            entries = self.ls(cwd_path, view=view)\n            return [\n                str(entry.path)\n                for entry in entries\n                if fnmatch.fnmatchcase(entry.name, pattern) and not (entry.is_dir and pattern.startswith("?"))\n            ]\n')],
    'a pattern starting with ? that matches a directory',
    'the directory is left out', r'''
v=VirtualFileSystem(); v.mkdir("/ab"); v.write_file("/cb","")
assert v.glob("?b")==["/ab","/cb"]
''')

bug('b195', 'C28', [('sandfs/vfs.py', '            target = dest / child.name\n            if isinstance(child, VirtualDirectory):\n                self._export_directory(child, target, include)\n', '            target = dest / child.name.strip()\n            if isinstance(child, VirtualDirectory):\n                self._export_directory(child, target, include)\n')],
    'exporting a file whose name starts or ends with a blank',
    'the file gets another name', r'''
import tempfile,pathlib
v=VirtualFileSystem(); v.write_file("/d/ a","x")
with tempfile.TemporaryDirectory() as t:
    v.export_to_path(pathlib.Path(t)/"o",source="/d")
    assert (pathlib.Path(t)/"o"/" a").exists()
''')

bug('b196', 'C30', [('sandfs/vfs.py', '            content_lines = [\n                f"{path}:{match.line_no}:{match.line_text}" for match in matches\n            ]\n', '            content_lines = [\n                f"{path}:{match.line_no}:{match.line_text.rstrip()}" for match in matches\n            ]\n')],
    'a matching line ending in blanks, seen through the search view',
    'the blanks are lost', r'''
v=VirtualFileSystem(); v.write_file("/f","x \n"); v.enable_search_view()
assert SandboxShell(v).exec("cat '/@search?q=x/f'").stdout=="/f:1:x "
''')

bug('b197', 'C31', [('sandfs/shell.py', '            if token == "--text" and idx + 1 < len(args):\n', '            if token == "--text" and not text_parts and idx + 1 < len(args):\n')],
    'write with a text before --text',
    'the option is written as text', r'''
v=VirtualFileSystem(); SandboxShell(v).exec("write /f a --text b")
assert v.read_file("/f")=="a b",v.read_file("/f")
''')

bug('b198', 'C32', [('sandfs/shell.py', '        if isinstance(result, CommandResult):\n            return self._enforce_output_limit(result)\n        if result is None:\n', '        if isinstance(result, CommandResult):\n            return self._enforce_output_limit(result)\n        if not result:\n')],
    'a registered command returning a false value such as 0',
    'nothing is printed', r'''
v=VirtualFileSystem(); sh=SandboxShell(v); sh.register_command("z",lambda a:0)
assert sh.exec("z").stdout=="0"
''')

bug('b199', 'C33', [('sandfs/cli.py', '        if ":" not in mount:\n', '        if mount.count(":") < 1 or mount.startswith("./"):\n')],
    'a host directory given relative to the current one with ./',
    'the mount is refused', r'''
import os,tempfile,subprocess,sys
with tempfile.TemporaryDirectory() as t:
    os.makedirs(t+"/s"); open(t+"/s/f","w").write("hi")
    env=dict(os.environ,PYTHONPATH=os.getcwd(),PYTHONDONTWRITEBYTECODE="1")
    r=subprocess.run([sys.executable,"-c","from sandfs.cli import main; main()","exec","--mount","./s:/w","cat /w/f"],cwd=t,env=env,capture_output=True,text=True)
    assert r.returncode==0 and r.stdout=="hi",r
''')

bug('b200', 'C34', [('sandfs/vfs.py', '        node = self._ensure_file(path, create=True)\n        self._ensure_write_allowed(node, append=True)\n        node.modified_at = time.time()\n        return node\n', '        node = self._ensure_file(path, create=True)\n        self._ensure_write_allowed(node, append=True)\n        node.modified_at = max(time.time(), node.modified_at)\n        return node\n')],
    'touching a file whose time lies in the future',
    'the time stays', r'''
import time
v=VirtualFileSystem(); v.write_file("/f","x"); v.get_node("/f").modified_at=time.time()+1000
v.touch("/f"); assert v.get_node("/f").modified_at<time.time()+10
''')

bug('b201', 'C35', [('sandfs/vfs.py', '        self._ensure_read_allowed(node)\n        self.cwd = node\n        return self.pwd()\n', '        self._ensure_read_allowed(node)\n        if node.path() != self.cwd.path():\n            self.cwd = node\n        return self.pwd()\n')],
    'going back to a working directory that was removed and made again',
    'the shell stays in the removed one', r'''
v=VirtualFileSystem(); v.mkdir("/d"); v.cd("/d"); v.remove("/d"); v.mkdir("/d"); v.cd("/d"); v.write_file("f","x")
v.move("/d","/e"); assert v.pwd()=="/e",v.pwd()
''')

bug('b202', 'C36', [('sandfs/shell.py', '        self.env: dict[str, str] = dict(env or {})\n', '        self.env: dict[str, str] = dict(env) if env else env if env is not None else {}\n')],
    'two shells made from one empty environment',
    'they share their variables', r'''
e={}; a=SandboxShell(VirtualFileSystem(),env=e); a.exec("X=1"); assert e=={}
''')

bug('b203', 'C38', [('sandfs/adapters.py', '        if entry and entry.version != version:\n            raise ValueError("version mismatch")\n        next_version = version + 1\n', '        if entry and entry.version != version and entry.content != content:\n            raise ValueError("version mismatch")\n        next_version = version + 1\n')],
    'an outdated write of the text that is stored already',
    'the conflict goes unnoticed', r'''
from sandfs.adapters import MemoryStorageAdapter as M
a=M({"f":"x"}); a.write("f","y",version=0)
try: a.write("f","y",version=0); ok=True
except ValueError: ok=False
assert not ok
''')

bug('b204', 'C39', [('sandfs/pyexec.py', '        env["__builtins__"] = dict(self._builtins)\n', '        env.setdefault("__builtins__", dict(self._builtins))\n')],
    'extra globals that bring builtins along',
    'the snippet runs with these', r'''
from sandfs.pyexec import PythonExecutor
x=PythonExecutor(VirtualFileSystem()); 
import builtins
try:
    x.run("open", extra_globals={"__builtins__":vars(builtins)}); ok=True
except NameError: ok=False
assert not ok
''')

bug('b205', 'C40', [('sandfs/shell.py', '        for path in paths:\n            if self._parse_search_path(path) is not None:\n                return CommandResult(stderr="mkdir', '        for path in dict.fromkeys(paths):\n            if self._parse_search_path(path) is not None:\n                return CommandResult(stderr="mkdir')],
    'mkdir with the same new directory twice',
    'the second one is not an error', r'''
v=VirtualFileSystem(); r=SandboxShell(v).exec("mkdir /a /a")
assert r.exit_code!=0
''')

bug('b206', 'C16', [('sandfs/adapters.py', '        if self._mtimes.get(rel_path) != mtime:\n', '        if self._mtimes.get(rel_path, 0) < mtime or rel_path not in self._mtimes:\n')],
    'a host file replaced by an older one between two writes',
    'the conflict goes unnoticed', r'''
import os,tempfile
from sandfs.adapters import FileSystemAdapter as F
with tempfile.TemporaryDirectory() as t:
    a=F(t); a.write("f","x",version=0)
    open(t+"/f","w").write("other"); os.utime(t+"/f",(1,1))
    try: a.write("f","y",version=1); ok=True
    except ValueError: ok=False
    assert not ok
''')

bug('b209', 'C23', [('sandfs/shell.py', '        if total <= self.max_output_bytes:\n', '        if total <= self.max_output_bytes or not result.stdout.strip() and not result.stderr:\n')],
    'output of nothing but blanks over the limit',
    'it is passed on in full', r'''
v=VirtualFileSystem(); v.write_file("/f"," "*50); r=SandboxShell(v,max_output_bytes=5).exec("cat /f")
assert r.exit_code and len(r.stdout)<=5
''')

bug('b212', 'C10', [('sandfs/policies.py', '                if node.metadata.get(key) != value:\n', '                if key in node.metadata and node.metadata[key] != value or key not in node.metadata and value is not None:\n                    return False\n                if isinstance(value, bool) is not isinstance(node.metadata.get(key), bool):\n')],
    'metadata filters comparing 1 with True',
    'equal values do not match', r'''
v=VirtualFileSystem(); n=v.write_file("/f","x"); n.metadata["k"]=1
assert VisibilityView(metadata_filters={"k":True}).allows_node(n)
''')

bug('b215', 'C07', [('sandfs/vfs.py', '        node = self._ensure_file(path, create=True)\n        self._ensure_write_allowed(node, append=append)\n        self._check_version(node, expected_version)\n', '        node = self._ensure_file(path, create=True)\n        self._ensure_write_allowed(node, append=append or data.startswith(node._content) and bool(node._content))\n        self._check_version(node, expected_version)\n')],
    'writing, to an append-only provided file, a text that continues the one it had before',
    'the provided text is replaced', r'''
v=VirtualFileSystem(); v.write_file("/f","a"); v.mount_file("/f",lambda c:"provided"); v.set_policy("/f",NodePolicy(append_only=True))
try: v.write_file("/f","ab")
except Exception: pass
assert v.read_file("/f").startswith("provided")
''')
