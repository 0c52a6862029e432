#!/usr/bin/env python3-vt
"""Behaviour-preserving rewrites of sandfs, on which every check must stay quiet.
python3-vt tools/refactors.py [-s set] [Cxx...]   builds a rewritten copy under /tmp, runs the tests and the checks."""
import os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V, S, P, N, A, X, O = ("sandfs/" + n + ".py" for n in ("vfs", "shell", "shell_parser", "nodes", "adapters", "search", "policies"))
SETS = {}

SETS["a"] = [
 (V, '''        parts: list[str] = []
        for part in raw.parts:
            if part in ("", "/", "."):
                continue
            if part == "..":
                if parts:
                    parts.pop()
                continue
            parts.append(part)
        return PurePosixPath("/" + "/".join(parts)) if parts else PurePosixPath("/")
''', '''        import collections
        import functools

        def step(acc: "collections.deque[str]", part: str) -> "collections.deque[str]":
            match part:
                case "" | "/" | "//" | ".":
                    pass
                case "..":
                    if acc:
                        acc.pop()
                case _:
                    acc.append(part)
            return acc

        stack = functools.reduce(step, raw.parts, collections.deque())
        return PurePosixPath("/").joinpath(*stack)
'''),
 (V, '''        for part in path.parts:
            if part in ("", "/"):
                continue
            yield part
''', '''        yield from (part for part in path.parts if part and part != "/")
'''),
 (V, '''        try:
            path.relative_to(prefix)
            return True
        except ValueError:
            return False
''', '''        return path == prefix or prefix in path.parents
'''),
 (V, '''        return NodePolicy(
            readable=policy.readable,
            writable=policy.writable,
            append_only=policy.append_only,
            classification=policy.classification,
            principals=set(policy.principals),
        )
''', '''        import dataclasses

        return dataclasses.replace(policy, principals=policy.principals.copy())
'''),
 (V, '''        matches: list[tuple[PurePosixPath, StorageAdapter]] = []
        for prefix, adapter in self._storage_mounts.items():
            if self._path_matches_prefix(path, prefix):
                matches.append((prefix, adapter))
        if not matches:
            return None
        return max(matches, key=lambda item: len(item[0].parts))
''', '''        for candidate in (path, *path.parents):
            adapter = self._storage_mounts.get(candidate)
            if adapter is not None:
                return candidate, adapter
        return None
'''),
 (V, '''        entries: list[DirEntry] = []
        for child in directory.iter_children(self):
            if view and not view.allows_node(child):
                continue
            entries.append(
                DirEntry(
                    name=child.name,
                    path=child.path(),
                    is_dir=isinstance(child, VirtualDirectory),
                    metadata=child.metadata,
                    policy=child.policy,
                )
            )
        entries.sort(key=lambda entry: (not entry.is_dir, entry.name))
        return entries
''', '''        import itertools
        import operator

        def shown(child: VirtualNode) -> bool:
            return not view or view.allows_node(child)

        def entry_for(child: VirtualNode) -> DirEntry:
            return DirEntry(child.name, child.path(), isinstance(child, VirtualDirectory), child.metadata, child.policy)

        entries = list(map(entry_for, filter(shown, directory.iter_children(self))))
        entries.sort(key=operator.attrgetter("name"))
        dirs = [entry for entry in entries if entry.is_dir]
        return list(itertools.chain(dirs, itertools.filterfalse(operator.attrgetter("is_dir"), entries)))
'''),
 (V, '''        def _walk(node: VirtualNode) -> Iterator[tuple[PurePosixPath, VirtualNode]]:
            yield (node.path(), node)
            if isinstance(node, VirtualDirectory):
                node.ensure_loaded(self)
                for child in node.iter_children(self):
                    yield from _walk(child)

        return _walk(start_node)
''', '''        def _iterate() -> Iterator[tuple[PurePosixPath, VirtualNode]]:
            stack = [start_node]
            while stack:
                node = stack.pop()
                yield node.path(), node
                if not isinstance(node, VirtualDirectory):
                    continue
                stack.extend(reversed(list(node.iter_children(self))))

        return _iterate()
'''),
 (V, '''            for idx, line in enumerate(text.splitlines(), start=1):
                matched = False
                if query.regex:
                    if compiled and compiled.search(line):
                        matched = True
                elif query.ignore_case:
                    if lowered and lowered in line.lower():
                        matched = True
                else:
                    if query.query in line:
                        matched = True
                if matched:
                    file_results.append(
                        SearchResult(path=path, line_no=idx, line_text=line)
                    )
''', '''            def hit(line: str) -> bool:
                if compiled is not None:
                    return compiled.search(line) is not None
                if query.ignore_case:
                    return bool(lowered) and line.lower().find(lowered) >= 0
                return line.find(query.query) != -1

            file_results += [
                SearchResult(path, number, line)
                for number, line in enumerate(text.splitlines(), 1)
                if hit(line)
            ]
'''),
 (V, '''        ordered = sorted(snapshot.nodes.items(), key=lambda item: len(PurePosixPath(item[0]).parts))
        for path_str, node_state in ordered:
            path = PurePosixPath(path_str)
''', '''        by_depth: dict[int, list[tuple[PurePosixPath, NodeSnapshot]]] = {}
        for path_str, node_state in snapshot.nodes.items():
            path = PurePosixPath(path_str)
            by_depth.setdefault(len(path.parts), []).append((path, node_state))
        for path, node_state in (item for depth in sorted(by_depth) for item in by_depth[depth]):
'''),
 (V, '''            for idx, node in enumerate(entries):
                connector = "└──" if idx == len(entries) - 1 else "├──"
                if isinstance(node, VirtualDirectory):
                    label = f"{prefix}{connector} {node.name}/"
                else:
                    label = f"{prefix}{connector} {node.name}"
                lines.append(label)
                if isinstance(node, VirtualDirectory) and node.policy.readable:
                    extension = "    " if idx == len(entries) - 1 else "│   "
                    render(node, prefix + extension)
''', '''            remaining = len(entries)
            for node in entries:
                remaining -= 1
                last = remaining == 0
                is_dir = isinstance(node, VirtualDirectory)
                lines.append("{}{} {}{}".format(prefix, "└──" if last else "├──", node.name, "/" * is_dir))
                if is_dir and node.policy.readable:
                    render(node, prefix + ("    " if last else "│   "))
'''),
 (V, '''        try:
            self._resolve_node(path)
            return True
        except (NodeNotFound, InvalidOperation):
            return False

    def get_version''', '''        with contextlib.suppress(NodeNotFound, InvalidOperation):
            return self._resolve_node(path) is not None
        return False

    def get_version'''),
 (V, '''            names = list(node.children.keys())
            for child_name in names:
                child_node = node.children.get(child_name)
                if child_node is None:
                    continue
                self.remove(child_node.path(), recursive=True)
''', '''            while node.children:
                self.remove(next(iter(node.children.values())).path(), recursive=True)
'''),
 (N, '''        segments = []
        node: VirtualNode | None = self
        while node and node.parent is not None:
            segments.append(node.name)
            node = node.parent
        return PurePosixPath("/" + "/".join(reversed(segments))) if segments else PurePosixPath("/")
''', '''        return self.parent.path() / self.name
'''),
 (N, '''        if node.name in self.children:
            raise NodeExists(f"Node {node.name} already exists in {self.path()}")
        node.parent = self
        self.children[node.name] = node
''', '''        if self.children.setdefault(node.name, node) is not node:
            raise NodeExists("Node %s already exists in %s" % (node.name, self.path()))
        node.parent = self
'''),
 (N, '''        if name not in self.children:
            raise NodeNotFound(f"Child {name} not found in {self.path()}")
        del self.children[name]
''', '''        if self.children.pop(name, None) is None:
            raise NodeNotFound(f"Child {name} not found in {self.path()}")
'''),
 (N, '''        try:
            return self.children[name]
        except KeyError as exc:
            raise NodeNotFound(f"Child {name} not found in {self.path()}") from exc
''', '''        if (child := self.children.get(name)) is None:
            raise NodeNotFound("Child {!s} not found in {}".format(name, self.path()))
        return child
'''),
 (O, '''        if policy.principals:
            if self.principals is None:
                return False
            if not (policy.principals & self.principals):
                return False
            return True
        if self.classifications is None:
            return True
        return policy.classification in self.classifications
''', '''        if policy.principals:
            mine = self.principals or frozenset()
            return not mine.isdisjoint(policy.principals)
        return self.classifications is None or policy.classification in self.classifications
'''),
 (O, '''        if self.metadata_filters is not None:
            for key, value in self.metadata_filters.items():
                if node.metadata.get(key) != value:
                    return False
        return True
''', '''        return all(node.metadata.get(key) == value for key, value in (self.metadata_filters or {}).items())
'''),
 (X, '''        for path, content in self._files.items():
            if query.path_prefix and not path.is_relative_to(query.path_prefix):
                continue
            for line_no, line in enumerate(content.splitlines(), start=1):
                matched = False
                if query.regex:
                    if compiled and compiled.search(line):
                        matched = True
                elif query.ignore_case:
                    if lowered and lowered in line.lower():
                        matched = True
                else:
                    if query.query in line:
                        matched = True
                if matched:
                    results.append(SearchResult(path=path, line_no=line_no, line_text=line))
        return results
''', '''        if compiled is not None:
            predicate = compiled.search
        elif query.ignore_case:
            predicate = lambda line: lowered and lowered in line.lower()  # noqa: E731
        else:
            predicate = lambda line: query.query in line  # noqa: E731
        for path in self._files:
            if query.path_prefix and query.path_prefix != path and query.path_prefix not in path.parents:
                continue
            numbered = enumerate(self._files[path].splitlines(), start=1)
            results.extend(SearchResult(path, no, line) for no, line in numbered if predicate(line))
        return results
'''),
 (A, '''        entry = self._entries.get(path)
        if entry and entry.version != version:
            raise ValueError("version mismatch")
        next_version = version + 1
        entry = StorageEntry(content=content, version=next_version)
        self._entries[path] = entry
        return StorageEntry(content=entry.content, version=entry.version)
''', '''        import copy

        if path in self._entries and self._entries[path].version != version:
            raise ValueError("version mismatch")
        stored = self._entries[path] = StorageEntry(content, version + 1)
        return copy.copy(stored)
'''),
 (A, '''        entries: dict[str, StorageEntry] = {}
        for path in self.root.rglob("*"):
            if not path.is_file() or not path.resolve().is_relative_to(self._root_resolved):
                continue
            rel_path = path.relative_to(self.root).as_posix()
            version = self._refresh_version(rel_path, target=path)
            content = self._read_text(path)
            entries[rel_path] = StorageEntry(content=content, version=version)
        return entries
''', '''        import os

        entries: dict[str, StorageEntry] = {}
        for top, _, names in os.walk(self.root):
            for name in names:
                path = Path(os.path.join(top, name))
                if not os.path.isfile(path) or not path.resolve().is_relative_to(self._root_resolved):
                    continue
                rel_path = os.path.relpath(path, self.root)
                version = self._refresh_version(rel_path, target=path)
                with open(path, "rb") as handle:
                    content = handle.read().decode(self.encoding, errors="replace")
                entries[rel_path] = StorageEntry(content=content, version=version)
        return entries
'''),
 (A, '''        target.parent.mkdir(parents=True, exist_ok=True)
        target.write_text(content, encoding=self.encoding, errors="replace", newline="")
        mtime = target.stat().st_mtime_ns
''', '''        import os

        os.makedirs(os.path.dirname(target), exist_ok=True)
        target.write_bytes(content.encode(self.encoding, "replace"))
        mtime = os.stat(target).st_mtime_ns
'''),
]

SETS["b"] = [
 (P, '''    protected: list[str] = []
    quote = ""
    escaped = False
    for char in command_line:
        if char in stand_ins and (quote or escaped):
            protected.append(stand_ins[char])
        else:
            protected.append(char)
        if escaped:
            escaped = False
        elif char == "\\\\" and quote != "'":
            escaped = True
        elif quote:
            quote = "" if char == quote else quote
        elif char in "'\\"":
            quote = char
    return "".join(protected), {stand_in: char for char, stand_in in stand_ins.items()}
''', '''    import enum
    import io

    class State(enum.Enum):
        PLAIN = ""
        SINGLE = "'"
        DOUBLE = '"'

    out = io.StringIO()
    state = State.PLAIN
    chars = iter(command_line)
    for char in chars:
        if char == "\\\\" and state is not State.SINGLE:
            out.write(char)
            follower = next(chars, "")
            out.write(stand_ins.get(follower, follower))
            continue
        out.write(stand_ins.get(char, char) if state is not State.PLAIN else char)
        if state is State.PLAIN and char in ("'", '"'):
            state = State(char)
        elif state is not State.PLAIN and char == state.value:
            state = State.PLAIN
    return out.getvalue(), dict(zip(stand_ins.values(), stand_ins.keys()))
'''),
 (P, '''    idx = 0
    while idx < len(tokens):
        token = tokens[idx]
        if token == "|":
            _finalize_command(commands, current)
            current = CommandSpec(name=None)
            idx += 1
            continue
        if token in ("<", ">", ">>"):
            if idx + 1 >= len(tokens):
                raise ValueError(f"Missing redirection target after {token}")
            target = restore(tokens[idx + 1])
            if token == "<":
                current.stdin = target
            else:
                current.stdout = target
                current.append = token == ">>"
            idx += 2
            continue
        token = restore(token)
        if current.name is None and _ASSIGNMENT_RE.match(token):
            key, value = token.split("=", 1)
            current.assignments[key] = value
        elif current.name is None:
            current.name = token
        else:
            current.args.append(token)
        idx += 1
''', '''    stream = iter(tokens)
    for token in stream:
        match token:
            case "|":
                _finalize_command(commands, current)
                current = CommandSpec(name=None)
            case "<" | ">" | ">>":
                try:
                    target = restore(next(stream))
                except StopIteration:
                    raise ValueError(f"Missing redirection target after {token}") from None
                if token == "<":
                    current.stdin = target
                else:
                    current.stdout, current.append = target, token == ">>"
            case _:
                word = restore(token)
                if current.name is not None:
                    current.args.append(word)
                    continue
                if _ASSIGNMENT_RE.match(word):
                    key, _, value = word.partition("=")
                    current.assignments[key] = value
                else:
                    current.name = word
'''),
 (S, '''        pattern = re.compile(r"\\$(\\w+)|\\${([^}]+)}")

        def replacer(match: re.Match[str]) -> str:
            name = match.group(1) or match.group(2)
            if not name:
                return ""
            return env.get(name, "")

        return pattern.sub(replacer, token)
''', '''        pieces: list[str] = []
        position = 0
        for found in re.finditer(r"\\$(?P<plain>\\w+)|\\${(?P<braced>[^}]+)}", token):
            pieces.append(token[position : found.start()])
            name = found["plain"] or found["braced"]
            pieces.append(env[name] if name in env else "")
            position = found.end()
        pieces.append(token[position:])
        return "".join(pieces)
'''),
 (S, '''        expanded: list[str] = []
        for arg in args:
            if any(ch in arg for ch in "*?[]"):
                matches = self.vfs.glob(arg, cwd=self.vfs.pwd(), view=self.view)
                if matches:
                    expanded.extend(matches)
                else:
                    expanded.append(arg)
            else:
                expanded.append(arg)
        return expanded
''', '''        def one(arg: str) -> list[str]:
            if not set("*?[]") & set(arg):
                return [arg]
            return self.vfs.glob(arg, cwd=self.vfs.pwd(), view=self.view) or [arg]

        return sum(map(one, args), [])
'''),
 (S, '''        normalized = self.vfs._normalize(path)
            if not any(
                normalized.is_relative_to(prefix) or prefix.is_relative_to(normalized)
                for prefix in self.view.path_prefixes
            ):
                raise InvalidOperation(f"Path {path} is hidden for this view")
''', '''        normalized = self.vfs._normalize(path)
            for prefix in self.view.path_prefixes:
                shorter = min(normalized.parts, prefix.parts, key=len)
                if normalized.parts[: len(shorter)] == prefix.parts[: len(shorter)]:
                    break
            else:
                raise InvalidOperation(f"Path {path} is hidden for this view")
'''),
 (S, '''        total = sum(
            len(text.encode("utf-8", "surrogatepass")) for text in (result.stdout, result.stderr)
        )
        if total <= self.max_output_bytes:
            return result
''', '''        blob = b"".join(
            bytes(text, "utf-8", "surrogatepass") for text in (result.stdout, result.stderr)
        )
        if not len(blob) > self.max_output_bytes:
            return result
'''),
 (S, '''        parts: list[str] = []
            if count_lines:
                parts.append(str(lines))
            if count_bytes:
                parts.append(str(bytes_count))
            if label:
                parts.append(label)
            return " ".join(parts)
''', '''        columns = ((count_lines, str(lines)), (count_bytes, str(bytes_count)), (label, label))
            return " ".join(text for wanted, text in columns if wanted)
'''),
 (S, '''            if mode == "lines":
                lines = content.splitlines(keepends=True)
                output.append("".join(lines[-count:] if count else []))
            else:
                output.append(content[-count:] if count else "")
''', '''            import collections

            units = content.splitlines(keepends=True) if mode == "lines" else content
            if count < 0:
                output.append("".join(units[-count:]))
            else:
                output.append("".join(collections.deque(units, maxlen=count)))
'''),
 (S, '''            if mode == "lines":
                lines = content.splitlines(keepends=True)
                output.append("".join(lines[:count]))
            else:
                output.append(content[:count])
''', '''            import itertools

            if count < 0:
                units = content.splitlines(keepends=True) if mode == "lines" else list(content)
                output.append("".join(units[:count]))
            elif mode == "lines":
                output.append("".join(itertools.islice(content.splitlines(True), count)))
            else:
                output.append("".join(itertools.islice(content, count)))
'''),
 (S, '''        newline = True
        if args and args[0] == "-n":
            newline = False
            args = args[1:]
        output = " ".join(args)
        if newline:
            output += "\\n"
        return CommandResult(stdout=output)
''', '''        match args:
            case ["-n", *words]:
                end = ""
            case words:
                end = "\\n"
        return CommandResult(stdout="".join([" ".join(words), end]))
'''),
 (S, '''        for target in paths:
            for file_path, file_node in self.vfs.iter_files(target, recursive=recursive):
                if self.view and not self.view.allows_node(file_node):
                    continue
                text = file_node.read(self.vfs)
                lines = text.splitlines()
                for idx, line in enumerate(lines, start=1):
                    matched = False
                    if regex:
                        if compiled and compiled.search(line):
                            matched = True
                    elif ignore_case:
                        if lowered and lowered in line.lower():
                            matched = True
                    else:
                        if pattern in line:
                            matched = True
                    if matched:
                        prefix = f"{file_path}:{idx}:" if show_numbers else f"{file_path}:"
                        results.append(f"{prefix}{line}")
        return results
''', '''        for target in paths:
            for file_path, file_node in self.vfs.iter_files(target, recursive=recursive):
                if self.view and not self.view.allows_node(file_node):
                    continue
                found = self._search_text(
                    pattern,
                    file_node.read(self.vfs),
                    regex=regex,
                    ignore_case=ignore_case,
                    show_numbers=show_numbers,
                )
                results += [f"{file_path}:{line}" for line in found]
        return results
'''),
 (S, '''        results: list[str] = []
        flags = re.MULTILINE
        if ignore_case:
            flags |= re.IGNORECASE
        compiled = re.compile(pattern, flags) if regex else None
        lowered = pattern.lower() if ignore_case and not regex else None
        for idx, line in enumerate(text.splitlines(), start=1):
            matched = False
            if regex:
                if compiled and compiled.search(line):
                    matched = True
            elif ignore_case:
                if lowered and lowered in line.lower():
                    matched = True
            else:
                if pattern in line:
                    matched = True
            if matched:
                prefix = f"{idx}:" if show_numbers else ""
                results.append(f"{prefix}{line}" if prefix else line)
        return results
''', '''        import functools

        flags = functools.reduce(lambda a, b: a | b, [re.IGNORECASE] * ignore_case, re.MULTILINE)
        if regex:
            matches = re.compile(pattern, flags).search
        elif ignore_case:
            def matches(line: str) -> bool:
                return bool(pattern) and pattern.lower() in line.lower()
        else:
            matches = functools.partial(lambda needle, line: needle in line, pattern)
        numbered = ((str(number), line) for number, line in enumerate(text.splitlines(), 1))
        return [":".join(pair) if show_numbers else pair[1] for pair in numbered if matches(pair[1])]
'''),
 (S, '''        for file_path in existing_files:
            if file_path in exported and file_path not in host_files:
                self.vfs.remove(str(file_path))
''', '''        for file_path in filter(exported.__contains__, existing_files):
            if file_path not in host_files:
                self.vfs.remove(file_path)
'''),
 (S, '''        host_paths = [
            (PurePosixPath("/").joinpath(*path.relative_to(fs_root).parts), path)
            for path in sorted(fs_root.rglob("*"))
        ]
''', '''        host_paths = []
        for base, dir_names, file_names in os.walk(fs_root):
            for entry_name in sorted(dir_names + file_names):
                host_path = Path(base) / entry_name
                host_paths.append((PurePosixPath("/" + str(host_path.relative_to(fs_root))), host_path))
'''),
 (S, '''                completed = subprocess.run(
                    mapped,
                    cwd=str(host_cwd),
                    input=stdin,
                    capture_output=True,
                    text=True,
                    check=False,
                    env=merged_env,
                )
''', '''                completed = subprocess.run(
                    mapped,
                    cwd=host_cwd,
                    input=stdin,
                    stdout=subprocess.PIPE,
                    stderr=subprocess.PIPE,
                    universal_newlines=True,
                    env=dict(merged_env),
                )
'''),
 (S, '''        try:
            if self._handler_accepts_ctx.get(name):
                result = handler(args, ctx)
            else:
                result = handler(args)
        except SandboxError as exc:
            return CommandResult(stderr=str(exc), exit_code=1)
        except Exception as exc:  # pragma: no cover - unexpected failure path
            return CommandResult(stderr=f"{name} failed: {exc}", exit_code=1)
        if isinstance(result, CommandResult):
            return self._enforce_output_limit(result)
        if result is None:
            return self._enforce_output_limit(CommandResult())
        return self._enforce_output_limit(CommandResult(stdout=str(result)))
''', '''        operands = (args, ctx) if self._handler_accepts_ctx.get(name) else (args,)
        try:
            result = handler(*operands)
        except Exception as exc:
            text = "{}" if isinstance(exc, SandboxError) else "{name} failed: {}"
            return CommandResult(stderr=text.format(exc, name=name), exit_code=1)
        match result:
            case CommandResult():
                outcome = result
            case None:
                outcome = CommandResult()
            case _:
                outcome = CommandResult(stdout=str(result))
        return self._enforce_output_limit(outcome)
'''),
]


def main():
    args = sys.argv[1:]
    sets = list(SETS)
    if args[:1] == ["-s"]:
        sets = args[1].split(",")
        args = args[2:]
    work = "/tmp/refactor-work"
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree("/repo", work, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".venv"))
    for s in sets:
        for i, (f, old, new) in enumerate(SETS[s]):
            p = os.path.join(work, f)
            t = open(p).read()
            if t.count(old) != 1:
                print("set", s, "edit", i, f, "occurs", t.count(old), "times:", old.strip().splitlines()[0])
                continue
            open(p, "w").write(t.replace(old, new))
    r = subprocess.run("/opt/venv/bin/python -m pytest -q -p no:cacheprovider 2>&1 | tail -5", shell=True, cwd=work, capture_output=True, text=True,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    print(r.stdout)
    import json
    props = args or [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    for p in props:
        r = subprocess.run(["python3-vt", "check.py", p], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, SANDFS_REPO=work))
        print(r.stdout.strip()[-1500:], r.stderr[-500:], flush=True)


main()
