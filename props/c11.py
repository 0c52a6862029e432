from props.lib import dump, same

BOUNDS = ("one write or append with an arbitrary expected version (or none) against a file of any version 0..6, a missing file, a touched file, "
          "a copied-over file; histories of up to 4 writes; all interleavings of two or three clients that each read the version and then "
          "write with it (2 rounds for two clients); texts are arbitrary single characters")
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("accepted", "rejected")

STEPS = ["write", "append", "cas", "copyover", "touch", "movearound", "shell", "external"]


def cases(tier):
    out = [("single", {"kind": "single"}), ("missing", {"kind": "missing"}), ("clients2", {"kind": "clients", "n": 2, "rounds": 1}),
           ("clients2x2", {"kind": "clients", "n": 2, "rounds": 2}), ("clients3", {"kind": "clients", "n": 3, "rounds": 1}),
           ("storage", {"kind": "storage"})]
    if tier == "thorough":
        out.append(("clients3x2", {"kind": "clients", "n": 3, "rounds": 2}))
    for a in STEPS[:-1]:
        for b in STEPS[:-1]:
            out.append((f"history {a}-{b}", {"kind": "history", "steps": [a, b] + (["any"] if tier == "thorough" else [])}))
    return out


def run(S, kind, n=0, rounds=0, steps=()):
    vfs = S.sandfs.VirtualFileSystem()
    if kind == "single":
        node = vfs.write_file("/d/f", "old")
        node.version = S.int("ver", 0, 6)
        vfs.write_file("/o", "other")
        before = dump(vfs)
        exp = S.int("exp", -1, 8)
        app = S.flag("append")
        t = S.str("t", 0, 1)
        ver = node.version
        S.check(vfs.get_version("/d/f") == ver, "the reported version is the file's")
        if S.flag("unconditional"):
            got = vfs.append_file("/d/f", t) if app else vfs.write_file("/d/f", t)
            S.check(got.version == ver + 1, "an unconditional write advances the version by one")
            return
        if app:
            ok, v = S.attempt(vfs.append_file, "/d/f", t, expected_version=exp)
        else:
            ok, v = S.attempt(vfs.write_file, "/d/f", t, expected_version=exp)
        S.cover("accepted" if ok else "rejected")
        S.check(S.iff(ok, exp == ver), "a conditional write succeeds exactly when the expected version is current")
        if ok:
            S.check(vfs.get_version("/d/f") == ver + 1, "and advances the version by exactly one")
            S.check(vfs.read_file("/d/f") == ("old" + t if app else t), "and stores the text")
            S.check(same(S, before, dump(vfs), ["/d/f"]), "and nothing else")
        else:
            S.check(same(S, before, dump(vfs)), "otherwise nothing changes")
        return
    if kind == "missing":
        exp = S.int("exp", -1, 4)
        p = S.choice("p", ["/n", "/x/n"])
        before = dump(vfs)
        if S.flag("touched"):
            vfs.touch(p)
            before = dump(vfs)
        ok, v = S.attempt(vfs.write_file, p, "t", append=S.flag("append"), expected_version=exp)
        S.cover("accepted" if ok else "rejected")
        S.check(S.iff(ok, exp == 0), "a file that was never written counts as version zero")
        if ok:
            S.check(vfs.get_version(p) == 1, "its first write is version one")
        else:
            S.check(same(S, before, dump(vfs)), "a rejected write creates nothing")
        return
    if kind == "clients":
        return clients(S, vfs, n, rounds)
    if kind == "storage":
        ad = S.mod("adapters").MemoryStorageAdapter({"f": "stored"})
        vfs.mount_storage("/m", ad)
        for i in range(2):
            ver = vfs.get_version("/m/f")
            exp = S.int("exp%d" % i, 0, 3)
            ok, v = S.attempt(vfs.write_file, "/m/f", "t%d" % i, expected_version=exp)
            S.check(S.iff(ok, exp == ver), "conditional writes work alike in storage mounts")
            S.check(vfs.get_version("/m/f") == (ver + 1 if ok else ver), "with the same version arithmetic")
            S.check(ad.read("f").version == vfs.get_version("/m/f"), "and the storage agrees")
        return
    # histories: the version grows by one with every change of content and never otherwise
    vfs.write_file("/d/f", "first")
    vfs.write_file("/src", "copied")
    shell = S.sandfs.SandboxShell(vfs)
    for i, step in enumerate(steps):
        if step == "any":
            step = S.choice("step%d" % i, STEPS[:-1])
        ver, text = vfs.get_version("/d/f"), vfs.read_file("/d/f")
        stale = S.flag("stale%d" % i) if step == "cas" else False
        if step == "write":
            vfs.write_file("/d/f", S.str("t%d" % i, 0, 1))
        elif step == "append":
            vfs.append_file("/d/f", S.str("t%d" % i, 0, 1))
        elif step == "cas":
            ok, _ = S.attempt(vfs.write_file, "/d/f", "cas", expected_version=ver - 1 if stale else ver)
            S.check(ok != stale, "stale writers are rejected and current ones are not")
        elif step == "copyover":
            vfs.copy("/src", "/d/f")
            S.check(vfs.get_version("/d/f") > ver, "copying over a file advances its version")
            continue
        elif step == "touch":
            vfs.touch("/d/f")
        elif step == "movearound":
            vfs.move("/d/f", "/d/g")
            vfs.move("/d/g", "/d/f")
        elif step == "shell":
            shell.exec(S.choice("cmd%d" % i, ["write /d/f x", "append /d/f x", "echo x > /d/f", "echo x >> /d/f", "write /d/f --append x"]))
        wrote = step in ("write", "append", "shell") or (step == "cas" and not stale)
        S.cover("accepted" if wrote else "rejected")
        S.check(vfs.get_version("/d/f") == (ver + 1 if wrote else ver), "every write advances the version by exactly one, nothing else does")
        if not wrote:
            S.check(vfs.read_file("/d/f") == text, "what does not advance the version does not change the text")


def clients(S, vfs, n, rounds):
    """Clients read the version, then write with it; the schedule is symbolic."""
    vfs.write_file("/f", "start")
    state = [("read", None)] * n
    todo = [rounds] * n
    wins = []
    k = 0
    while any(todo):
        live = [i for i in range(n) if todo[i]]
        i = live[S.pick("sched%d" % k, len(live))]
        k += 1
        if state[i][0] == "read":
            state[i] = ("write", vfs.get_version("/f"))
            continue
        seen = state[i][1]
        mine = "client %d round %d" % (i, todo[i])
        ok, _ = S.attempt(vfs.write_file, "/f", mine, expected_version=seen)
        S.cover("accepted" if ok else "rejected")
        S.check(ok == (len([w for w in wins if w[0] >= seen]) == 0), "a write based on an outdated read is rejected")
        if ok:
            wins.append((seen, mine))
            S.check(vfs.read_file("/f") == mine, "an accepted write is what the file then holds")
        else:
            S.check(vfs.read_file("/f") == (wins[-1][1] if wins else "start"), "a rejected write loses nothing")
        state[i] = ("read", None)
        todo[i] -= 1
    S.check(len(set(w[0] for w in wins)) == len(wins), "no two accepted writes are based on the same version")
    S.check(vfs.get_version("/f") == 1 + len(wins), "the version counts the accepted writes")
