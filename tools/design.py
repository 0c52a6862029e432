#!/usr/bin/env python3-vt
"""Write DESIGN.md from the text below, the harnesses' BOUNDS and the planted bugs' records."""
import ast, json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.table import P  # noqa: E402

HEAD = open(os.path.join(HERE, "tools", "design_head.md")).read()
TAIL = open(os.path.join(HERE, "tools", "design_tail.md")).read()
HOW = {
 "C01": "The path is a symbolic string; an independent component-by-component normaliser (`spec`) says which location it denotes. The real operation is executed on it and its effect (value read, node created, removed, listed, hook called, policy set ...) must be at that location and nowhere else.",
 "C02": "Operation kinds, paths and texts are symbolic; a reference tree (`lib.Ref`, a plain dictionary) executes the same history. Success or refusal of each operation and the final tree (paths, kinds, texts) must agree.",
 "C03": "A complete dump (texts, versions, policies, metadata, times, back end, search results, hook calls) is taken before and after; whenever the operation raises, both must be equal.",
 "C04": "Dump before/after: the rows of the source subtree must reappear unchanged below the destination computed independently from the specification; sensible moves must succeed, the others must be refused.",
 "C05": "Dump comparison as for C04, then a symbolic choice of a later change on one side; the rows of the other side must not change.",
 "C06": "The read-only node's identity, text, version, time and children are recorded; after any symbolic operations they must be the same object and values.",
 "C07": "As C06 with the growth relation: the new text must start with the old one, an accepted append must give exactly old+new.",
 "C08": "Non-interference by self-composition: two runs that differ only in the unreadable text (or unreadable directory's names) are executed on the same path; the solver must show their outputs equal. Plus direct refusal checks.",
 "C09": "Self-composition as C08 for text hidden by the view; the hidden node must also keep its place and text.",
 "C10": "`allows`/`allows_node` and each command's verdict are compared with a direct transcription of the visibility rule over symbolic labels, principals, prefixes and metadata.",
 "C11": "The version is a symbolic integer; accepted exactly when equal, refused without effect otherwise. Client interleavings are symbolic schedules (which client acts next is a solver variable); no update may be lost.",
 "C12": "Recording hooks; the expected event list is computed from the operation and a component-wise prefix test, and compared exactly (order per hook, fields, state of the tree seen from inside the hook).",
 "C13": "A dictionary model of each back end executes the same history; after every step the tree below each mount must equal the back end and the model. Known finding F22 is excluded by its call site only.",
 "C14": "Keys and names are symbolic strings; outside of the mount the dump must not change, all node names must be addressable, texts must be those supplied.",
 "C15": "The host is the in-memory stand-in with symbolic links; its access log and tree outside the root must be untouched for every symbolic path string.",
 "C16": "Round trip over symbolic text; a model of 'changed by someone else since last seen' decides whether a write may succeed.",
 "C17": "Dump before snapshot, symbolic operations, restore, dump: equal; again after a second restore and in another filesystem.",
 "C18": "Two filesystems, one with the index, execute the same symbolic history; the search results must be equal for a symbolic query.",
 "C19": "An independent line matcher over the symbolic text (its own splitting and substring test) computes the expected matches.",
 "C20": "An independent lexer written from the POSIX quoting rules parses the same symbolic command line; the words the commands receive and the files written must agree.",
 "C21": "Recording commands with symbolic outputs and exit codes; a direct interpreter of the pipeline semantics predicts inputs, files, result.",
 "C22": "The allow-list is symbolic; whether handlers or host processes ran must equal membership of the name.",
 "C23": "The limit is a symbolic integer, the output symbolic text with symbolic UTF-8 length; the limited shell must show exactly the unlimited result or a failure.",
 "C24": "Anything but a result from exec is a violation; faults are injected at a symbolically chosen point.",
 "C25": "Symbolic text and count; independent line/character arithmetic.",
 "C26": "Symbolic names; expected listings are computed from the list of created nodes; an independent glob matcher.",
 "C27": "Providers return fresh symbolic text at each call and record calls; a model says what must be visible when.",
 "C28": "Host tree before/after in the stand-in; expected bytes are the UTF-8 of the symbolic text.",
 "C29": "The host process is a scripted stand-in whose edits are symbolic choices; the resulting tree is predicted from the edits and the view.",
 "C30": "Result files predicted by the independent line matcher of C19 and the view's rule.",
 "C31": "Symbolic words passed through variables and literals; expected text assembled independently.",
 "C32": "Recording handlers of every form with symbolic words and results.",
 "C33": "The console is a stand-in; output, exit status and host files are compared with what the shell itself would give.",
 "C34": "The clock is a stand-in that advances at each query; times of all files before/after every symbolic step.",
 "C35": "A model of the working directory (a path that follows moves) over symbolic histories; relative lookups with a symbolic path are compared with the absolute ones.",
 "C36": "Two of everything; after a symbolic operation on the first, the second and everything created afterwards are compared with their state before.",
 "C37": "The stand-in's access log and process list must stay empty for symbolic path words.",
 "C38": "A dictionary model executes the same symbolic history of reads, writes with right/stale versions, deletions.",
 "C39": "The snippets themselves are executed symbolically (their source is instrumented when compiled); a table gives the expected output and names.",
 "C40": "Twin sandboxes with the same symbolic text and policy: the command line runs in one, the calls in the other; success, output, events and complete dumps must agree for every combination of operands. Commands that only show must give the concatenation of what they show for each operand.",
 "C41": "An independent table of reasons (component missing, wrong kind, policy, version, failing provider) decides from path and policy which errors are fitting; the real operation must raise one of them or, when there is none, succeed.",
}


def consts(pid):
    d = {}
    for n in ast.parse(open(os.path.join(HERE, "props", pid.lower() + ".py")).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "ASSUMPTIONS"):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    return d


def main():
    out = [HEAD.rstrip(), ""]
    for p in P:
        c = consts(p["id"])
        out.append(f"### {p['id']} {p['title']}\n")
        out.append(HOW[p["id"]] + "\n")
        out.append("Bounds: " + c["BOUNDS"] + ".\n")
        if c.get("ASSUMPTIONS"):
            out.append("Assumed or left open: " + "; ".join(c["ASSUMPTIONS"]) + ".\n")
        out.append("Beyond tests: " + p["why"] + "\n")
    bugs = []
    d = os.path.join(HERE, "seeded")
    rec = {}
    rp = os.path.join(HERE, "tools", "caught.json")
    if os.path.exists(rp):
        rec = json.load(open(rp))
    for b in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, b, "meta.json")))
        bugs.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {rec.get(b, '?')} |")
    table = "| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(bugs)
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    fixes = "\n".join("- " + f.replace("fixed: property=", "").replace("before this commit it was not so that: ", "") for f in known["fixed"])
    text = "\n".join(out) + "\n" + TAIL.replace("@BUGS@", table).replace("@FIXES@", fixes)
    open(os.path.join(HERE, "DESIGN.md"), "w").write(text)


main()
