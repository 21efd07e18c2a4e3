"""Which explorations decide which property, and how a discrepancy is attributed to properties."""
import glob
import json
import os
import re
from concurrent.futures import ThreadPoolExecutor

TLC_CMD = ["java", "-XX:+UseParallelGC", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC"]
ASSUMPTIONS = [
    "the driver reports what the library's public API returns (it is the only trusted link between specification and code)",
    "one thread: the library's types are neither Send nor Sync",
    "bounds: as listed per suite under coverage.suites",
]


class Context:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def pick(self, quick, thorough, brief=None):
        """How much to do; `brief` is for suites that are not made for the property at hand."""
        if self.tier == "brief":
            return quick if brief is None else brief
        return thorough if self.tier == "thorough" else quick


def summarize(tlc, stats, **extra):
    walks = sum(s["walks"] for s in stats)
    steps = sum(s["steps"] for s in stats)
    c = {"states": sum(t["states"] for t in tlc), "transitions": sum(t["transitions"] for t in tlc),
         "traces_validated_against_impl": walks, "samples": steps,
         "cut": any(s.get("cut") for s in stats), "tlc_wall_s": round(sum(t["wall_s"] for t in tlc), 1)}
    for s in stats:
        for k, v in s.items():
            if k not in ("k", "walks", "steps", "cut", "add", "states"):
                c[k] = v
        for k, v in s.get("add", {}).items():
            c[k] = c.get(k, 0) + v
    c.update(extra)
    return c


def struct(cx):
    n = cx.pick(6, 7, 5)
    out, t = cx.run_tlc(f"struct{n}", {
        "module": "MCStruct", "constants": {"MaxN": n, "MaxOut": n + 1, "Emit": "TRUE"},
        "VIEW": "View", "CONSTRAINT": "SmallEnough", "INVARIANT": "Inv EmitInv", "PROPERTY": "StepOK"})
    v, s, _ = cx.run_driver("struct", {
        "lts": out, "variants": cx.pick(4, 12, 2), "pairs": cx.pick(3, 4, 1), "walks": cx.pick(8000, 120000, 1000),
        "len": cx.pick(30, 60), "secs": cx.pick(60, 1200, 10)})
    return v, summarize([t], s, bounds=f"all forests of at most {n} nodes, every operation with every argument; random walks over them")


def handles(cx):
    # Many handles of one node; several of each kind on two nodes; two nodes with more in total; three nodes.
    jobs = [(1, 2, 3, 3, 3, 3, 2, cx.pick(9, 10)), (2, 3, 2, 2, 2, 2, 1, cx.pick(6, 7)), (2, 3, 1, 2, 1, 1, 1, cx.pick(7, 9)),
            (3, 4, 1, 1, 1, 1, 1, cx.pick(4, 5, 3))]
    if cx.tier == "brief":
        jobs = [(1, 2, 2, 2, 2, 2, 2, 6), (2, 3, 1, 1, 1, 1, 1, 5), jobs[3]]
    names = ("MaxN", "MaxOut", "MaxP", "MaxH", "MaxTh", "MaxTok", "MaxDead", "MaxTotal")
    viols, tlc, stats, left = [], [], [], cx.pick(120, 700, 20)
    for k, job in enumerate(jobs):
        c = dict(zip(names, job), MaxHol=1, Emit="TRUE")
        c["MaxF"] = c["MaxH"]
        out, t = cx.run_tlc(f"handles{job[0]}{'abcdefg'[k + 4 * (cx.tier == 'brief')]}", {
            "module": "MCHandles", "constants": c, "CONSTRAINT": "SmallEnough", "INVARIANT": "Inv EmitInv"})
        v, s, _ = cx.run_driver("handles", {"lts": out, "len": 60, "rounds": cx.pick(1, 3), "secs": left // (len(jobs) - k)})
        viols += v
        tlc.append(t)
        stats += s
        if any(not x.get("finding") for x in v):
            break
    return viols, summarize(tlc, stats, bounds="every combination of handles and tokens on at most 3 nodes, up to (nodes, handles of each kind per node, in total): "
                            + ", ".join(str((j[0], j[2:4], j[7])) for j in jobs))


def trav(cx):
    n = cx.pick(5, 6, 4)
    out, t = cx.run_tlc(f"trav{n}", {
        "module": "MCTraverse", "constants": {"MaxN": n, "Emit": "TRUE"}, "INVARIANT": "Inv EmitInv"})
    v, s, _ = cx.run_driver("trav", {
        "lts": out, "budget": cx.pick(600, 3000, 100), "randoms": cx.pick(2, 10), "reps": cx.pick(2, 8, 1),
        "secs": cx.pick(60, 1500, 10)})
    return v, summarize([t], s, bounds=f"every traversal of every subtree of every tree of at most {n} nodes; "
                        "all interleavings of calls from both ends within a budget, random ones beyond")


def cursors(cx):
    n = cx.pick(3, 4, 2)
    out, t = cx.run_tlc(f"cursors{n}", {
        "module": "MCCursors", "constants": {"MaxN": n, "MaxOut": n, "Emit": "TRUE"},
        "VIEW": "View", "CONSTRAINT": "SmallEnough", "INVARIANT": "Inv EmitInv", "PROPERTY": "StepOK BuildOK"})
    v, s, _ = cx.run_driver("cursors", {
        "lts": out, "variants": cx.pick(3, 6), "walks": cx.pick(8000, 200000, 1000), "len": cx.pick(30, 60), "secs": cx.pick(60, 1200, 10)})
    return v, summarize([t], s, bounds=f"one traversal at every position, or builder at every open node, on every forest of at most {n} nodes, "
                        "interleaved with every edit and every way of holding the trees")


def builder(cx):
    n, i, t = cx.pick((5, 3, 6), (7, 4, 7), (4, 2, 4))
    out, st = cx.run_tlc(f"builder{n}", {
        "module": "MCBuilder", "constants": {"MaxN": n, "MaxInit": i, "MaxTrees": t, "Emit": "TRUE"},
        "VIEW": "View", "INVARIANT": "Inv EmitInv", "PROPERTY": "StepOK"})
    v, s, _ = cx.run_driver("builder", {"lts": out, "walks": cx.pick(20000, 400000, 2000), "reps": cx.pick(6, 20, 2)})
    return v, summarize([st], s, bounds=f"every sequence of builder calls producing at most {n} nodes, from every tree of at most {i} nodes "
                        f"and every cursor; every event sequence of every subtree of every tree of at most {t} nodes; every tree literal of at most 5 nodes")


def equal(cx):
    t = cx.pick(4, 5, 3)
    out, st = cx.run_tlc(f"equal{t}", {
        "module": "MCEqual", "constants": {"MaxN": 3, "MaxZ": 2, "MaxT": t, "Emit": "TRUE"},
        "INVARIANT": "Inv", "PROPERTY": "Terminates"})
    v, s, _ = cx.run_driver("equal", {"lts": out, "rounds": cx.pick(12, 6, 4), "borrows": 400, "sample": cx.pick(3000, 4000, 1000), "secs": cx.pick(60, 1200, 10)})
    return v, summarize([st], s, bounds=f"pairs of subtrees of labelled trees of at most {t} nodes, in every form of comparison; "
                        "with data of some node borrowed (sampled)")


def pretty(cx):
    n, ln, t = cx.pick((3, 3, 6), (4, 2, 8), (2, 2, 5))
    out, st = cx.run_tlc(f"pretty{t}", {
        "module": "MCPretty", "constants": {"MaxN": n, "MaxLen": ln, "MaxT": t, "Emit": "TRUE"}, "INVARIANT": "Inv"})
    v, s, _ = cx.run_driver("pretty", {"lts": out, "reps": cx.pick(30, 100, 5)})
    return v, summarize([st], s, bounds=f"every subtree of every tree of at most {n} nodes with every text of at most {ln} tokens; "
                        f"of at most {t} nodes with random texts and borrowed data")


def data(cx):
    n = cx.pick(3, 4, 2)
    out, t = cx.run_tlc(f"data{n}", {
        "module": "MCData", "constants": {"MaxN": n, "MaxOut": n + 1, "MaxW": cx.pick(2, 3), "Emit": "TRUE"},
        "VIEW": "View", "CONSTRAINT": "SmallEnough", "INVARIANT": "Inv EmitInv", "PROPERTY": "StepOK"})
    ts = [t]
    if cx.tier == "thorough":
        # All combinations of values, too (nothing is replayed from these).
        ts.append(cx.run_tlc("datafull", {
            "module": "MCData", "constants": {"MaxN": 3, "MaxOut": 3, "MaxW": 3, "Emit": "FALSE"},
            "VIEW": "FullView", "CONSTRAINT": "SmallEnough", "INVARIANT": "Inv", "PROPERTY": "StepOK"})[1])
    v, s, _ = cx.run_driver("data", {"lts": out, "variants": cx.pick(6, 12), "walks": cx.pick(12000, 200000, 1500), "len": cx.pick(30, 60), "secs": cx.pick(60, 1200, 10)})
    return v, summarize(ts, s, bounds=f"every borrow state of total weight at most {cx.pick(2, 3)} on every forest of at most {n} nodes, with every access "
                        "and every operation; every point at which copying data can fail")


def teardown(cx):
    n, t, d = cx.pick((3, 4, 2), (3, 5, 3), (2, 3, 2))
    out, st = cx.run_tlc(f"teardown{t}", {
        "module": "MCTeardown", "constants": {"MaxN": n, "MaxTotal": t, "MaxDepth": d, "Emit": "TRUE"},
        "VIEW": "View", "INVARIANT": "Inv EmitInv", "PROPERTY": "StepOK"})
    v, s, _ = cx.run_driver("teardown", {"lts": out, "variants": cx.pick(200, 300, 100), "walks": cx.pick(60000, 600000, 6000), "secs": cx.pick(40, 400, 10)})
    return v, summarize([st], s, bounds=f"at most {d} nested teardowns, with {n} living nodes and {t} nodes altogether; "
                        "after every destructor call any operation on the living trees")


TRAV = {"dft": "trav:dft", "rdft": "trav:dft", "sdft": "trav:sdft", "shallow": "trav:shallow", "bfs_a": "trav:bfs", "bfs_n": "trav:bfs"}


def op_tag(op):
    if op[0] == "edit":
        return f"edit:{op[1][0]}:{op[2][0]}"
    return op[0]


def tell(n, p):
    return f"[{p['cat']}] step {n}: {p['what']} is {p['got']}, specification says {p['want']}"


def first_of_each(problems):
    """Of each category the first problem (traversals only if they come first of all)."""
    out = {}
    for p in problems:
        if p["cat"] != "trav" or not out:
            out.setdefault(p["cat"], p)
    return out.values()


def rejected(h, rej):
    """A history that the specification rejects, as a violation."""
    n, p = rej["step"], rej["problems"][0]
    steps = h["steps"][:n]
    near = steps[-14:] if p["cat"] in ("nav", "born", "result", "data") else steps
    ops = [op_tag(e["op"]) + ("" if e["r"] == "ok" else "!" + e["r"]) for e in near]
    if p["cat"] == "trav":
        k = p["what"].split(" ")[0]
        ops = [TRAV.get(k, "trav:ssib" if k.startswith("s_") else "trav:sib")]
    log = [f"{json.dumps(e['op'])} -> {e['r']}" + (f" new {e['born']}" if e["born"] else "") + (f" yields {e['x']}" if e["x"] else "") for e in steps]
    return {"k": "violation", "suite": "trace", "walk": h["id"], "ops": ops, "shrunk": False, "log": log,
            "msg": " & ".join(tell(n, q) for q in first_of_each(rej["problems"]))}


def corrupted(h, kind):
    """The same history with one lie in it."""
    h = json.loads(json.dumps(h))
    h["id"] = f"corrupt/{kind}/" + h["id"]
    steps = h["steps"]
    n = len(steps)
    for k in list(range(n // 2, n)) + list(range(n // 2)):
        e = steps[k]
        if kind == 0 and e["al"]:
            e["al"] = e["al"][:-1]
            return h
        if kind == 1 and e["r"] == "ok":
            e["r"] = "none"
            return h
        if kind == 2 and e["o"] and e["o"][0]["n"]:
            e["o"][0]["n"][0][1][5] += 1
            return h
        if kind == 3 and e["o"] and e["o"][0]["t"]:
            e["o"][0]["t"][0][2] ^= 1
            return h
    return None


def validate(cx, files, heap="1500m"):
    """Has TLC judge recorded histories, one process per file."""
    def one(arg):
        i, path = arg
        with open(path) as f:
            hs = [json.loads(l) for l in f]
        if not hs:
            return [], None, 0
        lies = [c for c in (corrupted(hs[j % len(hs)], j) for j in range(4)) if c]
        with open(path, "a") as f:
            f.writelines(json.dumps(c) + "\n" for c in lies)
        out, st = cx.run_tlc(f"trace{i}", {"module": "Trace", "VIEW": "View", "INVARIANT": "Inv", "heap": heap, "workers": 1},
                             env={"TRACE": path}, cache=False)
        acc, rej = set(), {}
        with open(out) as f:
            for line in f:
                if line.startswith('"{'):
                    j = json.loads(json.loads(line))
                    if j["k"] == "A":
                        acc.add(j["id"])
                    elif j["k"] == "R":
                        rej[j["id"]] = j
        for c in lies:
            if c["id"] not in rej:
                raise RuntimeError(f"a corrupted history is not rejected: {c['id']}")
        lost = [h["id"] for h in hs if h["steps"] and h["id"] not in acc and h["id"] not in rej]
        if lost:
            raise RuntimeError(f"histories that TLC did not judge: {lost[:5]}")
        return [dict(rejected(h, rej[h["id"]]), cmd=cx.cmd_of(path)) for h in hs if h["id"] in rej], st, len(lies)

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, enumerate(files)))
    return [v for r in res for v in r[0]], [r[1] for r in res if r[1]], sum(r[2] for r in res)


def trace(cx):
    """Histories of the real library, recorded first and judged by the specification afterwards."""
    args = {"focus": cx.prop, "walks": cx.pick(960, 4800), "deep": cx.pick(0, 1), "secs": cx.pick(30, 200)}
    v, s, _ = cx.run_driver("trace", args)
    files = sorted(glob.glob(os.path.join(cx.work, "run", "trace.traces.*")))
    w, ts, lies = validate(cx, files, cx.pick("1500m", "3g"))
    for f in files:
        os.remove(f)
    return v + w, summarize(ts, s, corrupted_histories_rejected=lies,
                            bounds="random histories of up to 28 nodes (hundreds in thorough runs), every operation and kind of handle; "
                            "up to 70000 handles of one kind")


def scale(cx):
    k, n = cx.pick((2, 3), (3, 3), (1, 2))
    out, t = cx.run_tlc(f"scale{k}", {
        "module": "MCScale", "constants": {"MaxN": n, "MaxG": 2, "MaxOut": 5, "MaxK": k, "Emit": "TRUE"},
        "VIEW": "View", "CONSTRAINT": "SmallEnough", "INVARIANT": "Inv EmitInv", "PROPERTY": "StepOK"})
    v, s, _ = cx.run_driver("scale", {"lts": out, "small": cx.pick(1, 6), "walks": cx.pick(1200, 20000, 300), "secs": cx.pick(60, 400, 10)})
    return v, summarize([t], s, bounds=f"every operation on every forest of at most {n} gadgets (chains, fans, combs); commutation of Blow checked for gadgets of size up to {k}, "
                        "the real library run with gadgets of up to 7000 nodes (now and then 70000) on a stack of 128 KiB")


SUITES = {"scale": scale, "trace": trace, "teardown": teardown, "data": data, "equal": equal, "pretty": pretty, "builder": builder, "struct": struct, "handles": handles, "trav": trav, "cursors": cursors}

SUITES_OF = {
    "C01": ["struct", "handles"], "C02": ["struct"], "C03": ["struct"], "C04": ["struct"],
    "C05": ["struct", "handles", "data"], "C06": ["struct", "handles"], "C07": ["handles", "trav", "cursors"], "C08": ["handles", "cursors"],
    "C09": ["handles"], "C10": ["struct", "handles", "trav", "cursors", "teardown"],
    "C11": ["trav"], "C12": ["trav"], "C13": ["trav"], "C14": ["trav"], "C15": ["builder", "cursors"], "C17": ["equal"], "C20": ["pretty"], "C19": ["cursors"], "C16": ["struct", "handles", "data"], "C18": ["data"],
}
for _v in SUITES_OF.values():
    _v.append("trace")
for _p in ["C01", "C02", "C03", "C04", "C05", "C06", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C20"]:
    SUITES_OF[_p].append("scale")

# The suites of other properties follow, in brief: what they find may still speak about this one.
ALSO = ["struct", "handles", "cursors", "data", "teardown", "trav", "builder", "equal", "pretty", "scale"]


def plan(prop, tier):
    """The explorations of a property: (suite, tier)."""
    return [(n, tier) for n in SUITES_OF[prop]] + [(n, "quick" if tier == "thorough" else "brief") for n in ALSO if n not in SUITES_OF[prop]]


# -- attribution --------------------------------------------------------------------------

OPS = {
    "create": {"C02"}, "new": {"C02"}, "detach": {"C03"}, "move": {"C03"}, "iparent": {"C04"}, "ichild": {"C04"},
    "replace": {"C04"}, "clone": {"C16"}, "cloneins": {"C16"}, "droptree": {"C10"},
    "drop": {"C10"}, "tree_drop": {"C10"}, "tok_drop": {"C07"}, "hollow_drop": {"C10"}, "upgrade": {"C10"},
    "nav": {"C01"}, "tree_root": {"C06"}, "tree": {"C06"},
    "bundle_new_g": {"C07"}, "bundle_new_p": {"C07"}, "tree_grant": {"C07"}, "tree_prohibit": {"C07"},
    "bundle_g": {"C09"}, "bundle_p": {"C09"}, "extract_g": {"C07"}, "extract_p": {"C07"},
    "tok_dup": {"C07"}, "dup": {"C07", "C10"}, "plain": {"C10"}, "unbundle": {"C07"},
}
OPS.update({"data": {"C10"}, "done": {"C10"}, "build": {"C15"}, "eq": {"C17"}, "fault": {"C05", "C16"}, "read": {"C18"}, "write": {"C18"}, "unread": {"C18"}, "unwrite": {"C18"}, "pretty": {"C20"}})
OPS.update({"bopen": {"C15"}, "bclose": {"C15"}, "bfinish": {"C15"}})
OPS.update({
    "trav:dft": {"C11"}, "trav:sdft": {"C11", "C12"}, "trav:shallow": {"C11", "C12"}, "trav:bfs": {"C14"},
    "trav:sib": {"C13"}, "trav:ssib": {"C12", "C13"},
})
RELOCATE = {"detach", "move", "replace"}
EDITS = {"create", "detach", "move", "iparent", "ichild", "replace", "cloneins"}


def attribute(v, prop):
    """The set of properties a discrepancy speaks about."""
    if v.get("props"):
        return set(v["props"])
    cats = re.findall(r"(?:^| & )\[([a-z]+)\]", v["msg"]) or ["other"]
    return set().union(*(attribute_one(v, prop, c) for c in cats))


def attribute_one(v, prop, cat):
    ops, refused, auths = [], False, set()
    for o in v.get("ops", []):
        base, _, r = o.partition("!")
        if base.startswith("edit:"):
            _, au, base = base.split(":")
            auths.add((au, r))
        if r in ("loop", "nosib", "empty", "borrow", "refused") or base == "fault":
            refused = True
        ops.append((base, r))
    by = set()
    for b, r in ops:
        by |= OPS.get(b, set())
    last = ops[-1] if ops else ("", "")
    names = {b for b, _ in ops}
    # What a relocation did to the locks may show any time later.
    relocated = names & RELOCATE or any(f'"{b}"' in line for line in v.get("log", []) for b in RELOCATE)
    p = set()
    if cat in ("nav", "born"):
        p = {"C01"} | (by & {"C02", "C03", "C04", "C16"})
    elif cat == "result":
        p = set(OPS.get(last[0], set()))
        if last[0] in EDITS:
            p.add("C05")
        if last[1] == "panic" or ('is "panic' in v["msg"] and auths):
            p.add("C09")
        if p & {"C07"} and relocated:
            p.add("C08")
    elif cat == "member":
        p = {"C06"} | (by & {"C02", "C03", "C04", "C16"})
    elif cat == "lock":
        p = {"C07"} | ({"C08"} if relocated or names & (EDITS | {"clone", "droptree"}) else set())
    elif cat == "token":
        p = {"C09"} | ({"C08"} if relocated else set())
    elif cat == "trav":
        p = set(OPS.get(last[0], set())) or {prop}
    elif cat in ("build", "eq", "pretty"):
        p = {"build": {"C15"}, "eq": {"C17"}, "pretty": {"C20"}}[cat]
    elif cat == "cursor":
        p = {"C19"} | (by & {"C11", "C13"})
    elif cat == "life":
        p = {"C10"} | (by & {"C02", "C03", "C04", "C16"})
    elif cat == "data":
        p = {"C18"} | (by & {"C02", "C03", "C04", "C16"})
    else:  # crash, panic, init, other
        p = by | {prop}
    if refused:
        p.add("C05")
    if v["suite"] == "data":
        p.add("C18")
    if v["suite"] == "scale":
        if cat == "trav":
            p = {"C14"} if "breadth" in v["msg"] else {"C12"} if "down to" in v["msg"] else {"C11", "C12"}
        if cat == "nav":
            p |= {"C16"} if "clone" in v["msg"] else {"C11", "C13"}
    if v["suite"] == "cursors" and cat in ("life", "crash", "panic"):
        p.add("C19")
    if v["suite"] == "cursors" and names & {"bopen", "bclose", "bfinish"} and cat not in ("cursor", "init"):
        p.add("C15")
    return p
