#!/usr/bin/env python3
"""Decides one property of dendron.

    check.py C07 [quick|thorough]   run the check of a property (VERIF_SEED=n)
    check.py --replay FILE  repeat the walk of a reported violation
    check.py --setup        build the driver

Every check is the same three steps: TLC explores the specification (spec/*.tla) and prints its
states and transitions; the driver (harness/) executes them on the real library, built from
/repo's working tree, and compares everything observable; some checks also have the driver
record random histories of the real library, which TLC then checks against the specification.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(ROOT, ".work")
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(WORK, "target")
BIN = os.path.join(TARGET, "release", "dendron-conformance")
LEAN = os.path.join(TARGET + "-lean", "lean", "dendron-conformance")
SHARDS = 8
sys.path.insert(0, os.path.join(ROOT, "tools"))
import suites as S  # noqa: E402

TIER = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class ToolError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build():
    """Builds the driver twice: with debug assertions, overflow checks and the default features,
    and with none of them."""
    os.makedirs(WORK, exist_ok=True)
    ps = []
    for target, args in ((TARGET, ["--release"]), (TARGET + "-lean", ["--profile", "lean", "--no-default-features"])):
        env = dict(os.environ, CARGO_TARGET_DIR=target)
        env.pop("RUSTFLAGS", None)
        ps.append(subprocess.Popen(["cargo", "build", "--offline", "--quiet"] + args, cwd=os.path.join(ROOT, "harness"), env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    outs = [p.communicate()[0] for p in ps]
    for p, o in zip(ps, outs):
        if p.returncode != 0:
            raise ToolError("the driver does not build against /repo:\n" + o[-6000:])


def cfg_text(job):
    lines = ["SPECIFICATION " + job.get("spec", "Spec")]
    if job.get("constants"):
        lines.append("CONSTANTS")
        for k, v in job["constants"].items():
            lines.append(f"  {k} = {v}")
    for k in ("VIEW", "CONSTRAINT", "INVARIANT", "PROPERTY", "POSTCONDITION", "ACTION_CONSTRAINT"):
        if job.get(k):
            lines.append(k + " " + job[k])
    lines.append("CHECK_DEADLOCK FALSE")
    return "\n".join(lines) + "\n"


def spec_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
        h.update(open(f, "rb").read())
    return h.hexdigest()


def run_tlc(name, job, extra=(), env=None, cache=True):
    """Runs TLC; returns (path of its output, statistics). The output depends only on the
    specification and the configuration, so it is reused if neither has changed."""
    text = cfg_text(job)
    key = hashlib.sha256((spec_hash() + name + job["module"] + text + repr(extra)).encode()).hexdigest()[:20]
    os.makedirs(os.path.join(WORK, "tlc"), exist_ok=True)
    base = os.path.join(WORK, "tlc", f"{name}-{key}")
    out, stat = base + ".out", base + ".json"
    if cache and os.path.exists(out) and os.path.exists(stat):
        return out, json.load(open(stat))
    for old in glob.glob(os.path.join(WORK, "tlc", f"{name}-*")):
        if os.path.isdir(old):
            shutil.rmtree(old, ignore_errors=True)
        else:
            try:
                os.remove(old)
            except OSError:
                pass
    cfg = base + ".cfg"
    open(cfg, "w").write(text)
    meta = base + ".meta"
    heap = job.get("heap", "6g")
    cmd = list(S.TLC_CMD)
    cmd += ["-noGenerateSpecTE", "-metadir", meta, "-workers", str(job.get("workers", 8)), "-config", cfg]
    cmd += list(extra) + [os.path.join(SPEC, job["module"] + ".tla")]
    t0 = time.time()
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = e.get("JAVA_TOOL_OPTIONS", "") + f" -Xss16m -Xmx{heap}"
    e.update(env or {})
    with open(out + ".tmp", "w") as f:
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=SPEC, env=e, timeout=job.get("timeout", 3600))
    shutil.rmtree(meta, ignore_errors=True)
    gen = dist = 0
    tail = []
    ok = False
    with open(out + ".tmp") as f:
        for line in f:
            if line.startswith('"{'):
                continue
            tail.append(line.rstrip()[:400])
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                gen, dist = int(m.group(1)), int(m.group(2))
            if "No error has been found" in line:
                ok = True
            m = re.match(r"The number of states generated: (\d+)", line)
            if m:
                gen = dist = int(m.group(1))
                ok = ok or r.returncode == 0
    st = {"name": name, "states": dist, "transitions": gen, "wall_s": round(time.time() - t0, 1), "ok": ok and r.returncode == 0}
    if not st["ok"] and not job.get("may_fail"):
        raise ToolError(f"TLC failed on {name} (exit {r.returncode}):\n" + "\n".join(tail[-60:]))
    st["tail"] = tail[-40:] if not st["ok"] else []
    os.replace(out + ".tmp", out)
    json.dump(st, open(stat, "w"))
    return out, st


def run_driver(suite, args, timeout=3000):
    d = os.path.join(WORK, "run")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, suite.replace("/", "-"))
    for old in glob.glob(out + ".*"):
        os.remove(old)
    # Most of the work is done by the checked build, the rest by the lean one.
    cut = SHARDS * 3 // 4
    cmds = []
    for b, part in ((BIN, ["--to", str(cut)]), (LEAN, ["--from", str(cut)])):
        cmd = [b, suite.split("/")[0], "--out", out, "--seed", str(SEED), "--shards", str(SHARDS)] + part
        for k, v in args.items():
            cmd += ["--" + k, str(v)]
        cmds.append(cmd)
    ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d) for c in cmds]
    end = time.time() + timeout
    for p, cmd in zip(ps, cmds):
        try:
            o = p.communicate(timeout=max(1, end - time.time()))[0]
        except subprocess.TimeoutExpired:
            for q in ps:
                q.kill()
            raise ToolError("driver timed out: " + " ".join(cmd))
        if p.returncode != 0:
            raise ToolError(f"driver failed ({p.returncode}): {' '.join(cmd)}\n{o[-4000:]}")
    viol, stats, other = [], [], []
    for f in sorted(glob.glob(out + ".[0-9]*")):
        if not re.fullmatch(re.escape(out) + r"\.\d+", f):
            continue
        for line in open(f, errors="replace"):
            try:
                j = json.loads(line)
            except ValueError:
                raise ToolError(f"unreadable driver output in {f}: {line[:200]}")
            if j["k"] == "violation":
                j["cmd"] = cmds[int(f.rsplit(".", 1)[1]) >= cut]
                viol.append(j)
            elif j["k"] == "stats":
                stats.append(j)
            else:
                other.append(j)
    return viol, stats, other, cmds


def known():
    f = os.path.join(ROOT, "known-findings.txt")
    out = []
    for line in open(f):
        line = line.strip()
        if line.startswith("finding: "):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
            out.append({"property": m.group(1), "id": m.group(2), "what": m.group(3)})
    return out


def prefetch(plan):
    """Runs TLC for several suites at once (the outputs are kept)."""
    def one(item):
        name, tier = item
        tlc = lambda n, job, **kw: run_tlc(n, dict({"workers": 1} if tier == "brief" else {}, **job), **kw)
        S.SUITES[name](S.Context(tier=tier, run_tlc=tlc, run_driver=lambda *a, **kw: ([], [], [])))

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, [i for i in plan if i[0] != "trace" and i[1] != "thorough"]))


def check(prop):
    t0 = time.time()
    build()
    ctx = S.Context(prop=prop, tier=TIER, seed=SEED, work=WORK, root=ROOT, run_tlc=run_tlc)

    def driver(suite, args, **kw):
        r = run_driver(suite, args, **kw)
        ctx.cmd_of = lambda path: r[3][int(path.rsplit(".", 1)[1]) >= SHARDS * 3 // 4]
        return r[:3]
    ctx.run_driver = driver
    viols, cover, notes = [], {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": 0}, []
    suites = {}
    cut = False
    prefetch(S.plan(prop, TIER))
    for name, tier in S.plan(prop, TIER):
        ctx.tier = tier
        v, c = S.SUITES[name](ctx)
        suites[name if tier == TIER else f"{name} ({tier})"] = c
        cut = cut or tier == TIER and c.get("cut", False)
        for k in cover:
            cover[k] += c.get(k, 0)
        viols += v
        if any(not x.get("finding") and prop in S.attribute(x, prop) for x in v):
            cut = True
            break
    mine, others, kf = [], [], {}
    knowns = known()
    for v in viols:
        k = next((k for k in knowns if v.get("finding") == k["id"]), None)
        if k:
            if k["property"] == prop:
                kf[k["id"]] = k
            continue
        (mine if prop in S.attribute(v, prop) else others).append(v)
    for k in kf.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for v in others[:3]:
        print(f"note: {v['suite']} {v.get('walk')}: {v['msg'][:200]} (judged by other checks: {', '.join(sorted(S.attribute(v, prop)))})")
    rep = None
    if mine:
        mine.sort(key=lambda v: (not v.get("shrunk"), len(v.get("log", []))))
        rd = os.path.join(WORK, "replay")
        os.makedirs(rd, exist_ok=True)
        rep = os.path.join(rd, f"{prop}.json")
        json.dump(mine[:10], open(rep, "w"), indent=1)
        v = mine[0]
        print(f"{v['suite']} {v.get('walk')}: {v['msg']}")
        for line in v.get("log", [])[-25:]:
            print("   ", line)
    cover.update({"exhaustive": not cut and not mine, "suites": suites})
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cover,
          "assumptions": S.ASSUMPTIONS, "wall_s": round(time.time() - t0, 1), "violations": len(mine)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if mine:
        print(f"VIOLATION property={prop} replay={rep}")
        return 1
    print(f"{prop}: held on everything explored ({cover['states']} states, {cover['transitions']} transitions, "
          f"{cover['traces_validated_against_impl']} walks, {cover['samples']} steps, {ev['wall_s']} s)")
    return 0


def replay(path):
    build()
    for v in json.load(open(path))[:3]:
        print(v["suite"], v.get("walk"), v["msg"])
        for line in v.get("log", []):
            print("   ", line)
        if v.get("cmd") and v.get("walk"):
            out = os.path.join(WORK, "replay", "again")
            cmd = list(v["cmd"])
            cmd[cmd.index("--out") + 1] = out
            cmd += ["--only", v["walk"]]
            for k in ("--from", "--to") + (() if v["walk"].startswith("plan/") else ("--shards",)):
                if k in cmd:
                    del cmd[cmd.index(k):cmd.index(k) + 2]
            for old in glob.glob(out + ".*"):
                os.remove(old)
            sh(cmd)
            if v["suite"] == "trace":
                ctx = S.Context(run_tlc=run_tlc, cmd_of=lambda path: cmd)
                for w in S.validate(ctx, [f for f in glob.glob(out + ".traces.*") if os.path.getsize(f)])[0]:
                    print("again:", w["msg"])
            for f in sorted(glob.glob(out + ".[0-9]*")):
                if re.fullmatch(r".*\.\d+", f):
                    for line in open(f):
                        if '"violation"' in line:
                            print("again:", json.loads(line)["msg"])
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    try:
        if sys.argv[1] == "--setup":
            build()
            return 0
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        return check(sys.argv[1])
    except (ToolError, RuntimeError) as e:
        print("TOOL ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
