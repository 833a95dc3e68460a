#!/usr/bin/env python3
"""Decides one property of rust-cp by its TLA+ specification.

  check.py ID              run the check of property ID (VERIF_SEED, VERIF_TIER from the environment)
  check.py --setup         build the driver once
  check.py --replay FILE   re-execute the history stored in a replay file and validate it again
  check.py --selftest [ID] corrupt recorded traces and show that the specification rejects them

Each check has two kinds of stage:
  model: TLC explores the algorithm-level specification exhaustively (small constants), checks its
         invariants and that it refines the abstract specification, and prints behaviours with the
         expected results; the driver steps them through the real code and compares every result.
  trace: the driver runs random histories against the real code and records every call; TLC accepts
         the recording only if each call with its result is a step of the abstract specification.
Exit codes: 0 held, 1 violation (VIOLATION line), 2 error of the check itself.
"""
import fcntl, filecmp, glob, hashlib, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from registry import PROPS, ASSUME  # noqa: E402

JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building the driver
def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(VERIF, "harness", "src")]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "harness", "Cargo.toml")]
    for r in roots:
        for d, _, fs in os.walk(r):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


KINDS = {"checked": ([], "debug"), "release": (["--release"], "release")}


def build(internal=False):
    """Build the driver against /repo, with overflow checks and debug assertions and as a release build;
    `internal` also enables the hooks (cfg cp_verif). Returns the two executables."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash() + ("i" if internal else "")
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(BUILD, "drv-" + key)
        exes = {k: os.path.join(out, "drv-" + k) for k in KINDS}
        if all(os.path.exists(x) for x in exes.values()):
            return exes
        old = sorted(glob.glob(os.path.join(BUILD, "drv-*")), key=os.path.getmtime)
        for o in old[:-4]:
            shutil.rmtree(o, ignore_errors=True)
        runs = []
        for k, (flags, sub) in KINDS.items():
            tgt = os.path.join(out, "target-" + k)
            env = dict(os.environ)
            env.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
                       CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=tgt,
                       RUSTFLAGS=("--cfg cp_verif " if internal else "") + "--cap-lints allow")
            if os.path.isdir("/root/.cargo/bin"):
                env["PATH"] = env.get("PATH", "") + ":/root/.cargo/bin"
            cmd = ["cargo", "build", "--offline", "--quiet"] + flags + (["--features", "internal"] if internal else [])
            runs.append((k, os.path.join(tgt, sub, "drv"), tgt, subprocess.Popen(
                cmd, cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        bad = ""
        for k, exe, tgt, p in runs:
            text = p.communicate()[0]
            if p.returncode != 0:
                bad = "building the driver (%s) against /repo failed:\n%s" % (k, text[-4000:])
        if bad:
            raise ToolError(bad)
        for k, exe, tgt, p in runs:
            os.replace(exe, exes[k])
            shutil.rmtree(tgt, ignore_errors=True)
        return exes


# ---------------------------------------------------------------- running the driver
def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def drv(ctx, mode, comp, inp, out, extra=(), kind="checked"):
    """Run the driver. Returns (summary, crashed_episode or None)."""
    def once(more):
        cmd = [ctx.exe[kind], mode, comp] + ([inp] if inp else []) + [out] + list(extra) + more
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                              preexec_fn=limit, timeout=ctx.budget)
    try:
        p = once([])
    except subprocess.TimeoutExpired:
        raise ToolError("driver exceeded %ds" % ctx.budget)
    if p.returncode in (0, 3):
        return json.loads(p.stdout.strip().splitlines()[-1]), None
    if p.returncode == 2 or p.returncode == 101:
        raise ToolError("driver: " + p.stderr[-2000:])
    # The code under test took the process down (stack overflow, abort, out of memory).
    care = out + ".careful"
    q = once(["--careful", care])
    if q.returncode in (0, 2, 3, 101):
        raise ToolError("driver died (%s) but not when re-run (%s): %s" % (p.returncode, q.returncode, p.stderr[-500:]))
    lines = [json.loads(x) for x in open(care)]
    m, evs = lines[0], []
    for e in lines[1:]:
        if evs and evs[-1]["st"] == "crash":
            evs.pop()
        evs.append(e)
    return {"episodes": 1, "events": len(evs), "bad": 1, "ops": {}}, {"m": m, "ev": evs, "step": len(evs)}


# ---------------------------------------------------------------- running TLC
def tlc(ctx, module, cfg_text, env=None, workers=8, extra=(), tag="", vectors=None, timeout=None):
    """Run TLC; the printed vectors ("V ...") go to the file `vectors`. Returns (rc, text, counts)."""
    wd = os.path.join(ctx.work, module + tag)
    os.makedirs(wd, exist_ok=True)
    cfg = os.path.join(wd, module + ".cfg")
    open(cfg, "w").write(cfg_text)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    # the queue in memory: the one on disk writes states from a thread of its own, a race on lazy values
    cmd = ["java", "-Xss64m", "-Xmx12g", "-XX:+UseParallelGC", "-Dtlc2.tool.queue.IStateQueue=MemStateQueue", "-cp", JAVA_CP, "-Djava.io.tmpdir=" + wd, "tlc2.TLC",
           "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", os.path.join(wd, "md"), "-config", cfg] + list(extra) + [
               os.path.join(SPEC, module + ".tla")]
    outp = os.path.join(wd, "out.txt")
    t0 = time.time()
    with open(outp, "w") as fo:
        try:
            p = subprocess.run(cmd, cwd=wd, env=e, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout or ctx.budget)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC on %s exceeded its time limit" % module)
    nvec = 0
    text = []
    vf = open(vectors, "w") if vectors else None
    with open(outp, errors="replace") as f:
        for line in f:
            if line.startswith('"V '):
                if vf:
                    vf.write(json.loads(line)[2:] + "\n")
                nvec += 1
            elif not line.startswith(("Parsing file", "Semantic processing")):
                text.append(line)
    if vf:
        vf.close()
    text = "".join(text)
    c = {"secs": round(time.time() - t0, 2), "vectors": nvec, "generated": 0, "distinct": 0, "depth": 0}
    m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found", text, re.M)
    if m:
        c["generated"], c["distinct"] = (int(x.replace(",", "")) for x in m[-1])
    m = re.search(r"depth of the complete state graph search is (\d+)", text)
    if m:
        c["depth"] = int(m.group(1))
    shutil.rmtree(os.path.join(wd, "md"), ignore_errors=True)
    return p.returncode, text, c


def set_consts(cfg_text, consts):
    for k, v in consts.items():
        v = re.sub(r"^(\d+) \.\. (\d+)$", lambda m: "{%s}" % ", ".join(map(str, range(int(m[1]), int(m[2]) + 1))), str(v))
        cfg_text, n = re.subn(r"(?m)^(\s*%s\s*(?:=|<-)).*$" % re.escape(k), lambda m: m.group(1) + " " + str(v), cfg_text)
        if n != 1:
            raise ToolError("constant %s not in cfg" % k)
    return cfg_text


def read_cfg(name):
    p = os.path.join(SPEC, name + ".cfg")
    return open(p if os.path.exists(p) else os.path.join(SPEC, "Trace.cfg")).read()


# ---------------------------------------------------------------- stages
class Ctx:
    pass


def store_replay(ctx, comp, module, ep, note, kind="checked"):
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, "replay-%s.json" % ctx.prop)
    json.dump({"property": ctx.prop, "component": comp, "trace_module": module, "build": kind,
               "note": note, "episode": ep},
              open(path, "w"), indent=None)
    return path


def describe(ev):
    s = json.dumps(ev, separators=(",", ":"))
    return s if len(s) < 400 else s[:400] + "..."


def stage_model(ctx, st):
    name = st["module"]
    consts = dict(st.get("consts", {}))
    if ctx.tier == "thorough":
        consts.update(st.get("thorough", {}))
    cfg = set_consts(read_cfg(st.get("cfg", name)), consts)
    vec = os.path.join(ctx.work, name + st.get("cfg", "") + ".vectors")
    rc, text, c = tlc(ctx, name, cfg, vectors=vec, tag=st.get("cfg", ""), extra=st.get("extra", ()),
                      workers=st.get("workers", 8))
    if rc != 0:
        raise ToolError("TLC rejects the specification %s (rc %d):\n%s" % (name, rc, text[-1800:]))
    res = {"kind": "model", "module": name, "constants": consts or "as in cfg", **c}
    ctx.states += c["distinct"]
    ctx.transitions += c["generated"]
    if c["vectors"] and st.get("fill"):
        # answers are not determined: execute the behaviours and let the trace specification judge
        first = None
        for kind in KINDS:
            out = vec + ".filled-" + kind
            s, crash = drv(ctx, "fill", st["comp"], vec, out, kind=kind)
            if crash is not None:
                open(out, "w").write(json.dumps({"m": crash["m"], "ev": crash["ev"]}) + "\n")
            if first is None or not filecmp.cmp(first, out, False):
                judge(ctx, st["fill"], st["comp"], out, s, crash, "-fill-" + kind, kind=kind)
            first = first or out
            ctx.traces += s["episodes"]
            ctx.calls += s["events"]
        res.update(replayed=s["episodes"], calls=s["events"], ops=s["ops"], builds=list(KINDS))
    elif c["vectors"] and "comp" in st:
        for kind in KINDS:
            out = vec + ".bad"
            s, crash = drv(ctx, "replay", st["comp"], vec, out, kind=kind)
            if crash is not None:
                what = "%s behaviour (%s build): the process died in %s" % (name, kind, describe(crash["ev"][-1]))
                raise Violation(what, store_replay(ctx, st["comp"], st.get("trace"), crash, what, kind))
            if s["bad"]:
                eps = [json.loads(x) for x in open(out)]
                ep = min(eps, key=lambda e: e["step"])
                what = "%s behaviour (%s build): call %d is %s, specification says %s" % (
                    name, kind, ep["step"], describe(ep["ev"][-1]), json.dumps(ep.get("expected", "a normal return")))
                raise Violation(what, store_replay(ctx, st["comp"], st.get("trace"), ep, what, kind))
            ctx.traces += s["episodes"]
            ctx.calls += s["events"]
        res.update(replayed=s["episodes"], calls=s["events"], ops=s["ops"], builds=list(KINDS))
        with open(vec) as f:
            for k, line in enumerate(f):
                if k == 7:
                    ctx.samples.append({"from": name, "behaviour": clip(json.loads(line))})
                    break
    elif "comp" in st:
        raise ToolError("%s printed no behaviours" % name)
    ctx.stages.append(res)


def clip(ep, n=14):
    e = {"m": ep["m"] if len(json.dumps(ep["m"])) < 400 else "...", "calls": len(ep["ev"])}
    e["ev"] = [x if len(json.dumps(x)) < 500 else {"op": x["op"], "...": "long"} for x in ep["ev"][:n]]
    return e


def validate(ctx, module, path, cfg_name, tag="", timeout=None):
    """Returns None if every episode is accepted, else (ep index, event index)."""
    rc, text, c = tlc(ctx, module, read_cfg(cfg_name), env={"TRACE": path}, tag=tag, timeout=timeout)
    if rc == 0:
        return None, c
    if rc in (11, 12, 13) or "Deadlock reached" in text or "is violated" in text:
        eps = re.findall(r"^/\\ ep = (\d+)", text, re.M)
        ls = re.findall(r"^/\\ l = (\d+)", text, re.M)
        if eps and ls:
            return (int(eps[-1]), int(ls[-1]), "invariant" if "is violated" in text else "deadlock"), c
    raise ToolError("TLC failed on %s (rc %d):\n%s" % (module, rc, text[-1800:]))


def judge(ctx, cfg, comp, out, s, crash, tag, module=None, kind="checked"):
    """Validate the recording `out`; raise Violation for the first episode the specification rejects."""
    module = module or cfg
    bad, c = validate(ctx, module, out, cfg, tag=tag)
    if bad is None and (crash is not None or s.get("hang")):
        raise ToolError("%s accepted an episode in which a call did not return" % module)
    if bad is not None:
        with open(out) as f:
            ep = json.loads(f.read().split("\n")[bad[0] - 1])
        step = min(bad[1], len(ep["ev"]))
        ep["ev"] = ep["ev"][:step]
        ep["step"] = step
        what = "%s does not allow call %d (%s build): %s" % (module, step, kind, describe(ep["ev"][-1]))
        raise Violation(what, store_replay(ctx, comp, cfg, ep, what, kind))
    return c


def stage_trace(ctx, st):
    module, comp = st["module"], st["comp"]
    n = st["n"][1 if ctx.tier == "thorough" else 0]
    chunk = st.get("chunk", 4000)
    total = {"kind": "trace", "module": module, "episodes": 0, "calls": 0, "ops": {}, "generated": 0, "distinct": 0,
             "secs": 0}
    k = 0
    done = 0
    while done < n:
        if ctx.tier == "thorough" and time.time() - ctx.t0 > ctx.soft:
            total["stopped_by_time"] = True
            break
        m = min(chunk, n - done)
        opts = ["--seed", str(ctx.seed * 7919 + k * 104729 + st.get("salt", 0)), "--n", str(m), "--tier", ctx.tier]
        base, c = None, None
        for kind in KINDS:
            out = os.path.join(ctx.work, "%s-%s-%d-%s.ndjson" % (comp, module, k, kind))
            s, crash = drv(ctx, "record", comp, None, out, opts, kind=kind)
            if crash is not None:
                open(out, "w").write(json.dumps({"m": crash["m"], "ev": crash["ev"]}) + "\n")
            # a release build that answers exactly as the checked build did is judged already
            if base is None or not filecmp.cmp(base, out, False):
                c = judge(ctx, st.get("cfg", module), comp, out, s, crash, "-%d-%s" % (k, kind), module, kind)
            else:
                total["release_identical"] = total.get("release_identical", 0) + s["episodes"]
            base = base or out
        total["episodes"] += s["episodes"]
        total["calls"] += s["events"]
        for o, v in s["ops"].items():
            total["ops"][o] = total["ops"].get(o, 0) + v
        total["generated"] += c["generated"]
        total["distinct"] += c["distinct"]
        total["secs"] = round(total["secs"] + c["secs"], 2)
        if k == 0:
            lines = open(base).read().splitlines()
            e = min((lines[i] for i in range(min(60, len(lines)))), key=lambda x: abs(len(x) - 900))
            ctx.samples.append({"from": module, "history": clip(json.loads(e))})
        for f in {base, out}:
            os.remove(f)
        done += m
        k += 1
    ctx.states += total["distinct"]
    ctx.transitions += total["generated"]
    ctx.traces += total["episodes"]
    ctx.calls += total["calls"]
    ctx.stages.append(total)


STAGES = {"model": stage_model, "trace": stage_trace}


def context(prop):
    ctx = Ctx()
    ctx.prop = prop
    ctx.tier = os.environ.get("VERIF_TIER", "quick")
    ctx.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx.t0 = time.time()
    ctx.budget = 780 if ctx.tier == "quick" else 4 * 3600
    ctx.soft = 3600
    ctx.states = ctx.transitions = ctx.traces = ctx.calls = 0
    ctx.stages, ctx.samples = [], []
    ctx.work = os.path.join(BUILD, "work-%s-%d" % (prop, os.getpid()))
    os.makedirs(ctx.work, exist_ok=True)
    return ctx


def check(prop):
    spec = PROPS[prop]
    ctx = context(prop)
    rc, violations = 0, 0
    try:
        ctx.exe = build(spec.get("internal", False))
        for st in spec["stages"]:
            STAGES[st["kind"]](ctx, st)
            s = ctx.stages[-1]
            log("%s: %s %s: %s states, %s, %.1fs" % (
                prop, s["kind"], s["module"], s["distinct"],
                "%s behaviours replayed" % s.get("replayed", 0) if s["kind"] == "model" else
                "%s histories (%s calls) validated" % (s["episodes"], s["calls"]), s["secs"]))
        log("%s: held on everything explored (%.1fs)" % (prop, time.time() - ctx.t0))
    except Violation as v:
        rc, violations = 1, 1
        log("%s: %s" % (prop, v.what))
        log("VIOLATION property=%s replay=%s" % (prop, v.replay))
        ctx.samples.append({"violation": v.what})
    except ToolError as e:
        rc = 2
        log("ERROR property=%s %s" % (prop, e))
    finally:
        if not os.environ.get("KEEP"):
            shutil.rmtree(ctx.work, ignore_errors=True)
    if rc != 2:
        ev = {
            "property": prop, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking",
            "coverage": {
                "states": ctx.states, "transitions": ctx.transitions,
                "traces_validated_against_impl": ctx.traces, "implementation_calls_checked": ctx.calls,
                "stages": ctx.stages, "samples": ctx.samples,
                "exhaustive": False,
                "explanation": spec["explain"],
            },
            "assumptions": ASSUME + spec.get("assume", []),
            "wall_s": round(time.time() - ctx.t0, 2), "violations": violations,
        }
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, ".%s.tmp" % prop)
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(EVID, prop + ".json"))
    return rc


def replay(path):
    d = json.load(open(path))
    ctx = context(d["property"])
    ctx.exe = build(PROPS[d["property"]].get("internal", False))
    src = os.path.join(ctx.work, "in.ndjson")
    out = os.path.join(ctx.work, "out.ndjson")
    open(src, "w").write(json.dumps({"m": d["episode"]["m"], "ev": d["episode"]["ev"]}) + "\n")
    s, crash = drv(ctx, "fill", d["component"], src, out, kind=d.get("build", "checked"))
    got = crash or json.loads(open(out).readline())
    log("note: " + d["note"])
    for k, e in enumerate(got["ev"]):
        log("%4d %s" % (k + 1, describe(e)))
    rc = 0
    if d.get("trace_module"):
        open(out, "w").write(json.dumps({"m": got["m"], "ev": got["ev"]}) + "\n")
        module = re.sub(r"-.*", "", d["trace_module"])
        bad, _ = validate(ctx, module, out, d["trace_module"])
        log("specification: " + ("accepts" if bad is None else "rejects call %d" % bad[1]))
        rc = 0 if bad is None else 1
    shutil.rmtree(ctx.work, ignore_errors=True)
    return rc


def mutate(ep, rng):
    """Corrupt one recorded result."""
    idx = [k for k, e in enumerate(ep["ev"]) if e["r"] or e["st"] == "panic"]
    if not idx:
        return None
    k = rng.choice(idx)
    e = ep["ev"][k]
    if e["st"] == "panic":
        e["st"] = "ok"
        return k

    def leaf(x):
        js = [j for j in range(len(x)) if not isinstance(x[j], list) or x[j]]
        if not js:
            return False
        j = rng.choice(js)
        if isinstance(x[j], list):
            return leaf(x[j])
        if not isinstance(x[j], int):
            return False
        x[j] = 1 - x[j] if x[j] in (0, 1) else x[j] + rng.choice([-1, 1])
        return True
    return k if leaf(e["r"]) else None


def selftest(props):
    """Every trace specification must reject recordings in which one result was altered."""
    rng = random.Random(7)
    rc = 0
    for prop in props:
        for st in PROPS[prop]["stages"]:
            if st["kind"] != "trace":
                continue
            ctx = context(prop)
            ctx.exe = build(PROPS[prop].get("internal", False))
            out = os.path.join(ctx.work, "st.ndjson")
            drv(ctx, "record", st["comp"], None, out, ["--seed", "11", "--n", "120", "--tier", "quick"])
            eps = [json.loads(x) for x in open(out)]
            rng.shuffle(eps)
            hit = tot = 0
            for ep in eps:
                if tot == 10:
                    break
                k = mutate(ep, rng)
                if k is None:
                    continue
                tot += 1
                open(out, "w").write(json.dumps(ep) + "\n")
                try:
                    bad, _ = validate(ctx, st["module"], out, st.get("cfg", st["module"]), tag="-st%d" % tot)
                    if bad is not None and bad[1] >= k + 1:
                        hit += 1
                    else:
                        log("   survived: %s call %d %s" % (ep["m"], k + 1, describe(ep["ev"][k])))
                except ToolError as e:
                    log("   tool error on: %s\n%s" % (describe(ep["ev"][k]), str(e)[-300:]))
            log("selftest %s %s: %d of %d altered recordings rejected" % (prop, st["module"], hit, tot))
            if hit == 0:
                rc = 1
            shutil.rmtree(ctx.work, ignore_errors=True)
    return rc


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "--setup":
            log("drivers built: %s" % build())
            try:
                log("drivers with hooks built: %s" % build(True))
            except ToolError as e:
                log("WARNING " + str(e))
            return 0
        if a[0] == "--replay":
            return replay(a[1])
        if a[0] == "--selftest":
            return selftest(a[1:] or sorted(PROPS))
        return check(a[0])
    except ToolError as e:
        log("ERROR " + str(e))
        return 2


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:  # an error of the check, never a violation
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
