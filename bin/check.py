#!/usr/bin/env python3
"""Runs the check of one property: check.py <property>  (VERIF_TIER, VERIF_SEED in the environment)
          or re-runs a saved counterexample: check.py --replay <file>

A check consists of steps (see plan.py):
  MC     TLC explores the specification on its own; an invariant or property that fails is an error
         of the machinery (exit 2), as the code is not involved.
  TRACE  a driver runs the real code and writes one JSON line per run; TLC validates each line
         against the specification (one initial state per line). A line that is not accepted is a
         violation, and so is a driver that crashes or hangs.
  GEN    TLC generates behaviours of the specification; a driver replays them into the real code and
         writes what it observed, which TLC validates as in TRACE.
"""
import glob, json, os, re, resource, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(ROOT, "work")
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.dir = os.path.join(WORK, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            shutil.copy(f, self.dir)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.violations = []
        self.samples = []
        self.notes = []
        self.nrep = 0
        self.built = set()

    def violation(self, what, payload):
        self.nrep += 1
        d = os.path.join(WORK, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, self.nrep))
        payload = dict(payload)
        payload["property"] = self.prop
        payload["what"] = what
        with open(path, "w") as f:
            json.dump(payload, f)
        self.violations.append((what, path))
        print("  rejected: %s" % what)


def run(cmd, timeout, env=None, cwd=None, out=None, limit=None):
    """-> (exit status or None when it timed out, output)"""
    e = dict(os.environ, RUST_BACKTRACE="0")   # printing the backtrace of a panic is slow
    if env:
        e.update(env)

    def pre():
        os.setsid()
        if limit:
            resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    logp = out or os.path.join(WORK, "cmd.log")
    with open(logp, "wb") as log:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=log, stderr=subprocess.STDOUT, preexec_fn=pre, stdin=subprocess.DEVNULL)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
            rc = None
    with open(logp, "rb") as log:
        return rc, log.read().decode("utf8", "replace")


def cargo(ctx, args, what, manifest):
    env = {"CARGO_TARGET_DIR": TARGET, "RUSTFLAGS": "-Awarnings", "CARGO_NET_OFFLINE": "true"}
    # never trust time stamps: the crate under test is always rebuilt by the first build of a check
    if not ctx.built:
        for d in glob.glob(os.path.join(TARGET, "*", ".fingerprint", "bitboost-*")):
            shutil.rmtree(d, ignore_errors=True)
    rc, text = run(["cargo", "build", "--offline", "--manifest-path", manifest] + args, 600, env, cwd=ROOT,
                   out=os.path.join(ctx.dir, "build-%s.log" % what))
    if rc != 0:
        print(text[-3000:])
        raise ToolError("cannot build %s" % what)


def build(ctx, binary):
    if binary not in ctx.built:
        if binary == "run_bitboost":   # the binary of the crate itself
            cargo(ctx, ["--bin", "run_bitboost"], "run_bitboost", "/repo/Cargo.toml")
        elif binary == "libbitboost.so":   # the shared library, and the program that writes the table of settings
            cargo(ctx, ["--lib", "--bin", "bitboost_gen_config_csv"], "lib", "/repo/Cargo.toml")
        else:
            cargo(ctx, ["--bin", binary], binary, os.path.join(ROOT, "harness", "Cargo.toml"))
        ctx.built.add(binary)
    return os.path.join(TARGET, "debug", binary)


def write_cfg(path, lines, tags=None, loud=None, consts=None):
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
        c = dict(consts or {})
        if tags is not None:
            c["Tags"] = "{%s}" % ", ".join('"%s"' % t for t in tags)
        if loud is not None:
            c["Loud"] = "TRUE" if loud else "FALSE"
        if c:
            f.write("CONSTANTS\n" + "".join("  %s %s\n" % (k, v) if str(v).startswith("<-") else "  %s = %s\n" % (k, v) for k, v in c.items()))


def tlc(ctx, module, cfg, timeout, env=None, workers=NCPU, log=None, extra=()):
    meta = os.path.join(ctx.dir, "states-%s" % module)
    shutil.rmtree(meta, ignore_errors=True)
    env = dict(env or {}, JAVA_TOOL_OPTIONS="-Xss256m")   # deep recursion over long sequences
    rc, text = run(["tlc", "-workers", str(workers), "-config", cfg, "-metadir", meta, "-noGenerateSpecTE"]
                   + list(extra) + [module + ".tla"], timeout, env, cwd=ctx.dir,
                   out=os.path.join(ctx.dir, log or module + ".log"))
    shutil.rmtree(meta, ignore_errors=True)
    if rc is None:
        raise ToolError("TLC on %s ran out of time" % module)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
    if m:
        ctx.transitions += int(m[-1][0])
        ctx.states += int(m[-1][1])
    return rc, text


def cfg_mc(step):
    lines = ["SPECIFICATION %s" % step["spec"]] if "spec" in step else ["INIT %s" % step["init"], "NEXT %s" % step["next"]]
    if step.get("inv"):
        lines.append("INVARIANTS " + " ".join(step["inv"]))
    for p in step.get("props", []):
        lines.append("PROPERTY " + p)
    if step.get("view"):
        lines.append("VIEW " + step["view"])
    if step.get("constraint"):
        lines.append("CONSTRAINT " + step["constraint"])
    lines.append("CHECK_DEADLOCK %s" % ("TRUE" if step.get("deadlock") else "FALSE"))
    return lines


def do_mc(ctx, step):
    t = time.time()
    cfg = os.path.join(ctx.dir, "mc.cfg")
    write_cfg(cfg, cfg_mc(step), step.get("tags"), False if step.get("tags") is not None else None, step.get("consts"))
    s0 = ctx.states
    rc, text = tlc(ctx, step["module"], cfg, step.get("timeout", 800), log="mc-%s.log" % step["module"])
    if rc != 0:
        print(text[-3000:])
        raise ToolError("model checking of %s failed (%s)" % (step["module"], rc))
    print("  MC %s %s: %d distinct states, %.1f s" % (step["module"], step.get("consts", ""), ctx.states - s0, time.time() - t))


def do_gen(ctx, step):
    """TLC writes behaviours (the module prints <<"GEN", json>>) to a file for the driver."""
    t = time.time()
    cfg = os.path.join(ctx.dir, "gen.cfg")
    write_cfg(cfg, cfg_mc(step), step.get("tags"), False if step.get("tags") is not None else None, step.get("consts"))
    extra = []
    if step.get("simulate"):
        extra = ["-simulate", "num=%d" % step["simulate"], "-depth", str(step.get("depth", 20)), "-seed", str(SEED * 7919 + 13)]
    rc, text = tlc(ctx, step["module"], cfg, step.get("timeout", 800), log="gen-%s.log" % step["module"], extra=extra,
                   workers=1 if step.get("simulate") else NCPU)
    if rc != 0:
        print(text[-3000:])
        raise ToolError("generation with %s failed (%s)" % (step["module"], rc))
    out = os.path.join(ctx.dir, step["out"])
    n = 0
    seen = set()
    with open(out, "w") as f:
        for m in re.finditer(r'^<<"GEN", "(.*)">>$', text, re.M):
            line = m.group(1).replace('\\"', '"')
            if line not in seen:
                seen.add(line)
                f.write(line + "\n")
                n += 1
    if n == 0:
        raise ToolError("%s generated nothing" % step["module"])
    print("  GEN %s: %d behaviours, %.1f s" % (step["module"], n, time.time() - t))
    return n


def do_trace(ctx, step):
    tier = step.get("thorough" if TIER == "thorough" else "quick", {})
    count = tier.get("count", step.get("count", 10))
    chunk = step.get("chunk", 4000)
    if "gen" in step or count <= chunk:
        return trace_runs(ctx, step, tier, 0, count)
    for lo in range(0, count, chunk):
        trace_runs(ctx, step, tier, lo, min(chunk, count - lo))
        if ctx.violations:
            break


def trace_runs(ctx, step, tier, first, count):
    t = time.time()
    drv = build(ctx, step["driver"])
    tb = time.time()
    name = "%s-%s" % (step["driver"], step.get("mode", "x"))
    out = os.path.join(ctx.dir, name + ".ndjson")
    if os.path.exists(out):
        os.remove(out)
    gen = os.path.join(ctx.dir, step["gen"]) if "gen" in step else None
    args = ["out=" + out, "seed=%d" % SEED, "mode=%s" % step.get("mode", ""), "from=%d" % first, "count=%d" % count]
    if gen:
        args.append("gen=" + gen)
    env = {"BB_SCRATCH": os.path.join(ctx.dir, "scratch")}
    if step.get("cli"):
        env["BB_CLI"] = build(ctx, "run_bitboost")
    if step["driver"] == "py":
        env["BB_LIB"] = build(ctx, "libbitboost.so")
        env["BB_TABLE"] = os.path.join(TARGET, "debug", "bitboost_gen_config_csv")
        env["BB_PY"] = os.path.join(ROOT, "harness", "py")
    rc, text = run([drv] + args, tier.get("timeout", step.get("timeout", 240)), env=env,
                   out=os.path.join(ctx.dir, name + ".log"), limit=16 << 30)
    lines = open(out, "rb").read().decode("utf8", "replace").split("\n")[:-1] if os.path.exists(out) else []
    rep = {"driver": step["driver"], "args": args, "spec": step["spec"], "tags": step.get("tags"), "consts": step.get("consts")}
    if rc != 0:
        ctx.violation("%s %s after %d runs: %s" % (name, "hangs" if rc is None else "ends with status %s" % rc, len(lines), text[-300:].replace("\n", " ")), rep)
    if not lines:
        if rc == 0:
            raise ToolError("driver %s wrote nothing" % name)
        return
    if rc != 0 and not all_complete(lines):
        lines = lines[:-1]
        if not lines:
            return
        with open(out, "w") as f:
            f.write("\n".join(lines) + "\n")
    td = time.time()
    bad = validate(ctx, step, out, len(lines), name, first)
    for k, msg in bad[:5]:
        r = dict(rep)
        r["line"] = k
        r["trace"] = lines[k - 1][:200000]
        ctx.violation("%s run %d: %s" % (name, first + k, msg), r)
    ctx.traces += len(lines) - len(bad)
    ok = [k for k in range(1, len(lines) + 1) if k not in {b[0] for b in bad}]
    if ok and first == 0:
        s = min(ok[:20], key=lambda k: len(lines[k - 1]))
        ctx.samples.append({"driver": name, "run": s, "trace": lines[s - 1][:1500]})
    print("  TRACE %s: %d of %d runs accepted by %s (build %.1f s, run %.1f s, validate %.1f s)"
          % (name, len(lines) - len(bad), len(lines), step["spec"], tb - t, td - tb, time.time() - td))


def all_complete(lines):
    try:
        json.loads(lines[-1])
        return True
    except ValueError:
        return False


def validate(ctx, step, trace, n, name, first=0):
    """-> [(line number, reason)] of the lines that are rejected"""
    cfg = os.path.join(ctx.dir, name + ".cfg")
    write_cfg(cfg, ["INIT TInit", "NEXT TNext", "CHECK_DEADLOCK FALSE"], step.get("tags", [ctx.prop]), True, step.get("consts"))
    rc, text = tlc(ctx, step["spec"], cfg, step.get("tlc_timeout", 850), {"TRACE": trace}, log=name + ".tlc.log")
    acc = {int(x) for x in re.findall(r'^<<"ACCEPT", (\d+)>>', text, re.M)}
    missing = [k for k in range(1, n + 1) if k not in acc]
    if rc == 0:
        return [(k, reason(text, first + k) if i < 5 else "") for i, k in enumerate(missing)]
    if rc >= 150 and not acc and not re.search(r"Computed|initial state", text):
        print(text[-3000:])
        raise ToolError("TLC on %s: exit %s" % (step["spec"], rc))
    # an evaluation error: which runs cause it?
    lines = open(trace).read().split("\n")
    bad = []
    for k in missing[:40]:
        one = trace + ".one"
        with open(one, "w") as f:
            f.write(lines[k - 1] + "\n")
        rc1, text1 = tlc(ctx, step["spec"], cfg, 300, {"TRACE": one}, workers=1, log=name + ".one.log")
        if rc1 == 0 and '<<"ACCEPT", 1>>' in text1:
            continue
        if rc1 == 0:
            bad.append((k, reason(text1, first + k)))
        else:
            m = re.search(r"Error: (.*?)(?:\n\n|\Z)", text1, re.S)
            bad.append((k, "the specification cannot follow this run (%s)" % (m.group(1)[:300].replace("\n", " ") if m else rc1)))
        if len(bad) >= 3:
            break
    if not bad:
        print(text[-3000:])
        raise ToolError("TLC on %s: exit %s, but no single run causes it" % (step["spec"], rc))
    return bad


def reason(text, k):
    m = re.findall(r'^<<\s*"REJECT",\s*(.*(?:\n(?!<<|[A-Z]).*)*)', text, re.M)
    own = [x for x in m if re.match(r'"[^"]*",\s*%d\b' % (k - 1), x)]   # runs are numbered from 0 in the records
    x = (own or m or ["no step of the specification explains the run"])[0]
    return re.sub(r"\s+", " ", x)[:400]


def known(prop):
    path = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) match=\"([^\"]*)\" (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    t = time.time()
    ctx = Ctx(prop)
    print("property %s, tier %s, seed %d" % (prop, TIER, SEED))
    err = None
    try:
        for step in plan.steps(prop, TIER):
            {"MC": do_mc, "GEN": do_gen, "TRACE": do_trace}[step["kind"]](ctx, step)
            if ctx.violations and time.time() - t > 300:
                break
    except ToolError as e:
        err = str(e)
    ks = known(prop)
    new = [v for v in ctx.violations if not any(re.search(m, v[0]) for m, _ in ks)]
    for m, text in ks:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": plan.LEVEL.get(prop, "model_checking"),
          "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                       "traces_validated_against_impl": ctx.traces, "samples": ctx.samples or ["none"]},
          "assumptions": plan.ASSUMPTIONS.get(prop, []), "wall_s": round(time.time() - t, 2), "violations": len(new)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for f in glob.glob(os.path.join(ctx.dir, "*.ndjson")) + glob.glob(os.path.join(ctx.dir, "*.one")):
        if not new and not os.environ.get("BB_KEEP"):
            os.remove(f)
    print("%.1f s, %d states, %d runs of the code accepted" % (time.time() - t, ctx.states, ctx.traces))
    if new:
        for what, path in new[:10]:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if err:
        print("ERROR: " + err)
        return 2
    return 0


def replay(path):
    r = json.load(open(path))
    ctx = Ctx(r["property"] + "-replay")
    ctx.prop = r["property"]
    print("what was found: " + r["what"])
    if "trace" not in r:
        drv = build(ctx, r["driver"])
        rc, text = run([drv] + r["args"], 600, env={"BB_SCRATCH": os.path.join(ctx.dir, "scratch"), "BB_CLI": build(ctx, "run_bitboost")})
        print(text[-2000:])
        return 0 if rc == 0 else 1
    one = os.path.join(ctx.dir, "one.ndjson")
    open(one, "w").write(r["trace"] + "\n")
    bad = validate(ctx, {"spec": r["spec"], "tags": r["tags"] or [r["property"]], "consts": r["consts"]}, one, 1, "replay")
    for _, msg in bad:
        print("rejected: " + msg)
    return 1 if bad else 0


if __name__ == "__main__":
    os.makedirs(WORK, exist_ok=True)
    sys.exit(main())
