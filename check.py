#!/usr/bin/env python3
"""Model-based conformance checks for ext4-view-rs.

  check.py PROPERTY            run the check (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py --replay FILE       re-run one recorded violation
  check.py --setup             build the harness

A check (1) builds the harness against /repo's working tree, (2) runs TLC on the
property's specifications (which checks the design invariants and emits
scenarios), (3) replays the scenarios through the real library and/or records
traces of the real library and validates them with TLC, (4) writes
evidence/<id>.json.
"""
import hashlib, json, os, random, re, resource, shutil, subprocess, sys, time, threading

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
WORK = os.path.join(HERE, "work")
NPROC = min(8, os.cpu_count() or 1)

def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["RUSTUP_AUTO_INSTALL"] = "0"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "JAVA_TOOL_OPTIONS"):
        e.pop(k, None)
    return e

class ToolError(Exception):
    pass

def repo_state():
    """A digest of the repository's sources (cargo itself goes by their mtimes)."""
    m = re.search(r'path = "([^"]+)"', open(os.path.join(HERE, "harness/Cargo.toml")).read())
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(m.group(1), "src"))):
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode() + b"\0" + hashlib.sha256(open(p, "rb").read()).digest())
    return h.hexdigest()

def build():
    t = time.time()
    state, seen = repo_state(), os.path.join(HERE, "harness/target/repo-state")
    if not os.path.exists(seen) or open(seen).read() != state:
        subprocess.run(["cargo", "clean", "--release", "--offline", "-p", "ext4-view"], cwd=os.path.join(HERE, "harness"),
                       env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--locked"],
                       cwd=os.path.join(HERE, "harness"), env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout)
        raise ToolError("harness build failed")
    with open(seen, "w") as f:
        f.write(state)
    return time.time() - t

BIN = os.path.join(HERE, "harness/target/release/ext4conform")

# ---------------------------------------------------------------- TLC
def tlc(module, cfg, wd, extra=(), timeout=800, workers=NPROC, envextra=None):
    """Run TLC; returns (emitted lines, stats)."""
    md = os.path.join(wd, "md-" + os.path.basename(cfg))
    shutil.rmtree(md, ignore_errors=True)
    os.makedirs(md)
    out = os.path.join(wd, os.path.basename(cfg) + ".out")
    e = env()
    e["JAVA_TOOL_OPTIONS"] = "-Xmx6g -Xss16m"
    e.update(envextra or {})
    t = time.time()
    with open(out, "w") as f:
        try:
            r = subprocess.run(["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md, "-config", cfg, *extra, module + ".tla"],
                               cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module} {cfg}")
    shutil.rmtree(md, ignore_errors=True)
    lines, log = [], []
    with open(out) as f:
        for l in f:
            if l.startswith('"@@'):
                # PrintT prints the string as a TLA+ literal.
                lines.append(l.rstrip("\n")[3:-1].replace('\\"', '"').replace("\\\\", "\\"))
            else:
                log.append(l)
    log = "".join(log)
    st = {"module": module, "cfg": os.path.basename(cfg), "seconds": round(time.time() - t, 2), "rc": rc}
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", log)
    if m:
        st["transitions"], st["states"] = int(m.group(1)), int(m.group(2))
    m = re.search(r"depth of the complete state graph search is (\d+)", log)
    if m:
        st["depth"] = int(m.group(1))
    os.unlink(out)
    return lines, st, log

def tlc_ok(module, cfg, wd, **kw):
    lines, st, log = tlc(module, cfg, wd, **kw)
    if st["rc"] != 0:
        sys.stderr.write(log[-6000:])
        raise ToolError(f"TLC failed on {module} with {cfg} (rc {st['rc']})")
    return lines, st

# ---------------------------------------------------------------- replay
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def replay(module, prop, scenarios, seed, tier, wd, timeout=30, only=None, traces=None):
    """Replay (idx, json) scenarios. Returns (failures, counters, tool_errors)."""
    shards = [[] for _ in range(NPROC if only is None else 1)]
    for k, x in enumerate(scenarios):
        shards[k % len(shards)].append(x)
    fails, counters, tool = [], {}, []
    lock = threading.Lock()
    t0, aborts, stop, first = time.time(), [0], [False], [None]

    def watch(p):
        # Once there is a failure to report, do not grind through thousands
        # more (each hang costs a whole watchdog period).
        while p.poll() is None:
            if fails and first[0] is None:
                first[0] = time.time()
            if fails and (aborts[0] >= 6 or (aborts[0] and time.time() - first[0] > 60) or time.time() - t0 > 240):
                stop[0] = True
                p.kill()
                return
            time.sleep(0.2)

    def worker(k, items):
        path = os.path.join(wd, f"{module}.{k}.nd")
        with open(path, "w") as f:
            for idx, js in items:
                f.write(f"{idx}\t{js}\n")
        start = 0
        while start < len(items):
            cmd = [BIN, "replay", module, path, "--seed", str(seed), "--tier", tier, "--start", str(start),
                   "--timeout", str(timeout), "--prop", prop]
            if only is not None:
                cmd += ["--only", str(only)]
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env(), preexec_fn=limits)
            last, done, reported = None, False, False
            err = []
            th = threading.Thread(target=lambda: err.append(p.stderr.read()))
            th.start()
            threading.Thread(target=watch, args=(p,), daemon=True).start()
            for l in p.stdout:
                try:
                    v = json.loads(l)
                except ValueError:
                    continue
                if "s" in v:
                    last, reported = v, False
                elif "trace" in v:
                    if traces is not None:
                        with lock:
                            traces.append(v["trace"])
                elif "fail" in v:
                    reported = True
                    with lock:
                        fails.append(v)
                elif "tool_error" in v:
                    with lock:
                        tool.append(v)
                elif v.get("done"):
                    done = True
                    with lock:
                        for c, n in v["counters"].items():
                            counters[c] = counters.get(c, 0) + n
            p.wait()
            th.join()
            if done or stop[0]:
                break
            aborts[0] += 1
            if last is None:
                with lock:
                    tool.append({"tool_error": "harness died before the first scenario: " + (err[0] if err else "")[-500:]})
                break
            if not reported:
                with lock:
                    fails.append({"i": last["i"], "fail": f"process ended abnormally (status {p.returncode}): " + (err[0] if err else "").strip()[-300:], "abort": True})
            start = last["s"] + 1
        os.unlink(path)

    ts = [threading.Thread(target=worker, args=(k, it)) for k, it in enumerate(shards) if it]
    for t in ts: t.start()
    for t in ts: t.join()
    return fails, counters, tool

def sample(lines, limit, seed):
    """Deterministic: the emitted order depends on TLC's scheduling."""
    lines = sorted(set(lines))
    total = len(lines)
    if limit and total > limit:
        lines = random.Random(seed).sample(lines, limit)
        lines.sort()
    return lines, total

# ---------------------------------------------------------------- known findings
def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == prop and k.get("status") == "known"]

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.wd = os.path.join(WORK, prop)
        shutil.rmtree(self.wd, ignore_errors=True)
        os.makedirs(self.wd)
        self.states = self.transitions = self.traces = 0
        self.tlc_runs, self.counters, self.samples = [], {}, []
        self.fails, self.assumptions = [], []
        self.scen_total = self.scen_run = 0
        self.kf = known_findings(prop)
        self.kf_hit = {}
        self.notes = []
        self.t0 = time.time()
    @property
    def thorough(self):
        return self.tier == "thorough"
    def cfg(self, name):
        """spec/NAME.cfg, or spec/NAME.thorough.cfg in the thorough tier if present."""
        t = os.path.join(SPEC, name + ".thorough.cfg")
        if self.thorough and os.path.exists(t):
            return t
        return os.path.join(SPEC, name + ".cfg")
    def note_tlc(self, st):
        self.tlc_runs.append(st)
        self.states += st.get("states", 0)
        self.transitions += st.get("transitions", 0)
    def model(self, module, cfgname=None, **kw):
        lines, st = tlc_ok(module, self.cfg(cfgname or module), self.wd, **kw)
        self.note_tlc(st)
        return lines
    def simulate(self, module, cfgname, num, num_thorough, depth, salt=0):
        """Random behaviours of the specification (TLC simulation mode)."""
        n = num_thorough if self.thorough else num
        lines, st = tlc_ok(module, self.cfg(cfgname), self.wd, workers=1,
                           extra=("-simulate", f"num={n}", "-depth", str(depth), "-seed", str(self.seed + salt)))
        st["simulated"] = n
        self.note_tlc(st)
        return lines
    aborted = False
    def run(self, module, lines, limit=None, timeout=30, seed_salt=0, reps=1, validate=None):
        """Replay scenarios on the library; with `validate`, check the recorded
        executions against that trace specification."""
        if self.aborted:
            # The library hung or crashed the process in an earlier run of this
            # check: there is a violation to report, do not pay for more.
            return []
        if isinstance(limit, tuple):
            limit = limit[1] if self.thorough else limit[0]
        lines, total = sample(lines, limit, self.seed + seed_salt)
        if not lines:
            raise ToolError(f"no scenarios for {module}")
        if isinstance(reps, tuple):
            reps = reps[1] if self.thorough else reps[0]
        # A scenario's concretisation is drawn from (seed, index): repeating it
        # explores other concretisations of the same abstract behaviour.
        lines = lines * reps
        scen = list(enumerate(lines))
        traces = [] if validate else None
        fails, counters, tool = replay(module, self.prop, scen, self.seed, self.tier, self.wd, timeout, traces=traces)
        if tool:
            raise ToolError(f"{module}: {tool[0]}")
        for c, n in counters.items():
            c = f"{module}.{c}"
            self.counters[c] = self.counters.get(c, 0) + n
        self.scen_total += total
        self.scen_run += len(lines) // reps
        self.traces += len(lines)
        for i in (0, len(lines) // 2):
            self.samples.append({"adapter": module, "scenario": json.loads(lines[i]) if len(lines[i]) < 1500 else lines[i][:1500]})
        if validate and not tool:
            bad = {f["i"] for f in fails}
            fails = fails + self.validate(validate, [t for t in traces if t["id"] not in bad])
        for f in fails:
            self.report(module, f, lines[f["i"]])
            if f.get("hang") or f["fail"].startswith("process ended abnormally"):
                self.aborted = True
        return fails
    def validate(self, spec, traces):
        """Every recorded execution must be a behaviour of the specification."""
        if not traces:
            return []
        traces.sort(key=lambda t: t["id"])
        shards = [traces[k::NPROC] for k in range(NPROC)]
        cfg = os.path.join(SPEC, spec + ".cfg")
        accepted, errs = set(), []
        lock = threading.Lock()
        def check(k, part, progress):
            f = os.path.join(self.wd, f"{spec}.{k}.nd")
            with open(f, "w") as o:
                for t in part:
                    o.write(json.dumps(t) + "\n")
            wd = os.path.join(self.wd, f"tv{k}")
            os.makedirs(wd, exist_ok=True)
            lines, st = tlc_ok(spec, cfg, wd, workers=1, envextra={"JAVA_TOOL_OPTIONS": "-Xmx2g -Xss16m", "TRACE": f, "PROGRESS": "1" if progress else "0"})
            os.unlink(f)
            return [json.loads(l) for l in lines], st
        def worker(k):
            try:
                out, st = check(k, shards[k], False)
                with lock:
                    accepted.update(x["done"] for x in out)
                    self.note_tlc(st)
            except Exception as e:
                with lock:
                    errs.append(e)
        ts = [threading.Thread(target=worker, args=(k,)) for k in range(NPROC) if shards[k]]
        for t in ts: t.start()
        for t in ts: t.join()
        if errs:
            raise errs[0]
        self.validated = getattr(self, "validated", 0) + len(traces)
        fails = []
        rejected = [t for t in traces if t["id"] not in accepted]
        if rejected:
            some = rejected[:20]
            out, _ = check(99, some, True)
            for t in rejected:
                at = max([x["l"] for x in out if x.get("id") == t["id"]] or [0])
                e = t["ev"][at - 1] if at else None
                fails.append({"i": t["id"], "fail": f"the recorded execution is not a behaviour of {spec}: event {at} of {len(t['ev'])} is not allowed: {json.dumps(e)}"})
        return fails
    def report(self, module, f, scenario):
        for k in self.kf:
            if k["adapter"] == module and re.search(k["scenario"], scenario) and re.search(k["failure"], f["fail"]):
                self.kf_hit.setdefault(k["id"], (k, f))
                return
        self.fails.append((module, f, scenario))

def finish(cx, level="model_checking"):
    for kid, (k, f) in sorted(cx.kf_hit.items()):
        print(f"KNOWN-FINDING: property={cx.prop} {k['what']} [{kid}]")
    rdir = os.path.join(HERE, "replay", cx.prop)
    shutil.rmtree(rdir, ignore_errors=True)
    if cx.fails:
        os.makedirs(rdir)
        seen = set()
        n = 0
        for module, f, sc in cx.fails:
            # one replay file per distinct message shape
            key = (module, re.sub(r"0x[0-9a-f]+|\d+", "#", f["fail"])[:80])
            if key in seen:
                continue
            seen.add(key)
            if n >= 5:
                break
            path = os.path.join(rdir, f"{module}-{n}.json")
            json.dump({"property": cx.prop, "adapter": module, "seed": cx.seed, "tier": cx.tier, "index": f.get("i"),
                       "failure": f["fail"], "scenario": sc}, open(path, "w"), indent=1)
            print(f"  {module}: {f['fail']}"[:600])
            print(f"VIOLATION property={cx.prop} replay={path}")
            n += 1
        print(f"{len(cx.fails)} failing scenario(s) in {len(seen)}+ shape(s)")
    cov = {
        "states": cx.states, "transitions": cx.transitions,
        "traces_validated_against_impl": cx.traces,
        "samples": cx.samples[:8],
        "scenarios_emitted_by_spec": cx.scen_total,
        "scenarios_replayed": cx.scen_run,
        "exhaustive": cx.scen_total == cx.scen_run,
        "tlc_runs": cx.tlc_runs, "counters": cx.counters,
    }
    ev = {"property": cx.prop, "tier": cx.tier, "seed": cx.seed, "level": level, "coverage": cov,
          "assumptions": cx.assumptions, "wall_s": round(time.time() - cx.t0, 2), "violations": len(cx.fails)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", cx.prop + ".json"), "w"), indent=1)
    print(f"{cx.prop}: {cx.states} model states, {cx.traces} behaviours replayed/validated, "
          f"{len(cx.fails)} violations, {time.time() - cx.t0:.1f} s")
    shutil.rmtree(cx.wd, ignore_errors=True)
    return 1 if cx.fails else 0

# ---------------------------------------------------------------- the checks
def c01(cx):
    cx.run("filemap", cx.model("FileMap"), limit=(6000, 60000))
    cx.run("filemap", cx.model("FileMap", "FileMapTall"), limit=(1500, None), seed_salt=2)   # trees up to the depth limit
    l = cx.model("BlkMap")
    cx.run("blkmap", l, limit=(4000, 30000), timeout=60)

def c02(cx):
    cx.run("handle", cx.model("FileHandle"), limit=(40000, None))
    cx.run("handle", cx.simulate("FileHandle", "FileHandleSim", 3000, 20000, 16), limit=(20000, 150000), seed_salt=1)
    cx.run("filemap", cx.model("FileMap"), limit=(2000, 20000), seed_salt=2)   # positions in large files

def c03(cx):
    cx.model("PathRes")                      # algorithm vs POSIX walk
    cx.run("path", cx.model("PathRes", "PathEmit"), limit=(6000, None))
    cx.run("pathlim", cx.model("PathLim"), limit=(1500, None), timeout=60)

def c04(cx):
    cx.run("htree", cx.model("HTree"), limit=(10000, 60000))
    cx.model("HTreeGrow")                    # directories grown by a writer are directories of HTree
    cx.run("htree", cx.simulate("HTreeGrow", "HTreeGrowSim", 400, 6000, 25), seed_salt=7, reps=(2, 4))
    cx.run("dirblock", cx.model("DirBlock"), limit=(4000, 20000))

def c16(cx):
    l = cx.model("DirBlock")
    cx.run("dirblock", l, limit=(20000, None))
    cx.run("dirblock", cx.model("DirBlock", "DirBlockOne"), reps=(2, 10), seed_salt=1)
    cx.run("htree", cx.model("HTree"), limit=(1500, 15000), seed_salt=2)

def journal_scenarios(cx):
    l = cx.model("Journal")
    if cx.thorough:
        cx.model("Journal", "JournalDeep", timeout=800)
    sims = []
    for k in (15, 30, 50):
        sims += cx.simulate("Journal", f"JournalSim{k}", 500, 4000, 90)
    crash = lambda ls: [x for x in ls if '"kind":"crash"' in x]
    damage = lambda ls: [x for x in ls if '"kind":"damage"' in x]
    return (crash(l), damage(l)), (crash(sims), damage(sims))

def c05(cx):
    (c, d), (sc, sd) = journal_scenarios(cx)
    cx.run("journal", c, limit=(15000, None))
    cx.run("journal", sc, limit=(15000, None), seed_salt=1)
    cx.run("journal", d, limit=(500, 5000), seed_salt=2)
    cx.run("jfmt", cx.model("JournalFmt"))

def c14(cx):
    (c, d), (sc, sd) = journal_scenarios(cx)
    cx.run("journal", d, limit=(15000, None), seed_salt=3)
    cx.run("journal", sd, limit=(15000, None), seed_salt=4)
    cx.run("journal", c, limit=(2000, 10000), seed_salt=5)
    cx.run("journal", sc, limit=(2000, 20000), seed_salt=6)
    cx.run("jfmt", cx.model("JournalFmt"))

def c10(cx):
    cx.run("geometry", cx.model("Geometry"), limit=(8000, 30000))
    cx.run("geometry", cx.model("Geometry", "GeometryWide"))

def c07(cx):
    cx.run("csum", cx.model("Csum"), reps=(8, 100))

def c09(cx):
    cx.run("load", cx.model("Load"), reps=(4, 20))
    cx.run("load", cx.model("Load", "LoadPairs"), limit=(30000, None))

def cache_runs(cx, n):
    cx.model("Cache")
    cx.run("cache", cx.simulate("Cache", "CacheGen2", n, 12 * n, 122))
    cx.run("cache", cx.simulate("Cache", "CacheGen1", n // 2, 6 * n, 82))

def c06(cx):
    cache_runs(cx, 300)
    cx.model("ViewMC")
    cx.run("view", cx.simulate("ViewMC", "ViewGen", 700, 10000, 70), validate="ViewTrace")
    cx.run("io", [l for l in cx.model("Io") if '"warm"' in l], seed_salt=1)
    cx.model("Many")
    cx.run("many", cx.simulate("Many", "ManySim", 400, 6000, 1300), seed_salt=5)

def c11(cx):
    cache_runs(cx, 200)
    cx.run("io", cx.model("Io"), reps=(2, 20))
    cx.run("view", cx.simulate("ViewMC", "ViewGen", 300, 5000, 70), validate="ViewTrace", seed_salt=2)

def c17(cx):
    cx.model("ViewMC")
    cx.run("view", cx.simulate("ViewMC", "ViewGen", 900, 15000, 70), validate="ViewTrace", seed_salt=3, reps=(2, 4))
    cx.model("Many")
    cx.run("many", cx.simulate("Many", "ManySim", 300, 6000, 1300, salt=1000), seed_salt=6)

def c08(cx):
    cx.model("PtrGraph")
    cx.model("PtrGraph", "PtrDx")
    cx.model("PtrGraph", "PtrDxLadder")
    cx.run("graph", cx.simulate("PtrGraph", "PtrGraphGen", 6000, 60000, 8), timeout=30)
    cx.run("graph", cx.model("PtrGraph", "PtrLadder"), timeout=30, reps=(10, 100), seed_salt=8)
    l = cx.model("Corrupt")
    cx.run("corrupt", l, reps=(1, 5), timeout=30)
    for k, n in ((2, 8000), (3, 5000)):
        cx.run("corrupt", cx.simulate("Corrupt", f"CorruptGen{k}", n, 20 * n, 8), timeout=30, seed_salt=k)

def c12(cx):
    cx.run("pathval", cx.model("PathVal"), limit=(20000, None))

def c13(cx):
    cx.run("ops", cx.model("Ops"), reps=(20, 100))

def c15(cx):
    cx.run("symlink", cx.model("Symlink"), reps=(2, 20))

CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14,
          "C15": c15, "C16": c16, "C17": c17}

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build()
        return 0
    if a and a[0] == "--replay":
        build()
        r = json.load(open(a[1]))
        wd = os.path.join(WORK, "replay")
        os.makedirs(wd, exist_ok=True)
        traces = []
        fails, _, tool = replay(r["adapter"], r["property"], [(r["index"], r["scenario"])], r["seed"], r["tier"], wd, only=r["index"], traces=traces)
        if traces and not fails:
            fails = Ctx("replay", r["tier"], r["seed"]).validate("ViewTrace", traces)
        print(json.dumps(fails + tool, indent=1))
        return 1 if fails else 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(a) > 1:
        tier = a[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cx = Ctx(prop, tier, seed)
    build()
    cx.t0 = time.time()
    CHECKS[prop](cx)
    return finish(cx)

if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print(f"TOOL ERROR: {e}")
        sys.exit(2)
