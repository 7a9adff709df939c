import collections, hashlib, json, os, re, shutil, subprocess, time

VERIF = os.environ.get("VERIF_DIR", "/verif")
REPO = "/repo"
BUILD = VERIF + "/.build"
SPEC = VERIF + "/spec"
TLA = "/opt/veriftools/tla"
CP = ":".join([BUILD + "/java", TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar", SPEC])
WASM = BUILD + "/wasm/wasm32-unknown-unknown/release/contract_wasm.wasm"
HOST = BUILD + "/host/release/vh"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.81", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1",
           CARGO_TERM_COLOR="never", HOME=os.environ.get("HOME", "/root"),
           PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/local/bin:/usr/bin:/bin"))
ENV.pop("RUSTFLAGS", None)


class ToolError(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=840, what="command"):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("%s timed out" % what)
    return p.returncode, p.stdout.decode("utf8", "replace")


def cargo(crate, target, extra=(), flags=None, cwd=None):
    env = dict(ENV, CARGO_TARGET_DIR=BUILD + "/" + target)
    if flags:
        env["RUSTFLAGS"] = flags
    rc, out = sh(["cargo", "build", "--release", "--offline"] + list(extra), cwd=cwd or VERIF + "/harness/" + crate, env=env, what="cargo build " + crate)
    if rc:
        raise ToolError("cargo build of %s failed:\n%s" % (crate, out[-4000:]))


def build_java():
    src = SPEC + "/java"
    dst = BUILD + "/java"
    files = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".java"))
    stamp = dst + "/stamp"
    key = "".join(open(f).read() for f in files)
    if os.path.exists(stamp) and open(stamp).read() == key:
        return
    os.makedirs(dst, exist_ok=True)
    rc, out = sh(["javac", "-cp", TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "-d", dst] + files, what="javac")
    if rc:
        raise ToolError("javac failed: " + out)
    open(stamp, "w").write(key)


def build_wasm():
    cargo("contract-wasm", "wasm", ["--target", "wasm32-unknown-unknown"],
          flags=WASM_FLAGS)


def build_host():
    cargo("host", "host")


WASM_FLAGS = "-C link-arg=--import-memory -C link-arg=--export=__stack_pointer"
CALC_WASM = BUILD + "/wasm/wasm32-unknown-unknown/release/calc_wasm.wasm"
CALC_SDK = BUILD + "/calc-sdk/release/calc-sdk"


def build_calc(libs="cs", features=None):
    """The contract's libraries (c) and the client SDK's (s), with the functions of some groups."""
    extra = [] if features is None else ["--no-default-features", "--features", ",".join(features)]
    if "c" in libs:
        cargo("calc-wasm", "wasm", ["--target", "wasm32-unknown-unknown"] + extra, flags=WASM_FLAGS)
    if "s" in libs:
        cargo("calc-sdk", "calc-sdk", extra)


def build_native():
    build_calc()


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.trans = self.traces = 0
        self.samples, self.violations, self.known, self.notes = [], [], [], []
        self.counts = collections.Counter()
        self.extra = {}
        self.dir = "%s/run/%s-%s" % (BUILD, prop, tier)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replays = VERIF + "/evidence/replay"

    def thorough(self):
        return self.tier == "thorough"

    def fail(self, name, data, what):
        os.makedirs(self.replays, exist_ok=True)
        path = "%s/%s-%s.json" % (self.replays, self.prop, name)
        with open(path, "w") as f:
            f.write(data if isinstance(data, str) else json.dumps(data) + "\n")
        self.violations.append({"replay": path, "what": what})

    def write_evidence(self):
        import props
        level = props.LEVEL.get(self.prop, "model_checking")
        cov = dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces,
                   samples=self.samples[:3] or [{"note": "none"}],
                   operations={"%s:%s" % k if isinstance(k, tuple) else k: n for k, n in sorted(self.counts.items(), key=str)})
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=props.ASSUMPTIONS, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, self.prop), "w") as f:
            json.dump(ev, f, indent=1)


def tlc(r, module, consts, name, spec="SPECIFICATION Spec", inv=("INVARIANT Conforms",), more=(), workers=8, opts=(), timeout=800, heap="12g"):
    """Runs TLC; returns (exit code, output). 0 = no error, 12 = invariant violated, 13 = property violated."""
    d = "%s/tlc-%s" % (r.dir, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cfg = [spec] + list(inv) + list(more) + ["CHECK_DEADLOCK FALSE"]
    if consts:
        cfg += ["CONSTANTS"] + ["  %s = %s" % (k, v if not isinstance(v, str) or v.startswith("@") else json.dumps(v)) for k, v in consts.items()]
    open(d + "/T.cfg", "w").write("\n".join(c.replace("= @", "= ") for c in cfg) + "\n")
    cmd = ["java", "-Djava.io.tmpdir=" + d, "-Dtlc2.tool.queue.DiskStateQueue.BufSize=3000000", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", d + "/m", "-config", d + "/T.cfg"] + list(opts) + ["%s/%s.tla" % (SPEC, module)]
    rc, out = sh(cmd, cwd=d, timeout=timeout, what="TLC " + module)
    open(d + "/out.txt", "w").write(out)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        r.trans += int(m[-1][0])
        r.states += int(m[-1][1])
    return rc, out


SNIP = ("blk", "out", "err", "res", "rv", "ev", "msgs", "fin", "nb", "d")


INVARIANTS = ("Inert Liquidity PriceTick Solvency FeesPaid TimeInside NothingDangles Waits FullExit NoRoundTripGain NoSplitGain NoOpenGain Fair")
STEPS = "Ledgers Ownership Rules Value"


def spec_key():
    h = hashlib.sha256()
    for d in (SPEC, SPEC + "/java"):
        for f in sorted(os.listdir(d)):
            if f.endswith((".tla", ".java")):
                h.update(f.encode() + b"\0" + open(d + "/" + f, "rb").read())
    return h.hexdigest()[:20]


def tree(r, scen, depth):
    """The tree of operations of a scenario, every state of which TLC has found to satisfy all properties of the specification.
    It depends on the specification only: setup leaves those of the quick tier in the build folder."""
    name = "%s%d" % (scen, depth)
    store = "%s/trees/%s" % (BUILD, spec_key())
    kept = "%s/%s" % (store, name)
    if os.path.exists(kept + ".json") and not r.thorough():
        d = json.load(open(kept + ".json"))
        r.states += d["states"]
        r.trans += d["transitions"]
        return kept + ".tree"
    out = "%s/%s.tree" % (r.dir, name)
    n, t = r.states, r.trans
    rc, text = tlc(r, "MC", {"Scen": scen, "Depth": depth, "Out": out}, "mc-" + name, inv=("INVARIANTS " + INVARIANTS,), more=["VIEW View", "PROPERTIES " + STEPS],
                   timeout=3000 if r.thorough() else 800)
    if rc:
        raise ToolError("the specification itself fails in scenario %s (%d):\n%s" % (name, rc, text[-3000:]))
    if r.thorough():
        return out
    r.fresh = getattr(r, "fresh", set()) | {name}
    os.makedirs(store, exist_ok=True)
    os.rename(out, kept + ".tree")
    with open(kept + ".part", "w") as f:
        json.dump({"states": r.states - n, "transitions": r.trans - t}, f)
    os.rename(kept + ".part", kept + ".json")
    return kept + ".tree"


def explore(r, scen, depth):
    """All behaviours of the specification in a small scenario: its properties are checked in every state, and every
    transition is performed on the compiled contract and compared with what it did."""
    name = "%s%d" % (scen, depth)
    src = tree(r, scen, depth)
    n = sum(1 for _ in open(src)) - 1
    path = "%s/%s.ndjson" % (r.dir, name)
    rc, out = sh([HOST, "tree", WASM, src, path, "400"], timeout=800, what="performing the operations")
    if rc:
        raise ToolError("performing the operations failed:\n" + out[-3000:])
    r.extra.setdefault("scenarios", {})[scen] = {"depth": depth, "transitions_performed": n,
                                                 "exploration": "in this run" if src.startswith(r.dir) or name in getattr(r, "fresh", ()) else "kept from an earlier run on the same specification"}
    ok = check_traces(r, path, name)
    os.remove(path)
    if src.startswith(r.dir):
        os.remove(src)
    return ok


def check_traces(r, path, name):
    """TLC decides whether the recorded histories in path follow the specification, as far as r.prop is concerned."""
    n = sum(1 for _ in open(path))
    rc, out = tlc(r, "Trace", {"Prop": r.prop, "File": path, "Max": 10 ** 6}, name,
                  more=["VIEW View", "ALIAS Short"])
    if rc == 0:
        r.traces += n
        with open(path) as f:
            for k, line in enumerate(f):
                t = json.loads(line)
                for s in t["steps"]:
                    r.counts[(s["op"], s.get("out", "ok"))] += 1
                if k == 0 and len(r.samples) < 3:
                    r.samples.append({"trace": t["tag"], "last_steps": [{k: s[k] for k in s if k not in ("d", "ts", "blk")} for s in t["steps"][-4:]]})
        return True
    if rc not in (12,):
        raise ToolError("TLC stopped with %d on %s:\n%s" % (rc, path, out[-3000:]))
    # (TLC breaks long lines)
    hits = re.findall(r"/\\ trace = (\d+)\s*\n/\\ step = (\d+)\s*\n/\\ tag = \"([^\"]*)\"\s*\n/\\ bad = +(\{.*?\})\s*\n\s*\n", out, re.S)
    hits = [h[:3] + (" ".join(h[3].split()),) for h in hits]
    bad = [h for h in hits if h[3] != "{}"]
    if not bad:
        raise ToolError("TLC reported a violation that cannot be read:\n" + out[-3000:])
    tr, step, tag, what = bad[-1]
    with open(path) as f:
        t = json.loads(f.read().splitlines()[int(tr) - 1])
    # the steps up to the failing one (the history may be a tree)
    way = [int(h[1]) for h in hits if h[0] == tr]
    way = way[max(k for k, x in enumerate(way) if x == 1):]
    t["steps"] = [t["steps"][k - 1] for k in way]
    for x in t["steps"]:
        x.pop("kids", None)
    r.fail(tag, json.dumps(t) + "\n", "history %s, step %s (%s): %s" % (tag, step, json.dumps({k: v for k, v in t["steps"][-1].items() if k != "d"})[:600], what))
    return False


def gen_traces(r, plan, steps, seed, name):
    path = "%s/%s.ndjson" % (r.dir, name)
    rc, out = sh([HOST, "gen", WASM, path, str(seed), str(steps)] + ["%s:%d" % p for p in plan], timeout=800, what="recording histories")
    if rc:
        raise ToolError("recording histories failed:\n" + out[-3000:])
    return path


def check_calc(r, inputs, name, libs="cs"):
    """TLC compares what the library functions answer to every input with the specification."""
    out = "%s/%s.out" % (r.dir, name)
    with open(out, "wb") as f:
        for l, cmd in (("c", [HOST, "calc", CALC_WASM]), ("s", [CALC_SDK])):
            if l in libs:
                rc, text = sh(cmd + [inputs, out + "." + l], timeout=600, what="calling the library functions")
                if rc:
                    raise ToolError("calling the library functions failed:\n" + text[-2000:])
                f.write(open(out + "." + l, "rb").read())
                os.remove(out + "." + l)
    recs = open(out).read().splitlines()
    rc, text = tlc(r, "Calc", {"Prop": r.prop, "File": out}, name, more=["ALIAS Short"])
    if rc == 0:
        for l in recs:
            d = json.loads(l)
            r.counts[(d["lib"] + "." + d["f"], "ok" if "ok" in d else "refused")] += 1
        r.extra["calls"] = r.extra.get("calls", 0) + len(recs)
        r.traces += len(recs)
        if len(r.samples) < 3 and recs:
            r.samples.append({"call": min(recs[:50], key=len)[:600]})
        os.remove(out)
        return True
    if rc != 12:
        raise ToolError("TLC stopped with %d on %s:\n%s" % (rc, out, text[-3000:]))
    hits = [h for h in re.findall(r"/\\ record = (-?\d+)\s*\n/\\ bad = +(\{.*?\})\s*\n\s*\n", text, re.S) if h[1] != "{}"]
    hits = [(h[0], " ".join(h[1].split())) for h in hits]
    if not hits:
        raise ToolError("TLC reported a violation that cannot be read:\n" + text[-3000:])
    rec = recs[int(hits[-1][0]) - 1]
    r.fail("%s-%s" % (name, hits[-1][0]), rec + "\n", "call %s: %s" % (rec[:600], hits[-1][1]))
    return False


def run_property(r):
    import props
    parts = props.PARTS.get(r.prop)
    if not parts:
        raise ToolError("no check for " + r.prop)
    build_java()
    for part in parts:
        part(r)
        if r.violations:
            return
