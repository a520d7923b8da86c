"""Shared machinery: building /repo, running TLC, replaying behaviours, evidence, verdicts."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
CACHE = os.path.join(VERIF, "build")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

INC = [f"-I{REPO}/src", f"-I{REPO}/export", f"-I{REPO}/include", f"-I{HARN}",
       "-isystem", "/usr/include/hdf5/serial", "-isystem", "/opt/vp/compat/include",
       "-isystem", "/opt/vp/compat/include/OpenEXR", "-isystem", "/usr/include/Imath", "-isystem", "/usr/include/OpenEXR"]
BASE = ["-std=gnu++14", "-w", "-fPIC", "-DREQUIRE_IOSTREAM", "-DBOOST_TIMER_ENABLE_DEPRECATED",
        "-DFIELD3D_VERIF_HOOKS"]
VARIANT = {
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "sched": ["-O1", "-g1", "-fsanitize=thread"],      # instrumentation only; our runtime
    "plain": ["-O1", "-g1"],
}
LINK = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lIex", "-lIlmThread", "-lImath",
        "-lboost_regex", "-lboost_thread", "-lboost_program_options", "-lboost_system", "-lpthread", "-ldl", "-lz"]


class CheckError(Exception):
    """The check itself could not run (never a verdict about the code)."""


def sh(cmd, timeout=None, cwd=None, env=None, inp=None):
    e = dict(os.environ)
    for k in ("CPATH", "CPLUS_INCLUDE_PATH", "LD_LIBRARY_PATH", "CXXFLAGS", "CFLAGS", "LDFLAGS"):
        e.pop(k, None)
    if env:
        e.update(env)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                          cwd=cwd, env=e, input=inp)


def tree_hash(*dirs_or_files):
    h = hashlib.sha256()
    for d in dirs_or_files:
        if os.path.isfile(d):
            files = [d]
        else:
            files = sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs)
        for f in files:
            if f.endswith((".cpp", ".h", ".c", ".hpp")):
                h.update(f.encode())
                with open(f, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


class Check:
    def __init__(self, pid, tier=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER") or "quick"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = SEED
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"vf3d_{pid}_", dir="/tmp")
        os.chmod(self.scratch, 0o755)
        self.violations = []
        self.known = []
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.level = "model_checking"
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.mc_log = []
        self.replay_dir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(self.replay_dir, exist_ok=True)

    def log(self, *a):
        print(f"[{self.pid} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    # ---------------------------------------------------------------- building
    def lib(self, variant):
        """Compile every src/*.cpp of /repo; returns path of a static archive."""
        flags = BASE + VARIANT[variant]
        key = hashlib.sha256((tree_hash(f"{REPO}/src", f"{REPO}/export", f"{REPO}/include")
                              + " ".join(flags)).encode()).hexdigest()[:20]
        d = os.path.join(CACHE, f"lib-{variant}-{key}")
        out = os.path.join(d, "libf3d.a")
        if os.path.exists(out):
            return out
        os.makedirs(CACHE, exist_ok=True)
        # drop stale caches of this variant (keep the three newest)
        old = sorted((os.path.join(CACHE, x) for x in os.listdir(CACHE) if x.startswith(f"lib-{variant}-")),
                     key=os.path.getmtime)
        for x in old[:-6]:
            shutil.rmtree(x, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=CACHE)
        srcs = sorted(f for f in os.listdir(f"{REPO}/src") if f.endswith(".cpp"))
        # biggest first
        srcs.sort(key=lambda f: -os.path.getsize(f"{REPO}/src/{f}"))

        def one(s):
            r = sh(["g++"] + flags + INC + ["-c", f"{REPO}/src/{s}", "-o", f"{tmp}/{s}.o"], timeout=800)
            return s, r
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for s, r in ex.map(one, srcs):
                if r.returncode != 0:
                    shutil.rmtree(tmp, ignore_errors=True)
                    raise CheckError(f"compile of {s} failed:\n" + r.stdout.decode(errors="replace")[-3000:])
        r = sh(["ar", "rcs", f"{tmp}/libf3d.a"] + [f"{tmp}/{s}.o" for s in srcs])
        if r.returncode != 0:
            raise CheckError("ar failed")
        for s in srcs:
            os.unlink(f"{tmp}/{s}.o")
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
        self.log(f"library built ({variant})")
        return out

    def harness(self, name, variant, extra_srcs=(), extra_flags=()):
        """Compile harness/<name>.cpp (+ uninstrumented extra sources) against /repo; returns the executable."""
        with cf.ThreadPoolExecutor(3) as ex:
            flib = ex.submit(self.lib, variant)
            objs = []

            def obj(src, flags):
                o = os.path.join(self.scratch, os.path.basename(src) + f".{variant}.o")
                r = sh(["g++"] + flags + INC + ["-c", src, "-o", o], timeout=800)
                if r.returncode != 0:
                    raise CheckError(f"compile of {src} failed:\n" + r.stdout.decode(errors="replace")[-4000:])
                return o
            fs = [ex.submit(obj, f"{HARN}/{name}.cpp", BASE + VARIANT[variant] + list(extra_flags))]
            for s in extra_srcs:
                fs.append(ex.submit(obj, f"{HARN}/{s}", ["-std=gnu++14", "-w", "-fPIC", "-O1", "-g1"]))
            objs = [f.result() for f in fs]
            lib = flib.result()
        exe = os.path.join(self.scratch, f"{name}.{variant}.exe")
        lf = ["-fsanitize=address"] if variant == "asan" else []
        r = sh(["g++", "-rdynamic", "-o", exe] + objs + ["-Wl,--whole-archive", lib, "-Wl,--no-whole-archive"] + lf + LINK)
        if r.returncode != 0:
            raise CheckError("link failed:\n" + r.stdout.decode(errors="replace")[-3000:])
        self.log(f"harness {name} built ({variant})")
        return exe

    # ---------------------------------------------------------------- TLC
    def _spec_dir(self):
        d = tempfile.mkdtemp(prefix="spec_", dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), d)
        return d

    def tlc(self, module, cfg, args=(), timeout=600, workers=1, specdir=None, heap="2g", consts=None, files=None,
            props=()):
        """Run TLC. cfg: file name in spec/, or literal text when it contains a newline."""
        d = specdir or self._spec_dir()
        if "\n" in cfg:
            cfgname = f"{module}_gen_{abs(hash(cfg)) % 10**8}.cfg"
            with open(os.path.join(d, cfgname), "w") as f:
                f.write(cfg)
        else:
            cfgname = cfg
        if files:
            for n, t in files.items():
                with open(os.path.join(d, n), "w") as f:
                    f.write(t)
        md = tempfile.mkdtemp(prefix="md_", dir=self.scratch)
        cmd = ["java", f"-Xmx{heap}", "-Xss16m", "-XX:+UseParallelGC", *[f"-D{p}" for p in props], "-cp", JAR, "tlc2.TLC", "-metadir", md,
               "-workers", str(workers), "-config", cfgname, "-noGenerateSpecTE", *args, module]
        try:
            r = sh(cmd, timeout=timeout, cwd=d)
            out = r.stdout.decode(errors="replace")
            rc = r.returncode
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b"").decode(errors="replace")
            rc = -9
        shutil.rmtree(md, ignore_errors=True)
        res = dict(rc=rc, out=out)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            res["generated"] = int(m[-1][0].replace(",", ""))
            res["distinct"] = int(m[-1][1].replace(",", ""))
        return res

    def model_check(self, module, cfg, timeout=600, workers=NCPU, args=(), heap="6g", expect_ok=True):
        """Exhaustive check of the specification itself. A failure here is an error of the check (the model
        does not depend on the code)."""
        r = self.tlc(module, cfg, args=["-coverage", "1"] + list(args) if False else list(args), timeout=timeout, workers=workers, heap=heap)
        if r["rc"] != 0 or "distinct" not in r:
            raise CheckError(f"TLC {module}/{cfg[:60]}: rc={r['rc']}\n" + tlc_errors(r["out"]))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        name = cfg if "\n" not in cfg else module
        self.mc_log.append(dict(module=module, cfg=name, distinct=r["distinct"], generated=r["generated"]))
        self.log(f"TLC {module} {name}: {r['distinct']} distinct states, {r['generated']} generated")
        return r

    def simulate(self, module, cfg, num, depth, seed=None, timeout=600, procs=None, tag="BEH", heap="1g", files=None):
        """Generate behaviours: the module prints `<<"BEH", ToJson(hist)>>` lines. Returns parsed list."""
        seed = self.seed if seed is None else seed
        procs = procs or min(NCPU, max(1, num // 50))
        per = (num + procs - 1) // procs

        def one(i):
            return self.tlc(module, cfg, args=["-simulate", f"num={per}", "-depth", str(depth), "-seed", str(seed * 1000 + i)],
                            timeout=timeout, workers=1, heap=heap, files=files)
        behs = []
        gen = 0
        with cf.ThreadPoolExecutor(procs) as ex:
            for r in ex.map(one, range(procs)):
                if r["rc"] != 0:
                    raise CheckError(f"TLC -simulate {module}: rc={r['rc']}\n" + tlc_errors(r["out"]))
                b = parse_beh(r["out"], tag)
                behs += b
                m = re.findall(r"The number of states generated: ([\d,]+)", r["out"])
                if m:
                    gen += int(m[-1].replace(",", ""))
        self.transitions += gen
        self.log(f"TLC -simulate {module}: {len(behs)} behaviours, {gen} states generated")
        if not behs:
            raise CheckError(f"no behaviours from {module}")
        return behs

    def enumerate(self, module, cfg, timeout=600, workers=1, tag="BEH", heap="4g", files=None):
        """Exhaustively explore and collect BEH lines."""
        r = self.tlc(module, cfg, timeout=timeout, workers=workers, heap=heap, files=files)
        if r["rc"] != 0 or "distinct" not in r:
            raise CheckError(f"TLC {module}/{cfg[:60]}: rc={r['rc']}\n" + tlc_errors(r["out"]))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        b = parse_beh(r["out"], tag)
        self.log(f"TLC {module}: {r['distinct']} states, {len(b)} behaviours")
        return b

    # ---------------------------------------------------------------- replay
    def replay(self, exe, behs, what, timeout=400, env=None, args=(), chunks=None, count=True, sigfn=None, outdir=None):
        """Run the driver over behaviours (list of JSON values); each mismatch or crash is a violation."""
        if not behs:
            raise CheckError("nothing to replay")
        n = min(chunks or NCPU, len(behs))
        parts = [[] for _ in range(n)]
        for i, b in enumerate(behs):
            parts[i % n].append((i, b))
        e = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1",
             "HDF5_USE_FILE_LOCKING": "FALSE"}
        e.update(env or {})

        def one(pi):
            pe = dict(e, VERIF_PART=str(pi), VERIF_OUT=os.path.join(outdir, f"{pi}.ndjson") if outdir else "")
            return pi, self._run_part(exe, parts[pi], pe, timeout, list(args), f"{what}-{pi}")
        bad = []
        done = 0
        cmps = 0
        with cf.ThreadPoolExecutor(n) as ex:
            for pi, (ok, nc, fails) in ex.map(one, range(n)):
                done += ok
                cmps += nc
                bad += fails
        if count:
            self.traces += done
        self.log(f"replay {what}: {done} behaviours executed, {cmps} observations compared, {len(bad)} bad")
        self.cov["observations_compared"] = self.cov.get("observations_compared", 0) + cmps
        for (i, b, msg) in bad[:200]:
            self.violation(what, b, msg, exe_args=list(args), sig=(sigfn(b, msg) if sigfn else None))
        return not bad

    def _run_part(self, exe, part, env, timeout, args, name):
        wd = tempfile.mkdtemp(prefix="w_", dir=self.scratch)
        fails = []
        ok = 0
        cmps = 0
        todo = list(part)
        crashes = 0
        while todo:
            fn = os.path.join(wd, "beh.ndjson")
            with open(fn, "w") as f:
                for _, b in todo:
                    f.write(json.dumps(b) + "\n")
            try:
                r = sh([exe, fn] + args, timeout=timeout, cwd=wd, env=env)
                out = r.stdout.decode(errors="replace")
                rc = r.returncode
            except subprocess.TimeoutExpired as ex:
                out = (ex.stdout or b"").decode(errors="replace")
                rc = -99
            cur = -1
            seen_bad = set()
            finished = False
            for line in out.splitlines():
                if line.startswith("@B "):
                    cur = int(line[3:])
                elif line.startswith("@MISMATCH "):
                    _, i, msg = line.split(" ", 2)
                    i = int(i)
                    if i not in seen_bad:
                        seen_bad.add(i)
                        fails.append((todo[i][0], todo[i][1], msg))
                elif line.startswith("@CMP "):
                    cmps += int(line[5:])
                elif line.startswith("@DONE"):
                    finished = True
                elif line.startswith("@ERROR"):
                    raise CheckError("driver error: " + line)
            if finished and rc == 0:
                ok += len(todo) - len(seen_bad)
                break
            if cur < 0:
                raise CheckError(f"driver did not start: rc={rc}\n" + out[-2000:])
            # crashed or hung in behaviour `cur`: confirm alone
            ok += cur - len([i for i in seen_bad if i < cur])
            with open(fn, "w") as f:
                f.write(json.dumps(todo[cur][1]) + "\n")
            # time spent per behaviour is far below this; scale for hang confirmation
            try:
                r2 = sh([exe, fn] + args, timeout=min(timeout, 90), cwd=wd, env=dict(env, VERIF_OUT=""))
                rc2, out2 = r2.returncode, r2.stdout.decode(errors="replace")
            except subprocess.TimeoutExpired:
                rc2, out2 = -99, ""
            if rc2 == 0 and "@DONE" in out2:
                if rc == -99:
                    raise CheckError(f"driver part {name} timed out but behaviour alone passes (machine too slow?)")
                kind = "crashed (not alone, only after earlier behaviours)"
                o = out
            else:
                kind = "did not terminate" if rc2 == -99 else "crashed"
                o = out2
            tail = "\n".join(l for l in o.splitlines() if not l.startswith("@"))[-1500:]
            if cur not in seen_bad:
                fails.append((todo[cur][0], todo[cur][1], f"{kind} rc={rc2}: " + tail))
            if env.get("VERIF_OUT"):
                env = dict(env, VERIF_OUT=env["VERIF_OUT"] + "x")
            todo = todo[cur + 1:]
            crashes += 1
            if crashes >= 6 or rc2 in (-99, -14, -24, 74, 75, 76):
                break
        shutil.rmtree(wd, ignore_errors=True)
        return ok, cmps, fails

    # ---------------------------------------------------------------- recorded traces against the specification
    def validate(self, module, cfg, outdir, what, timeout=600, explain=None, heap="3g"):
        """Each outdir/*.ndjson is a log of executions (event 1 starts one). TLC must accept every event."""
        files = sorted(f for f in os.listdir(outdir) if f.endswith(".ndjson") and os.path.getsize(os.path.join(outdir, f)))
        if not files:
            raise CheckError("no traces recorded")

        def one(f):
            p = os.path.join(outdir, f)
            log = open(p).read()
            fs = {"trace.ndjson": log}
            if os.path.exists(p + ".hdr"):
                fs["headers.ndjson"] = open(p + ".hdr").read()
            r = self.tlc(module, cfg, timeout=timeout, files=fs, heap=heap)
            if r["rc"] != 0 or "distinct" not in r:
                raise CheckError(f"TLC trace validation {module}: rc={r['rc']}\n" + tlc_errors(r["out"]))
            return f, log.splitlines(), r
        ev = 0
        bad = 0
        execs = 0
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for f, log, r in ex.map(one, files):
                self.states += r["distinct"]
                self.transitions += r["generated"]
                m = re.search(r'<<"STUCK", (\d+)>>', r["out"])
                n = len(log) if not m else int(m.group(1))
                ev += n
                starts = [i for i in range(n) if log[i].startswith("[1,")]
                execs += len(starts)
                if m:
                    bad += 1
                    at = n - 1
                    s0 = starts[-1] if starts else 0
                    tr = log[s0:at + 1]
                    msg = f"recorded execution is not a behaviour of {module}: event {at - s0} {log[at]} not allowed" + (
                        ": " + explain(json.loads(log[at])) if explain else "") + "; preceded by " + " ".join(log[max(s0, at - 8):at])
                    self.violation(what, dict(trace=tr), msg)
        self.traces += execs
        self.cov["trace_events_validated"] = self.cov.get("trace_events_validated", 0) + ev
        self.log(f"TLC validated {execs} executions, {ev} events of {what}, {bad} rejected")
        return not bad

    def outdir(self, name):
        d = os.path.join(self.scratch, "out_" + name)
        os.makedirs(d)
        return d

    # ---------------------------------------------------------------- verdicts
    def known_list(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return []
        with open(p) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == self.pid and k.get("status") == "known"]

    def violation(self, what, data, msg, exe_args=(), sig=None):
        for k in self.known_list():
            if sig is not None and k["signature"] == sig:
                if k["signature"] not in [x["signature"] for x in self.known]:
                    self.known.append(k)
                return
        h = hashlib.sha256((what + json.dumps(data, sort_keys=True, default=str) + msg[:80]).encode()).hexdigest()[:10]
        path = os.path.join(self.replay_dir, f"{self.pid}-{h}.json")
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, what=what, message=msg, sig=sig, args=list(exe_args), data=data), f, indent=1, default=str)
        self.violations.append((path, msg))

    def finish(self):
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        wall = time.time() - self.t0
        cov = dict(self.cov)
        cov.setdefault("samples", self.samples[:3] or ["(none)"])
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces)
        cov["model_checking_runs"] = self.mc_log
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2),
                  violations=[dict(replay=p, message=m[:500]) for p, m in self.violations[:20]])
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.violations:
            for p, m in self.violations[:10]:
                print("  " + m[:600].replace("\n", "\n    "))
            for p, m in self.violations[:10]:
                print(f"VIOLATION property={self.pid} replay={p}")
            print(f"{self.pid}: {len(self.violations)} violation(s), {wall:.1f}s")
            sys.stdout.flush()
            return 1
        print(f"{self.pid}: held on everything explored ({wall:.1f}s; {self.traces} traces/behaviours on the implementation)")
        return 0


def tlc_errors(out):
    ls = out.splitlines()
    k = [i for i, l in enumerate(ls) if l.startswith("Error")]
    return "\n".join("\n".join(ls[i:i + 8]) for i in k[:4])[:3000] + "\n...\n" + "\n".join(ls[-12:])


def parse_beh(out, tag="BEH"):
    """Lines  <<"BEH", "....json....">>  as printed by PrintT."""
    res = []
    pre = f'<<"{tag}", '
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith(">>"):
            body = line[len(pre):-2]
            res.append(json.loads(json.loads(body)))
    return res


def main(table):
    if len(sys.argv) < 2 or sys.argv[1] not in table:
        print("usage: check <property> [quick|thorough]", sorted(table))
        return 2
    c = Check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None)
    try:
        table[sys.argv[1]](c)
        return c.finish()
    except CheckError as e:
        print(f"ERROR in check {c.pid}: {e}")
        shutil.rmtree(c.scratch, ignore_errors=True)
        # violations already established stay violations
        if c.violations:
            return c.finish()
        return 2
