"""Shared machinery: building harnesses from /repo's working tree, running them over case files,
running TLC, comparing, canaries, evidence and verdicts."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = max(2, min(8, os.cpu_count() or 8))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    """The check itself is broken (never a verdict about the code)."""


class Violation(Exception):
    def __init__(self, replay, what):
        super().__init__(what)
        self.replay, self.what = replay, what


class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        allm = re.findall(r"(\d[\d,]*) states generated[^\n]*?, (\d[\d,]*) distinct states found", out)
        if allm:
            g, d = allm[-1]
            self.generated, self.distinct = int(g.replace(",", "")), int(d.replace(",", ""))
        else:
            self.generated = self.distinct = 0
        self.finished = "Model checking completed. No error has been found." in out
        self.error = None
        m = re.search(r"^Error: (.*)$", out, re.M)
        if m:
            self.error = m.group(1)
        self.action_cov = {}
        for m in re.finditer(r"^<(\w+) line \d+.*?>: (\d+):(\d+)", out, re.M):
            self.action_cov[m.group(1)] = (int(m.group(2)), int(m.group(3)))

    def prints(self, tag):
        """PrintT(<<tag, ...>>) lines as lists of ints/strings."""
        r = []
        for m in re.finditer(r'^<<"%s"((?:, (?:-?\d+|"[^"]*"))*)>>' % re.escape(tag), self.out, re.M):
            r.append([int(x) if re.fullmatch(r"-?\d+", x) else x.strip('"') for x in m.group(1).split(", ") if x != ""])
        return r

    def gen(self):
        """JSON documents printed with PrintT("GEN" \\o ToJson(x))."""
        r = []
        for line in self.out.splitlines():
            if line.startswith('"GEN'):
                r.append(json.loads(json.loads(line)[3:]))
        return r


class Check:
    def __init__(self, pid, module_tag=None):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 1000003 + int(hashlib.sha1(pid.encode()).hexdigest()[:8], 16))
        self.work = os.path.join(VERIF, ".work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.violations = []
        self.n = 0
        self.lock = threading.Lock()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- building
    def build(self, src, name=None, flags=(), cxx="g++", asan=True, extra=(), repo_srcs=(), link=(), opt="-O1", std="-std=c++23"):
        """Compile VERIF/harness/src against /repo's working tree. Returns the path of the binary."""
        name = name or os.path.splitext(os.path.basename(src))[0]
        out = os.path.join(self.work, name)
        cmd = [cxx, std, opt, "-g1", "-w", "-fno-omit-frame-pointer",
               "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness"),
               "-I" + os.path.join(VERIF, "harness", "stubs"), "-DFMT_HEADER_ONLY", "-D_GLIBCXX_ASSERTIONS"]
        if asan:
            cmd += ["-fsanitize=address"]
        cmd += list(flags)
        cmd += [os.path.join(VERIF, "harness", src)] + [os.path.join(REPO, s) for s in repo_srcs] + list(extra)
        cmd += ["-o", out] + list(link) + ["-pthread"]
        t = time.time()
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            rp = os.path.join(self.work, name + ".compile.log")
            with open(rp, "w") as f:
                f.write(" ".join(cmd) + "\n" + p.stderr)
            if self._is_repo_problem(p.stderr):
                raise Violation(rp, "documented use of the library no longer compiles: " + p.stderr[:400])
            raise MachineryError("harness does not compile: " + p.stderr[:3000])
        self.log("built", name, "%.1fs" % (time.time() - t))
        return out

    def build_all(self, specs):
        with ThreadPoolExecutor(NPROC) as ex:
            futs = [ex.submit(lambda s=s: self.build(**s)) for s in specs]
            return [f.result() for f in futs]

    def _is_repo_problem(self, err):
        return bool(re.search(r"error:", err)) and not re.search(r"(No space left|cannot execute|Killed|fatal error: error writing)", err)

    # ---------------------------------------------------------------- running
    def write_cases(self, cases, fname):
        p = os.path.join(self.work, fname)
        with open(p, "w") as f:
            for c in cases:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        return p

    def run_cases(self, binary, cases, tag, per_case=10, env=None, jobs=NPROC, max_crashes=40, wrap=None, chunk=50):
        """Run the harness over all cases (in parallel chunks); returns observations, one per case:
        {"st":"ok",...} or {"st":"CRASH"|"HANG"|"EXC",...}. None = not run (crash budget used up)."""
        n = len(cases)
        res = [None] * n
        if n == 0:
            return res
        jobs = max(1, min(jobs, (n + chunk - 1) // chunk))
        chunks = [list(range(i, n, jobs)) for i in range(jobs)]

        def work(j):
            idxs = chunks[j]
            cf = os.path.join(self.work, "%s.%d.in" % (tag, j))
            with open(cf, "w") as f:
                for i in idxs:
                    f.write(json.dumps(cases[i], separators=(",", ":")) + "\n")
            start, crashes = 0, 0
            of = os.path.join(self.work, "%s.%d.out" % (tag, j))
            scratch = os.path.join(self.work, "%s.%d.scratch" % (tag, j))
            os.makedirs(scratch, exist_ok=True)
            while start < len(idxs):
                e = dict(os.environ)
                e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0"
                e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=98"
                e["HARNESS_SCRATCH"] = scratch
                e["HARNESS_CASE_TIMEOUT"] = str(per_case)
                if env:
                    e.update(env)
                errf = of + ".err"
                with open(errf, "w") as ef:
                    cmd = (list(wrap) if wrap else []) + [binary, cf, of, str(start)]
                    try:
                        p = subprocess.run(cmd, env=e, stdout=subprocess.DEVNULL, stderr=ef, timeout=per_case * 3 + len(idxs) * 0.5 + 600)
                        rc = p.returncode
                    except subprocess.TimeoutExpired:
                        rc = -99
                done = 0
                with open(of) as f:
                    for line in f:
                        if not line.endswith("\n"):
                            break
                        try:
                            res[idxs[start + done]] = json.loads(line)
                        except ValueError:
                            res[idxs[start + done]] = {"st": "GARBLED"}
                        done += 1
                start += done
                if start >= len(idxs) and rc == 0:
                    break
                if start >= len(idxs):
                    break  # died after the last case: counted by nobody (exit-time crash), see below
                msg = open(errf, errors="replace").read()
                m = re.search(r"(SUMMARY: [^\n]*)", msg) or re.search(r"([^\n]*(?:Assertion|terminate|runtime error)[^\n]*)", msg)
                st = "HANG" if rc in (77, -99) else "CRASH"
                res[idxs[start]] = {"st": st, "rc": rc, "msg": (m.group(1) if m else msg[-200:])[:300]}
                start += 1
                crashes += 1
                if crashes >= max_crashes or st == "HANG" and crashes >= 3:
                    break

        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(work, range(jobs)))
        return res

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=NPROC, timeout=800, args=(), heap="8g", deadlock_ok=True, files=()):
        with self.lock:
            self.n += 1
            num = self.n
        md = os.path.join(self.work, "tlc%d" % num)
        os.makedirs(md, exist_ok=True)
        sd = os.path.join(VERIF, "spec")
        if not os.path.isabs(cfg):
            cfgp = os.path.join(sd, cfg)
        else:
            cfgp = cfg
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        cmd = ["java", "-Djava.io.tmpdir=" + md, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + sd, "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfgp]
        if deadlock_ok:
            cmd += ["-deadlock"]
        cmd += list(args) + [os.path.join(sd, module + ".tla")]
        t = time.time()
        try:
            p = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout, cwd=md)
            out, rc = p.stdout + p.stderr, p.returncode
        except subprocess.TimeoutExpired as x:
            out = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
            rc = -1
        shutil.rmtree(md, ignore_errors=True)
        r = TlcResult(out, rc, time.time() - t)
        with open(os.path.join(self.work, "tlc%d.%s.log" % (num, module)), "w") as f:
            f.write(" ".join(cmd) + "\n" + out)
        return r

    def model_check(self, module, cfg, expect_error=None, **kw):
        """Exhaustive check of the specification itself. A failure here is a machinery error."""
        args = list(kw.pop("args", ()))
        r = self.tlc(module, cfg, args=args, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.log("TLC", module, cfg if not os.path.isabs(cfg) else os.path.basename(cfg), "distinct", r.distinct, "generated", r.generated, "%.1fs" % r.wall)
        if expect_error is not None:
            if not re.search(expect_error, r.out):
                raise MachineryError("%s/%s: expected error /%s/ not found (vacuity self-test)\n%s" % (module, cfg, expect_error, r.out[-1500:]))
        elif not r.finished:
            raise MachineryError("%s/%s: %s\n%s" % (module, cfg, r.error, r.out[-3000:]))
        return r

    def model_check_many(self, items, par=4, **kw):
        """[(module, cfg)] or [(module, cfg, expected error regex)], a few TLC processes at a time."""
        kw.setdefault("workers", max(1, NPROC // par))
        kw.setdefault("heap", "4g")
        with ThreadPoolExecutor(par) as ex:
            fs = [ex.submit(lambda it=it: self.model_check(it[0], it[1], expect_error=it[2] if len(it) > 2 else None, **kw)) for it in items]
            return [f.result() for f in fs]

    def generate(self, module, cfg, env=None, **kw):
        r = self.tlc(module, cfg, env=env, **kw)
        if not r.finished and "simulate" not in " ".join(kw.get("args", ())):
            raise MachineryError("generation %s/%s failed: %s\n%s" % (module, cfg, r.error, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        g = r.gen()
        self.log("TLC generated", len(g), "cases from", module, "(%d states, %.1fs)" % (r.distinct, r.wall))
        return g

    def enumerate(self, module, expr, count=True):
        """Let TLC enumerate a finite set defined over the operators of `module`."""
        self.n += 1
        d = os.path.join(self.work, "enum%d" % self.n)
        os.makedirs(d)
        out = os.path.join(d, "out.ndjson")
        with open(os.path.join(d, "Enum.tla"), "w") as f:
            f.write("---- MODULE Enum ----\nEXTENDS %s, Json, SequencesExt\nASSUME ndJsonSerialize(\"%s\", SetToSeq(%s))\n====\n" % (module, out, expr))
        open(os.path.join(d, "Enum.cfg"), "w").write("")
        p = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", "-Xmx8g", "-Xss64m", "-DTLA-Library=" + os.path.join(VERIF, "spec"), "-cp", CP,
                            "tlc2.TLC", "-metadir", d, "-noGenerateSpecTE", "-config", os.path.join(d, "Enum.cfg"), os.path.join(d, "Enum.tla")],
                           capture_output=True, text=True, cwd=d)
        if not os.path.exists(out):
            raise MachineryError("enumeration failed: " + p.stdout[-3000:])
        r = [json.loads(l) for l in open(out)]
        shutil.rmtree(d, ignore_errors=True)
        self.log("TLC enumerated", len(r), "inputs from", module)
        self.notes.setdefault("enumerated_inputs", {})["%s#%d" % (module, self.n)] = len(r)
        return r

    def validate(self, module, cfg, records, env=None, count=True, workers=NPROC):
        """TLC evaluates every record against the specification. Returns the list of rejected indices (0-based)
        with details."""
        bad = {}
        live = list(range(len(records)))
        if not live:
            return bad
        MAXREC = 60000
        for lo in range(0, len(live), MAXREC):
            part = live[lo:lo + MAXREC]
            self._validate_part(module, cfg, records, part, bad, env, count, workers)
        return bad

    def _validate_part(self, module, cfg, records, part, bad, env, count, workers):
        todo = list(part)
        for attempt in range(40):
            p = os.path.join(self.work, "val%d.ndjson" % self.n)
            with open(p, "w") as f:
                for i in todo:
                    f.write(json.dumps(records[i], separators=(",", ":")) + "\n")
            e = {"CASES": p}
            if env:
                e.update(env)
            r = self.tlc(module, cfg, env=e, workers=workers)
            if r.finished:
                for b in r.prints("BAD"):
                    bad[todo[b[0] - 1]] = "rejected by %s at %s" % (module, b[1:] or "end")
                done = r.prints("DONE")
                if done and done[-1][0] != len(todo):
                    raise MachineryError("validation did not see all records")
                if count:
                    self.states += r.distinct
                    self.transitions += r.generated
                    self.traces += len(todo)
                os.unlink(p)
                return
            # An evaluation error while judging a record: the observation does not even have the shape the
            # specification allows. Find the record from the error trace and count it as rejected.
            m = re.findall(r"^/?\\?\s*c = (\d+)\s*$", r.out, re.M) or re.findall(r"/\\ c = (\d+)", r.out)
            if not m or r.error is None or re.search(r"(OutOfMemory|Parsing or semantic analysis failed|Semantic error|java\.io)", r.out):
                raise MachineryError("TLC failed on %s: %s\n%s" % (module, r.error, r.out[-3000:]))
            k = int(m[-1]) - 1
            bad[todo[k]] = "observation outside the specification's domain (%s): %s" % (module, " ".join(r.out[r.out.find("Error:"):][:600].split()))
            for b in r.prints("BAD"):
                bad[todo[b[0] - 1]] = "rejected by %s at %s" % (module, b[1:] or "end")
            todo = [t for t in todo if t not in bad]
            if not todo:
                return
            if len(bad) > 15:
                return   # enough evidence (real records and canaries are validated separately)
        return

    # ---------------------------------------------------------------- the standard sequential check
    def conform(self, name, binary, cases, module, cfg, env=None, mutate=None, canaries=12, per_case=10, harness_env=None,
                sample=2, min_kill=0.5, jobs=NPROC, rebuild_obs=None, valenv=None, wrap=None):
        """Run `cases` through the real code, validate all observations with TLC, incl. canaries.
        Raises Violation for a reproducible rejection."""
        t = time.time()
        obs = self.run_cases(binary, cases, name, per_case=per_case, env=harness_env, jobs=jobs, wrap=wrap)
        t1 = time.time()
        recs, idx = [], []
        for i, o in enumerate(obs):
            if o is None:
                continue
            recs.append({"in": cases[i], "out": o})
            idx.append(i)
        if not recs:
            raise MachineryError(name + ": no observations")
        nreal = len(recs)
        # canaries: mutated copies of real observations, which the specification must be able to reject
        can = []
        ok = [r for r in recs if r["out"].get("st") == "ok"]
        crng = random.Random(self.seed)
        tries = 0
        while ok and len(can) < canaries and tries < canaries * 20:
            tries += 1
            r = crng.choice(ok)
            m = (mutate or mutate_obs)(json.loads(json.dumps(r)), crng)
            if m is not None and m != r:
                can.append(m)
        real = self.validate(module, cfg, recs, env=valenv)
        killed = 0
        if can and not real:
            killed = len(self.validate(module, cfg, can, env=valenv, count=False))
        kills = "%d/%d" % (killed, len(can))
        self.log("%s: %d cases, run %.1fs, validated %.1fs, rejected %d, canaries rejected %s" % (name, nreal, t1 - t, time.time() - t1, len(real), kills))
        self.notes.setdefault("suites", {})[name] = {"cases": nreal, "canaries_rejected": kills, "module": module}
        if sample:
            self.samples += [json.dumps(r)[:600] for r in (recs[len(recs) // 3: len(recs) // 3 + 1] + recs[-1:])][:sample]
        if real:
            # a rejection counts only if it happens again
            ks = sorted(real)[:8]
            again = None
            for attempt in range(3):
                sub = [cases[idx[k]] for k in ks]
                ob2 = self.run_cases(binary, sub, name + ".again", per_case=per_case, env=harness_env, jobs=1, wrap=wrap)
                rr = [{"in": c, "out": o} for c, o in zip(sub, ob2) if o is not None]
                b2 = self.validate(module, cfg, rr, env=valenv, count=False)
                if b2:
                    j = min(b2)
                    again = (rr[j], b2[j])
                    break
            if again is None:
                # order dependence: re-run the whole suite once
                ob2 = self.run_cases(binary, cases, name + ".again", per_case=per_case, env=harness_env, jobs=jobs, wrap=wrap)
                rr = [{"in": cases[k], "out": o} for k, o in enumerate(ob2) if o is not None]
                b2 = self.validate(module, cfg, rr, env=valenv, count=False)
                if b2:
                    j = min(b2)
                    again = (rr[j], b2[j])
            if again is not None:
                self.report(name, again[0], again[1], {"module": module, "cfg": cfg, "harness": os.path.basename(binary), "suite": name})
            else:
                self.log("rejection did not repeat; not reported:", json.dumps(recs[ks[0]])[:500])
                self.notes["unrepeated_rejections"] = self.notes.get("unrepeated_rejections", 0) + len(real)
        elif can and killed < max(1, int(min_kill * len(can))):
            raise MachineryError("%s: only %s canaries rejected: the specification does not constrain the observations" % (name, kills))
        return recs

    def report(self, name, record, why, meta=None):
        rp = os.path.join(self.work, "violation.%s.json" % re.sub(r"\W+", "_", name))
        with open(rp, "w") as f:
            json.dump({"property": self.pid, "suite": name, "why": why, "record": record, "meta": meta or {}}, f, indent=1)
        self.log("violating record:", json.dumps(record)[:1200], why)
        self.violations.append((rp, name, why))

    # ---------------------------------------------------------------- finish
    def finish(self):
        wall = time.time() - self.t0
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples[:8] or ["none"],
                           "details": self.notes},
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for rp, name, why in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, rp), flush=True)
        self.log("done", "VIOLATED" if self.violations else "held", "states", self.states, "traces", self.traces)
        return 1 if self.violations else 0


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        yield path, x
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path, x


def mutate_obs(rec, rng):
    """Change one leaf of the observation."""
    o = rec["out"]
    ls = [(p, v) for p, v in leaves(o) if p and p != ("st",) and (not isinstance(v, str))]
    if not ls:
        return None
    p, v = rng.choice(ls)
    cur = o
    for k in p[:-1]:
        cur = cur[k]
    if isinstance(v, bool):
        cur[p[-1]] = not v
    elif isinstance(v, int):
        cur[p[-1]] = v + rng.choice([-1, 1])
    elif isinstance(v, list):
        if not v:
            return None
        k = rng.randrange(len(v))
        if rng.random() < 0.5:
            del v[k]
        else:
            v.insert(k, json.loads(json.dumps(v[k])))
    return rec


def main(fn, pid):
    """Run a check function and turn its outcome into exit code 0/1 (anything else = machinery error 3)."""
    c = Check(pid)
    try:
        fn(c)
        return c.finish()
    except Violation as v:
        c.violations.append((v.replay, "build", v.what))
        c.log(v.what[:2000])
        return c.finish()
