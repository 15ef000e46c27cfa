"""Controlled-schedule exploration of the real concurrent code (harness/conc.cc + harness/vsched)."""
import json, os, random, subprocess
from concurrent.futures import ThreadPoolExecutor
import vf


def build(c):
    R, V = vf.REPO, vf.VERIF
    base = ["g++", "-std=c++23", "-O1", "-g1", "-w", "-DFMT_HEADER_ONLY", "-I" + R + "/include", "-I" + V + "/harness", "-c"]
    ts = base + ["-fsanitize=thread"]
    jobs = [(base + [V + "/harness/vsched/vsched.cc"], "vs.o"), (ts + [V + "/harness/conc.cc"], "conc.o"),
            (ts + [R + "/src/progress_tracker.cc"], "pt.o")]

    def one(j):
        o = os.path.join(c.work, j[1])
        p = subprocess.run(j[0] + ["-o", o], capture_output=True, text=True)
        if p.returncode:
            rp = os.path.join(c.work, j[1] + ".compile.log")
            open(rp, "w").write(" ".join(j[0]) + "\n" + p.stderr)
            if "vsched" not in j[0][-1] and c._is_repo_problem(p.stderr):
                raise vf.Violation(rp, "documented use of the library no longer compiles: " + p.stderr[:400])
            raise vf.MachineryError(p.stderr[:3000])
        return o
    with ThreadPoolExecutor(3) as ex:
        objs = list(ex.map(one, jobs))
    exe = os.path.join(c.work, "conc")
    # linked without libtsan: vsched.cc provides the instrumentation callbacks
    p = subprocess.run(["g++"] + objs + ["-rdynamic", "-pthread", "-ldl", "-o", exe], capture_output=True, text=True)
    if p.returncode:
        raise vf.MachineryError(p.stderr[:3000])
    c.log("built the controlled-scheduler harness")
    return exe


DEF = {"workers": 2, "spurious": 1, "runs": 100, "seed": 1, "cap": 200, "memcap": 0, "mem": 0, "mode": "random", "maxpoint": 400, "kinds": []}


def case(**kw):
    d = dict(DEF)
    d.update(kw)
    return d


def explore(c, exe, cases, tag, per_case=300):
    obs = c.run_cases(exe, cases, tag, per_case=per_case, chunk=1)
    for x, o in zip(cases, obs):
        if o is None or o.get("st") != "ok":
            raise vf.MachineryError("%s: the exploration itself failed: %r %r" % (tag, x, o))
    runs = sum(o["runs"] for o in obs)
    dist = sum(o["distinct"] for o in obs)
    c.log("%s: %d programs, %d schedules of the real code, %d distinct event traces, %d abnormal ends" % (
        tag, len(cases), runs, dist, sum(o["bad"] for o in obs)))
    n = c.notes.setdefault("schedules", {}).setdefault(tag, {"programs": 0, "schedules": 0, "distinct_traces": 0, "not_kept": 0, "exhausted_delay_bounded": 0})
    n["programs"] += len(cases)
    n["schedules"] += runs
    n["distinct_traces"] += dist
    n["not_kept"] += sum(o["dropped"] for o in obs)
    n["exhausted_delay_bounded"] += sum(1 for o in obs if o.get("exhausted"))
    return obs


def records(cases, obs):
    recs, src = [], []
    for k, (x, o) in enumerate(zip(cases, obs)):
        for t in o["traces"]:
            recs.append({"in": x, "out": {"st": "ok", "ev": t["ev"], "end": t["end"], "what": t["what"], "strat": t["strat"], "seed": t["seed"], "delays": t["delays"]}})
            src.append(k)
    return recs, src


def mutate(rec, rng, kinds, ways=(0, 1, 2)):
    ev = rec["out"]["ev"]
    go = max([j for j, e in enumerate(ev) if e[0] == "go"] or [-1])
    ks = [j for j, e in enumerate(ev) if e[0] in kinds and j > go]
    if not ks:
        return None
    r = json.loads(json.dumps(rec))
    ev = r["out"]["ev"]
    j = rng.choice(ks)
    w = rng.choice(ways)
    if w == 0:
        del ev[j]
    elif w == 1:
        ev.insert(j, list(ev[j]))
    else:
        a = [q for q in range(2, 6) if ev[j][q] != -1]
        if not a:
            del ev[j]
        else:
            ev[j][rng.choice(a)] += 1
    return r


def judge(c, exe, cases, tag, module, cfg, kinds, canaries=30, limit=None, per_case=300, min_kill=0.5, endcan=False, ways=(0, 1, 2)):
    """Explore, then let TLC validate every kept trace."""
    obs = explore(c, exe, cases, tag, per_case)
    recs, src = records(cases, obs)
    if limit and len(recs) > limit:
        keep = [k for k in range(len(recs)) if recs[k]["out"]["end"] != "ok"][:limit // 2]
        rest = [k for k in range(len(recs)) if recs[k]["out"]["end"] == "ok"]
        c.rng.shuffle(rest)
        keep = sorted(keep + rest[:limit - len(keep)])
        c.notes.setdefault("trace_sampling", {})[tag] = "%d of %d" % (len(keep), len(recs))
        recs, src = [recs[k] for k in keep], [src[k] for k in keep]
    rng = random.Random(c.seed)
    ok = [r for r in recs if r["out"]["end"] == "ok"]
    can = []
    for _ in range(canaries * 10):
        if not ok or len(can) >= canaries:
            break
        if endcan:   # a run that stops somewhere
            m = json.loads(json.dumps(rng.choice(ok)))
            m["out"]["end"] = "deadlock"
            m["out"]["ev"] = m["out"]["ev"][:rng.randrange(1, len(m["out"]["ev"]))]
        else:
            m = mutate(rng.choice(ok), rng, kinds, ways)
        if m:
            can.append(m)
    slim = [{"in": {k: v for k, v in r["in"].items() if k not in ("guides",)}, "out": {"st": "ok", "ev": r["out"]["ev"], "end": r["out"]["end"]}} for r in recs + can]
    real = c.validate(module, cfg, slim[:len(recs)])
    killed = len(c.validate(module, cfg, slim[len(recs):], count=False)) if can and not real else 0
    c.log("%s: %d traces validated by TLC (%s), rejected %d, canaries rejected %d/%d" % (tag, len(recs), cfg, len(real), killed, len(can)))
    c.notes.setdefault("suites", {})[tag] = {"traces": len(recs), "canaries_rejected": "%d/%d" % (killed, len(can)), "module": module, "cfg": cfg}
    c.samples += [" ".join("%s%d%s" % (e[0], e[1], [x for x in e[2:] if x != -1]) for e in r["out"]["ev"])[:500] for r in recs[:1]]
    if real:
        # schedules are deterministic: the same exploration must reject again
        ks = sorted({src[k] for k in real})[:3]
        again = explore(c, exe, [cases[k] for k in ks], tag + ".again", per_case)
        r2, s2 = records([cases[k] for k in ks], again)
        first = min(real)
        keys = {json.dumps(r["out"]["ev"]) for k, r in enumerate(recs) if k in real}
        rep = [r for r in r2 if json.dumps(r["out"]["ev"]) in keys]
        if rep:
            c.report(tag, rep[0], real[first], {"module": module, "cfg": cfg})
        else:
            # nondeterministic after all: judge the second exploration on its own
            b2 = c.validate(module, cfg, [{"in": r["in"], "out": {"st": "ok", "ev": r["out"]["ev"], "end": r["out"]["end"]}} for r in r2], count=False)
            if b2:
                c.report(tag, r2[min(b2)], b2[min(b2)], {"module": module, "cfg": cfg})
            else:
                c.log("rejection did not repeat; not reported")
    elif can and killed < min_kill * len(can):
        raise vf.MachineryError("%s: only %d/%d canaries rejected" % (tag, killed, len(can)))
    return obs


def judge_races(c, exe, cases, tag, obs=None, canaries=20, per_case=300):
    """Executions recorded with all memory accesses: TLC evaluates the happens-before machine on them."""
    if obs is None:
        obs = explore(c, exe, cases, tag, per_case)
    recs, src = [], []
    for k, (x, o) in enumerate(zip(cases, obs)):
        for m in o["mems"]:
            recs.append({"in": {"n": m["n"]}, "out": {"st": "ok", "m": m["m"]}, "what": m["what"], "prog": x})
            src.append(k)
    if not recs:
        raise vf.MachineryError(tag + ": no memory traces")
    rng = random.Random(c.seed)
    can = []
    for _ in range(canaries * 200):
        if len(can) >= canaries:
            break
        r = rng.choice(recs)
        m = [list(e) for e in r["out"]["m"]]
        # a plain access that another thread also makes, moved away from its synchronisation: drop all locks / make atomics relaxed
        if rng.random() < 0.5:
            m = [e for e in m if e[0] not in (5, 6)]
            m = [[e[0], e[1], e[2], 0] for e in m]
        else:
            m = [e for e in m if e[0] not in (9, 10)] + []
            m = [[e[0], e[1], e[2], 0] for e in m]
        can.append({"in": r["in"], "out": {"st": "ok", "m": m}})
    bad = c.validate("HBConf", "HBConf.cfg", [{"in": r["in"], "out": r["out"]} for r in recs + can])
    c.traces -= len(can)
    killed = sum(1 for k in bad if k >= len(recs))
    real = {k: v for k, v in bad.items() if k < len(recs)}
    flagged = sum(1 for r in recs if r["what"])
    c.log("%s: %d memory traces (%d events) judged by TLC, racy %d (pre-filter flagged %d), canaries rejected %d/%d" % (
        tag, len(recs), sum(len(r["out"]["m"]) for r in recs), len(real), flagged, killed, len(can)))
    c.notes.setdefault("suites", {})[tag + ".races"] = {"traces": len(recs), "events": sum(len(r["out"]["m"]) for r in recs), "canaries_rejected": "%d/%d" % (killed, len(can))}
    if set(k for k, r in enumerate(recs) if r["what"]) != set(real):
        raise vf.MachineryError("pre-filter and specification disagree about races")
    if real:
        k = min(real)
        again = explore(c, exe, [cases[src[k]]], tag + ".again", per_case)
        if any(m["what"] for m in again[0]["mems"]):
            c.report(tag, {"what": recs[k]["what"], "program": cases[src[k]], "n": recs[k]["in"]["n"], "trace": recs[k]["out"]["m"]}, "data race: " + recs[k]["what"])
        else:
            c.log("race did not repeat; not reported")
    elif killed < 0.3 * len(can):
        raise vf.MachineryError("%s: only %d/%d canaries rejected" % (tag, killed, len(can)))


def guides(c, module, cfg_text, num, depth, name):
    """Behaviours of the fine-grained specification, as thread schedules."""
    p = os.path.join(c.work, name + ".cfg")
    open(p, "w").write(cfg_text)
    return c.generate(module, p, workers=1, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(c.seed)])
