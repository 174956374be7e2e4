#!/usr/bin/env python3
"""Driver of every check:  run.py <property> [quick|thorough] [--replay FILE]

Builds /repo's working tree, enumerates the property's case space over worker
processes (each running the real code on the model runtime), runs a subset of
the same cases on the real StarPU, confirms every failure in a fresh process,
and writes evidence/<property>.json."""
import sys, os, json, time, mmap, struct, subprocess, tempfile, shutil, importlib, re, collections, signal

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PY = "/opt/nntile-venv/bin/python"
NW = 8
HANG = 100.0


if os.path.realpath(sys.prefix) != os.path.realpath("/opt/nntile-venv") and os.path.exists(PY):
    os.execv(PY, [PY] + sys.argv)


def owner(i, n):
    """Which of n workers runs case i (spread so that loops of the case generator do not line up)."""
    return ((i * 0x9E3779B1 & 0xFFFFFFFF) >> 12) % n


def load(prop):
    return importlib.import_module("props." + prop.lower())


def known(prop):
    """Known findings of a property: list of (regular expression, text)."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


# ---------------------------------------------------------------- worker
def worker(spec):
    s = json.load(open(spec))
    import faulthandler
    faulthandler.enable()
    mod = load(s["prop"])
    res = open(s["result"], "a", buffering=1)
    mf = open(s["marker"], "r+b")
    mm = mmap.mmap(mf.fileno(), 16)

    def mark(i):
        mm[:16] = struct.pack("<qd", i, time.time())
    mark(-1)
    import h
    env = h.Env(s["out"], real=s["real"], ncpu=s.get("ncpu", 3), full_package=getattr(mod, "FULL_PACKAGE", False))
    if hasattr(mod, "setup"):
        mod.setup(env, s["tier"])
    kn = known(s["prop"])
    cnt = collections.Counter()
    nfail = 0
    t_end = time.time() + s["budget"] if s.get("budget") else None
    if s.get("explicit") is not None:
        it = enumerate(s["explicit"])
        i0, n = 0, 1
    else:
        gen = mod.cases(s["tier"])
        if s["real"]:
            gen = mod.real_cases(s["tier"]) if hasattr(mod, "real_cases") else strided(gen, mod)
        it = enumerate(gen)
        i0, n = s["slice"]
    runf = getattr(mod, "run_real", mod.run) if s["real"] else mod.run
    samples = []
    start = s.get("start", 0)
    stop = s.get("stop")
    for i, c in it:
        if owner(i, n) != i0 or i < start:
            continue
        if stop is not None and i >= stop:
            break
        if t_end and time.time() > t_end:
            cnt["budget_stop"] += 1
            break
        mark(i)
        try:
            r = runf(env, c)
        except h.Fail as e:
            msg = str(e)
            try:
                env.abandon()
            except Exception:
                pass
            hit = [t for rx, t in kn if rx.search(msg)]
            if hit:
                cnt["known"] += 1
                res.write(json.dumps({"known": hit[0]}) + "\n")
                continue
            res.write(json.dumps({"fail": i, "case": c, "msg": msg[:1500]}) + "\n")
            nfail += 1
            if nfail >= 3:
                break
            continue
        except Exception as e:
            # an exception the property module did not expect is a failed case:
            # the code under test raised where the property says it must not
            import traceback
            res.write(json.dumps({"fail": i, "case": c, "msg": "%s: %s" % (type(e).__name__, e),
                                  "tb": traceback.format_exc()[-2000:]}) + "\n")
            try:
                env.abandon()
            except Exception:
                pass
            nfail += 1
            if nfail >= 3:
                break
            continue
        cnt["cases"] += 1
        if isinstance(r, dict):
            cnt.update(r)
        elif isinstance(r, int):
            cnt["runs"] += r
        if len(samples) < 2 and cnt["cases"] in (1, 500):
            samples.append(c)
    st = env.stats()
    res.write(json.dumps({"done": True, "cnt": cnt, "stats": st, "samples": samples}) + "\n")
    res.close()
    sys.stdout.flush()
    os._exit(0)


def strided(gen, mod):
    k = getattr(mod, "REAL_STRIDE", 37)
    for i, c in enumerate(gen):
        if i % k == 0:
            yield c


class Worker:
    def __init__(self, tmp, name, spec, model_dir):
        self.name = name
        self.spec = spec
        self.result = os.path.join(tmp, name + ".res")
        self.marker = os.path.join(tmp, name + ".mark")
        self.logp = os.path.join(tmp, name + ".log")
        open(self.result, "w").close()
        with open(self.marker, "wb") as f:
            f.write(struct.pack("<qd", -2, time.time()))
        sp = os.path.join(tmp, name + ".spec")
        json.dump(dict(spec, result=self.result, marker=self.marker), open(sp, "w"))
        e = dict(os.environ)
        e.update(PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                 PYTHONDONTWRITEBYTECODE="1")
        if not spec["real"]:
            e["LD_LIBRARY_PATH"] = model_dir
        else:
            e.pop("LD_LIBRARY_PATH", None)
            e.update(STARPU_NCPU=str(spec.get("ncpu", 3)), STARPU_SILENT="1", STARPU_WORKERS_NOBIND="1",
                     STARPU_NCUDA="0", STARPU_HOME=tmp, STARPU_FXT_TRACE="0")
        self.t0 = time.time()
        self.log = open(self.logp, "w")
        self.p = subprocess.Popen([PY, os.path.join(HERE, "run.py"), "--worker", sp], env=e, stdout=self.log,
                                  stderr=subprocess.STDOUT, cwd=tmp, start_new_session=True)
        self.pos = 0
        self.done = None
        self.hung = False

    def poll_lines(self):
        with open(self.result) as f:
            f.seek(self.pos)
            data = f.read()
        k = data.rfind("\n") + 1
        self.pos += k
        return [json.loads(l) for l in data[:k].splitlines()]

    def mark(self):
        with open(self.marker, "rb") as f:
            return struct.unpack("<qd", f.read(16))

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def tail(self):
        self.log.flush()
        try:
            return open(self.logp, errors="replace").read()[-1500:]
        except OSError:
            return ""


def run_one(tmp, name, spec, model_dir, hang):
    """Run a worker to completion; returns (failure dict or None, reason)."""
    w = Worker(tmp, name, spec, model_dir)
    fails, done = [], None
    while True:
        rc = w.p.poll()
        for l in w.poll_lines():
            if "fail" in l:
                fails.append(l)
            if l.get("done"):
                done = l
        if rc is not None:
            break
        i, t = w.mark()
        if time.time() - max(t, w.t0) > hang:
            w.kill()
            return {"fail": i, "msg": "no progress for %.0f s (hang)" % hang}, None
        time.sleep(0.05)
    if fails:
        return fails[-1], done
    if done is None:
        i, _ = w.mark()
        return {"fail": i, "msg": "process died with status %s: %s" % (rc, last_line(w.tail()))}, None
    return None, done


def last_line(s):
    ls = [l for l in s.splitlines() if l.strip()]
    f = [l for l in ls if "MC-FATAL" in l or "terminate" in l or "what()" in l or "Assertion" in l]
    if f:
        return f[-1][:600]
    k = [l for l in ls if "Error" in l or "terminate" in l or "what()" in l or "Fatal" in l or "Assertion" in l]
    return " | ".join((k or ls)[-3:])[:600]


def nth_cases(prop, tier, real, idxs):
    """Recover cases by index (parent side; needs no extension)."""
    mod = load(prop)
    gen = mod.cases(tier)
    if real:
        gen = mod.real_cases(tier) if hasattr(mod, "real_cases") else strided(gen, mod)
    out = {}
    m = max(idxs)
    want = set(idxs)
    for i, c in enumerate(gen):
        if i in want:
            out[i] = c
        if i >= m:
            break
    return [json.loads(json.dumps(out[i])) for i in sorted(out)]


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--worker":
        return worker(sys.argv[2])
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opts = [a for a in sys.argv[1:] if a.startswith("--")]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    replay = args[1] if "--replay" in opts else None
    if replay:
        tier = "quick"
    t0 = time.time()
    import build
    mod = load(prop)
    variant = getattr(mod, "VARIANT", "plain")
    try:
        out = build.build(variant, True)
        out_real = out if variant == "plain" else None
    except build.BuildError as e:
        print("build of /repo failed:\n%s" % e)
        return 2
    model_dir = os.path.join(out, "model")
    tmp = tempfile.mkdtemp(prefix="mc_%s_" % prop, dir=os.path.join(VERIF, ".build"))
    try:
        return drive(prop, tier, mod, out, model_dir, tmp, replay, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def drive(prop, tier, mod, out, model_dir, tmp, replay, t0):
    hang = getattr(mod, "HANG", HANG)
    base = dict(prop=prop, tier=tier, out=out)
    if replay:
        r = json.load(open(replay))
        if r["tier"] != tier:
            base["tier"] = r["tier"]
        f, _ = run_one(tmp, "replay", dict(base, real=r["real"], explicit=r["cases"]), model_dir, hang)
        print("replay: %s" % (f["msg"] if f else "no failure"))
        return 1 if f else 0
    nw = getattr(mod, "WORKERS", NW)
    ws = []
    k = 0
    for i in range(nw):
        ws.append(Worker(tmp, "w%d" % i, dict(base, real=False, slice=[i, nw]), model_dir))
    rb = getattr(mod, "REAL_BUDGET", {"quick": 12.0, "thorough": 120.0})
    rb = rb[tier] if rb else 0
    if rb:
        for i in range(getattr(mod, "REAL_WORKERS", 1)):
            ws.append(Worker(tmp, "r%d" % i, dict(base, real=True, slice=[i, getattr(mod, "REAL_WORKERS", 1)], budget=rb),
                             model_dir))
    active = list(ws)
    cnt, stats, rcnt = collections.Counter(), collections.Counter(), collections.Counter()
    samples, knowns, unrep, notes = [], collections.Counter(), [], []
    violation = None
    serial = 0

    def candidate(w, idx, case, msg):
        """A failing case: reproduce it in fresh processes before believing it."""
        nonlocal serial
        spec = dict(base, real=w.spec["real"], ncpu=w.spec.get("ncpu", 3))
        if case is None:
            if idx is None or idx < 0:
                # died before its first case (import / initialisation)
                serial += 1
                f, _ = run_one(tmp, "c%d" % serial, dict(spec, explicit=[]), model_dir, hang)
                if f:
                    return [], f["msg"]
                return None
            case = nth_cases(prop, tier, w.spec["real"], [idx])[0]
        tries = [[case]]
        if idx is not None and idx >= 0:
            i0, n = w.spec["slice"]
            prev = [j for j in range(max(0, idx - 60 * n), idx) if owner(j, n) == i0]
            if prev:
                tries.append(("prev", prev))
            tries.append("slice")
        for t in tries:
            serial += 1
            if t == "slice":
                sp = dict(spec, slice=w.spec["slice"], stop=idx + 1, start=w.spec.get("start", 0))
                cs = None
            else:
                cs = t if isinstance(t, list) else nth_cases(prop, tier, w.spec["real"], t[1]) + [case]
                sp = dict(spec, explicit=cs)
            f, _ = run_one(tmp, "c%d" % serial, sp, model_dir, hang)
            if f:
                if cs is None:
                    i0, n = w.spec["slice"]
                    cs = nth_cases(prop, tier, w.spec["real"], [j for j in range(idx + 1) if owner(j, n) == i0])
                return cs, f["msg"]
        return None

    while active and violation is None:
        time.sleep(0.1)
        for w in list(active):
            rc = w.p.poll()
            for l in w.poll_lines():
                if "known" in l:
                    knowns[l["known"]] += 1
                elif "fail" in l:
                    c = candidate(w, l["fail"], l["case"], l["msg"])
                    if c:
                        violation = (w, c[0], c[1])
                        break
                    unrep.append(l["msg"][:300])
                elif l.get("done"):
                    w.done = l
            if violation:
                break
            i, t = w.mark()
            if rc is None and time.time() - max(t, w.t0) > hang:
                w.kill()
                w.hung = True
                rc = -1
            if rc is not None:
                for l in w.poll_lines():
                    if l.get("done"):
                        w.done = l
                    elif "known" in l:
                        knowns[l["known"]] += 1
                    elif "fail" in l:
                        c = candidate(w, l["fail"], l["case"], l["msg"])
                        if c:
                            violation = (w, c[0], c[1])
                if violation:
                    break
                active.remove(w)
                if w.done is None:
                    c = candidate(w, i, None, "hang" if w.hung else "died")
                    if c:
                        violation = (w, c[0], c[1])
                        break
                    unrep.append("worker %s stopped (%s) at case %d; not reproduced: %s" % (
                        w.name, "hang" if w.hung else "status %s" % rc, i, last_line(w.tail())))
                    if not w.spec["real"]:
                        # carry on with the rest of the slice; the case itself was run by the confirmation
                        k += 1
                        nwk = Worker(tmp, "%s_%d" % (w.name, k), dict(w.spec, start=i + 1), model_dir)
                        ws.append(nwk)
                        active.append(nwk)
    for w in active:
        w.kill()
    for w in ws:
        if w.done:
            (rcnt if w.spec["real"] else cnt).update(w.done["cnt"])
            for kk, v in (w.done["stats"] or {}).items():
                stats[kk] = max(stats[kk], v) if kk.startswith("max") else stats[kk] + v
            if not w.spec["real"]:
                samples += w.done["samples"]
    wall = time.time() - t0
    cov = {
        # checks about calls that submit nothing explore argument states only
        # (STATE_COUNTER names the module's own count of them)
        "states": max(int(stats["states"]), int(cnt[getattr(mod, "STATE_COUNTER", "cases")])),
        "transitions": max(int(stats["transitions"]), int(cnt[getattr(mod, "STATE_COUNTER", "cases")])),
        "traces_validated_against_impl": int(rcnt["cases"]),
        "samples": samples[:4],
        "exhaustive": bool(violation is None and not unrep and not cnt["budget_stop"] and not stats["capped"]),
        "cases": int(cnt["cases"]),
        "task_executions": int(stats["executed"]),
        "complete_schedules_or_terminals": int(stats["terminals"]),
        "sync_points_explored": int(stats["explored_points"]),
        "sync_points_capped": int(stats["capped"]),
        "max_pending_tasks": int(stats["max_pending"]),
        "max_ready_tasks": int(stats["max_ready"]),
        "counts": {kk: v for kk, v in sorted(cnt.items()) if isinstance(v, int)},
        "real_starpu_counts": {kk: v for kk, v in sorted(rcnt.items()) if isinstance(v, int)},
        "known_findings_hit": int(sum(knowns.values())),
        "unreproduced": unrep[:5],
    }
    cov.update(getattr(mod, "COVERAGE", {}))
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": cov, "wall_s": round(wall, 2), "violations": 1 if violation else 0,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", []))}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for t, c in sorted(knowns.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    for u in unrep[:5]:
        print("note: not reproduced, not reported: %s" % u)
    print("%s %s: %d cases, %d states, %d transitions, %d task executions, %d cases on real StarPU, %.1f s" % (
        prop, tier, cnt["cases"], stats["states"], stats["transitions"], stats["executed"], rcnt["cases"], wall))
    if violation:
        w, cs, msg = violation
        rd = os.path.join(VERIF, ".build", "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s.json" % prop)
        with open(rp, "w") as f:
            json.dump({"property": prop, "tier": tier, "real": w.spec["real"], "cases": cs, "message": msg}, f)
        print("violated: %s" % msg[:1200])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
