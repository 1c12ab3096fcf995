#!/usr/bin/env python3
"""driver: python3-vt check.py <PROPERTY> [--tier quick|thorough]
exit 0 property held on everything analysed; 1 violation; 2 the analysis could not decide"""
import sys, os, time, json, argparse, importlib, threading, re, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "2")
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
KNOWN = os.path.join(HERE, "known_findings.txt")


def known_findings(prop):
    """entries 'KNOWN-FINDING property=<id> key=<obligation>|<tag> :: <what fails>'"""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            m = re.match(r"KNOWN-FINDING property=(\S+) key=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


KINDS = {"f": " (real arrays)", "i": " (integer arrays)", "first": " (first bond only)", "last": " (last bond only)", "none": " (product state)"}


def plain(name):
    """name of the obligation a rerun on another kind of arrays belongs to"""
    for x in KINDS.values():
        name = name.replace(x, "")
    return name


def on_bonds(ob, mode):
    """the same obligation on chains some of whose bonds have dimension one (sites without entanglement next to entangled ones)"""
    import copy
    from sa import spec
    r = copy.copy(ob)
    r.name = ob.name + KINDS[mode]

    def fn(it):
        old, spec.BONDS = spec.BONDS, mode
        try:
            return ob.fn(it)
        finally:
            spec.BONDS = old
    r.fn = fn
    return r


def on_kind(ob, kind):
    """the same obligation on arbitrary real or integer arrays: what is decided by the kind of an array (np.iscomplexobj, the kind of a
    buffer that is written into, a skipped conj) differs from the complex case"""
    import copy
    from sa import spec
    r = copy.copy(ob)
    r.name = ob.name + KINDS[kind]

    def fn(it):
        old, spec.KIND = spec.KIND, kind
        try:
            return ob.fn(it)
        finally:
            spec.KIND = old
    r.fn = fn
    return r


T0 = time.time()
LIMIT = {"quick": (240, 20, 300), "thorough": (3600, 120, 3600)}     # seconds for an obligation, for a rerun of one; no reruns are started after


def out_of_time(*a):
    from sa import rule
    raise rule.OutOfTime()


def run_one(it, ob, seed, tier):
    import numpy as np
    from sa import rule, nd
    np.random.seed(seed)
    first, rerun, stop = LIMIT.get(tier, LIMIT["quick"])
    again = plain(ob.name) != ob.name
    main = threading.current_thread() is threading.main_thread()      # true in the forked workers
    if again and time.time() - T0 > stop:
        r = rule.Result(ob)
        r.timeout = True
        r.undecided.append("time limit")
        return r
    try:
        if main:
            signal.signal(signal.SIGALRM, out_of_time)
            signal.setitimer(signal.ITIMER_REAL, rerun if again else first)
        try:
            return rule.run_ob(it, ob)
        finally:
            if main:
                signal.setitimer(signal.ITIMER_REAL, 0)
    except rule.Missing as e:
        return str(e)
    except nd.Raise as e:
        return "entry cannot be analysed: %s %s" % (e.exc, e.msg)


def run_all(it, obs, jobs, seed, tier):
    """outcome of every obligation (a Result, or the text of what is missing), computed by forked workers"""
    if jobs == 1:
        return [run_one(it, ob, seed + i, tier) for i, ob in enumerate(obs)]
    import multiprocessing, pickle
    from sa import rule, tn
    it.mod("fMPS")
    ctx = multiprocessing.get_context("fork")
    nxt = ctx.Value("i", 0)
    order = sorted(range(len(obs)), key=lambda i: -getattr(obs[i], "cost", 0))
    kids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for _ in range(jobs):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rd)
                base = dict(tn.STATS)
                with os.fdopen(wr, "wb") as out:
                    while True:
                        with nxt.get_lock():
                            k = nxt.value
                            nxt.value += 1
                        if k >= len(obs):
                            break
                        i = order[k]
                        try:
                            r = run_one(it, obs[i], seed + i, tier)
                        except Exception as e:
                            import traceback
                            traceback.print_exc()
                            r = rule.Result(obs[i])
                            r.undecided.append("internal: %s" % e)
                        if isinstance(r, rule.Result):
                            r.ob = None
                        pickle.dump((i, r), out)
                        out.flush()
                    pickle.dump((-1, (set(it.functions), set(it.callsites), set(it.ext_used), set(it.files), {k: v - base.get(k, 0) for k, v in tn.STATS.items()})), out)
                code = 0
            finally:
                sys.stdout.flush()
                os._exit(code)
        os.close(wr)
        kids.append((pid, rd))
    res = [None] * len(obs)

    def collect(rd):
        with os.fdopen(rd, "rb") as f:
            while True:
                try:
                    i, r = pickle.load(f)
                except Exception:
                    return
                if i >= 0:
                    res[i] = r
                else:
                    fn, cs, ex, fl, st = r
                    it.functions.update(fn)
                    it.callsites.update(cs)
                    it.ext_used.update(ex)
                    it.files.update(dict.fromkeys(fl, True))
                    for k, v in st.items():
                        tn.STATS[k] = tn.STATS.get(k, 0) + v
    ths = [threading.Thread(target=collect, args=(rd,)) for _, rd in kids]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for pid, _ in kids:
        os.waitpid(pid, 0)
    for i, r in enumerate(res):
        if r is None:
            r = res[i] = rule.Result(obs[i])
            r.undecided.append("the worker analysing it ended early")
        if isinstance(r, rule.Result):
            r.ob = obs[i]
    return res


def main(a):
    t0 = time.time()
    import numpy as np
    seed = int(os.environ.get("VERIF_SEED", "1"))
    np.random.seed(seed)
    from sa import interp, rule, tn, nd
    if not os.path.isdir(os.path.join(interp.REPO, "xmps")):
        print("ERROR: no xmps package in %s" % interp.REPO)
        return 2
    mod = importlib.import_module("sa.rules." + a.prop.lower())
    it = interp.Interp()
    obs = mod.obligations(a.tier)
    if a.only:
        obs = [o for o in obs if re.search(a.only, o.name)]
    if getattr(mod, "REAL", True):
        modes, skip = getattr(mod, "BONDS", ("first", "last", "none")), getattr(mod, "BONDS_SKIP", None)
        some = [o for o in obs if not (skip and re.search(skip, o.name))] if "mps_data" in open(mod.__file__).read() else []
        obs = obs + [on_bonds(o, m) for i, o in enumerate(some) for m in ([modes[i % len(modes)]] if a.tier == "quick" else modes)] + [on_kind(o, k) for k in ("f" if a.tier == "quick" else "fi") for o in obs]
    known = known_findings(a.prop)
    results, viol, kf, missing, late = [], [], [], [], []
    jobs = 1 if a.jobs == 1 or len(obs) < 4 else min(a.jobs or os.cpu_count() or 1, 8, len(obs))
    for ob, r in zip(obs, run_all(it, obs, jobs, seed, a.tier)):
        if not isinstance(r, rule.Result):
            missing.append((ob, r))
            continue
        if r.timeout and not r.fails and plain(ob.name) != ob.name:
            late.append(ob.name)
            continue
        results.append(r)
        seen = set()
        for tag, detail, where in r.fails:
            key = "%s|%s" % (plain(ob.name), tag)
            if key in seen:
                continue
            seen.add(key)
            (kf if key in known else viol).append((key if key in known else "%s|%s" % (ob.name, tag), where, detail, ob))
        if a.verbose:
            print("%-60s paths=%d ok=%d fails=%d undecided=%d %.2fs" % (ob.name, r.paths, r.okpaths, len(r.fails), len(r.undecided), r.wall))
            for u in r.undecided[:3]:
                print("      undecided:", u)
            for f in r.fails[:3]:
                print("      FAIL:", f)
    discharged = [r for r in results if r.okpaths and not r.undecided and not r.fails]
    undecided = [r for r in results if r.undecided or not r.okpaths and not r.fails]
    for r in undecided:
        print("UNDECIDED property=%s obligation=%s: %s" % (a.prop, r.ob.name, (r.undecided or ["no path completed"])[0][:300]))
    for ob, msg in missing:
        print("MISSING property=%s obligation=%s entry=%s: %s" % (a.prop, ob.name, ob.entry, msg))
    for key in dict.fromkeys(k for k, *_ in kf):
        print("KNOWN-FINDING: property=%s %s (%s)" % (a.prop, known[key], key))
    if late:
        print("reruns on other arrays left out for time: %d" % len(late))
    rep = os.path.join(HERE, "evidence", "%s.report.json" % a.prop)
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    json.dump([{"rule": k, "where": w, "detail": d, "entry": ob.entry} for k, w, d, ob in viol], open(rep, "w"), indent=1, ensure_ascii=False)
    for key, where, detail, ob in viol:
        print("  violated: %s\n    at %s\n    entry %s\n    %s" % (key, where, ob.entry, detail[:1500]))
    if viol:
        print("VIOLATION property=%s replay=%s" % (a.prop, rep))
    ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": "other",
          "coverage": {"explanation": mod.__doc__.strip() if mod.__doc__ else "",
                       "obligations": len(obs), "discharged": len(discharged), "undecided": len(undecided),
                       "missing_anchors": len(missing), "reruns_out_of_time": late, "known_findings": len(set(k for k, *_ in kf)),
                       "trace_partitions": sum(r.paths for r in results),
                       "functions_analysed": sorted(it.functions), "functions_analysed_count": len(it.functions),
                       "call_sites_analysed": len(it.callsites), "library_functions_modelled": sorted(it.ext_used),
                       "files_read": sorted(p.replace(it.repo + "/", "") for p in it.files),
                       "equalities_by": dict(tn.STATS), "extra": getattr(mod, "EXTRA", {}),
                       "obligation_list": [{"name": r.ob.name, "entry": r.ob.entry, "partitions": r.paths,
                                            "outcome": "violated" if r.fails else ("undecided" if r.undecided or not r.okpaths else "discharged")} for r in results]},
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + ["numpy/scipy behave as modelled in sa/nd.py and sa/models.py",
                          "structural parameters (lengths, dimensions, sites) range over the grid of the obligation list"],
          "violations": [{"rule": k, "where": w, "detail": d} for k, w, d, _ in viol],
          "wall_s": round(time.time() - t0, 2)}
    json.dump(ev, open(os.path.join(HERE, "evidence", a.prop + ".json"), "w"), indent=1, ensure_ascii=False)
    print("%s: %d obligations, %d discharged, %d undecided, %d known findings, %d violations, %d functions, %.1fs" % (
        a.prop, len(obs), len(discharged), len(undecided), len(set(k for k, *_ in kf)), len(viol), len(it.functions), time.time() - t0))
    if viol:
        return 1
    if not a.only:
        obs = [o for o in obs if o.name not in set(late)]
        floor = getattr(mod, "FLOOR", 1)
        decided = len(discharged) + len(set(ob.name for *_, ob in kf))
        if missing or decided < max(1, 0.5 * len(obs)) or decided < floor * 0.5:
            print("ERROR: the analysis decided only %d of %d obligations (floor %d), %d missing anchors" % (decided, len(obs), floor, len(missing)))
            return 2
    return 0


def setup():
    import numpy, scipy, ast  # noqa
    from sa import interp  # noqa
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    print("setup ok: numpy %s scipy %s python %s" % (numpy.__version__, scipy.__version__, sys.version.split()[0]))
    return 0


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("-v", "--verbose", action="store_true")
    a = ap.parse_args()
    rc = [2]

    def run():
        try:
            rc[0] = setup() if a.setup else main(a)
        except BaseException:
            import traceback
            traceback.print_exc()
            print("ERROR: the analysis failed")
            rc[0] = 2
    th = threading.Thread(target=run)
    th.start()
    th.join()
    sys.exit(rc[0])
