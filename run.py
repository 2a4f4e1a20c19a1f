#!/usr/bin/env python3
"""run.py <ID> [--replay FILE]: decides one property of bwsl.

Exit 0: it held on everything explored.  Exit 1 and a line
"VIOLATION property=<ID> replay=<FILE>": it is broken.  Exit 2: no answer.
"""
import argparse, importlib, json, os, random, re, sys, tempfile, time, shutil, threading
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core
from vf.core import *

GROUPS = ["grid", "lattice", "rational", "objects", "utils", "generic", "threads", "units"]


def find(pid):
    for g in GROUPS:
        if not os.path.exists(os.path.join(VERIF, "vf", g + ".py")):
            continue
        m = importlib.import_module("vf." + g)
        if pid in m.CHECKS:
            return m.CHECKS[pid]
    raise CheckError("no check for " + pid)


def tlc_histories(tmp, spec, cfg, workers=1, extra=(), env={}):
    """histories of operations enumerated by TLC from the specification"""
    r = tlc(tmp, spec, cfg=cfg, workers=workers, extra=extra, env=env)
    if r.code != 0:
        raise CheckError("%s: exit %d\n%s" % (spec, r.code, r.out[-2000:]))
    res = []
    # PrintT wraps long values over several lines
    for m in re.finditer(r'<<\s*"STIM",\s*<<(.*?)>>\s*>>', r.out, re.S):
        res.append(re.findall(r'"([^"]*)"', m.group(1)))
    if not res:
        raise CheckError("%s generated no history" % spec)
    return res, r


def known_findings(pid):
    """lines 'finding: property=<ID> key=<KEY> <what fails>'"""
    p = os.path.join(VERIF, "known_findings.txt")
    res = {}
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


def save_replay(pid, tag, stim, trace, at, msg, seed, tier, part=0):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "%s_%s.json" % (pid, re.sub(r"\W+", "_", str(tag))))
    ops = list(stim.ops)
    json.dump({"property": pid, "part": part, "seed": seed, "tier": tier, "id": stim.id, "src": stim.src, "ops": ops, "message": msg,
               "accepted_events": at, "rejected_event": trace[at] if at < len(trace) else None,
               "events": trace[: at + 1]}, open(path, "w"), indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick") or "quick")
    a = ap.parse_args()
    pid, seed, tier = a.id, a.seed, a.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="bwsl_%s_" % pid)
    try:
        return check(pid, seed, tier, tmp, t0, a.replay)
    except CheckError as e:
        log("ERROR property=%s %s" % (pid, e))
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def by_threads(keyed):
    """the executions of the threads of a history, one by one"""
    res = []
    for exe, s, tr in keyed:
        cur = []
        for ev in tr:
            if ev["op"] == "thread":
                if cur:
                    res.append((exe, s, cur))
                cur = []
            else:
                cur.append(ev)
        res.append((exe, s, cur))
    return res


def check(pid, seed, tier, tmp, t0, replay):
    c = find(pid)
    # a check of several parts judges each by a specification of its own
    parts = [dict(c, **p) for p in c["parts"]] if "parts" in c else [c]
    rng = random.Random("%s/%d/%s" % (pid, seed, tier))
    env = dict(c.get("env", {}))
    env["BWSL_TIER"] = tier
    only = None
    if replay:
        rp = json.load(open(replay))
        only = rp.get("part", 0)
    pool = ThreadPoolExecutor(max_workers=4)
    bfs = []
    for n, p in enumerate(parts):
        # (what several parts use is built once)
        bfs.append(None if only not in (None, n) else pool.submit(build_many, tempfile.mkdtemp(prefix="part", dir=tmp), p["build"]))
    mcs = c.get("mc_" + tier, c.get("mc", []))
    mcf = [] if replay else [pool.submit(model_check, tmp, m) for m in mcs]
    genf = [[] if replay else [pool.submit(tlc_histories, tmp, *g) for g in p.get("tlcgen_" + tier, p.get("tlcgen", []))] for p in parts]
    known = {} if replay else known_findings(pid)
    states = transitions = events = nexec = 0
    opcount, info, found = {}, {}, []
    viol = None
    judged = []  # per part: the part and its executions
    for n, p in enumerate(parts):
        if only not in (None, n):
            continue
        stims = []
        if replay:
            stims = [Stim(rp["id"], rp["ops"], rp.get("src", "replay"))]
        else:
            stims = p["gen"](rng, tier)
            for g in p.get("tlcgen_" + tier, p.get("tlcgen", [])):
                hs, r = genf[n].pop(0).result()
                conv = p.get("tlcconv", lambda h, rng: h)
                stims += [Stim("tlc_%s_%d" % (g[0], i), conv(h, rng), "tlc:" + g[0]) for i, h in enumerate(hs)]
                info["histories_from_" + g[1]] = len(hs)
        exes = bfs[n].result()
        alltr = []
        # (a build may take only some histories, see 'variants')
        variants = p.get("variants")
        if variants:
            runs = [(exe, [s for s in stims if sel(s)]) for exe, sel in zip(exes, variants)]
        else:
            runs = [(exes[0], stims)]
        denv = dict(p.get("driver_env", {}))
        if len(exes) > 1 and p.get("helper_env"):
            denv[p["helper_env"]] = exes[1]
            runs = [(exes[0], stims)]
        tout = p.get("timeout", 60)
        for exe, mine in runs:
            trs = drive(exe, mine, tmp, timeout=tout, env=denv)
            alltr += [(exe, s, t) for s, t in zip(mine, trs)]
        t_run = time.time() - t0
        if os.environ.get("BWSL_DEBUG"):
            log("part", n, p["spec"], "histories:", len(alltr), "run after %.1f s" % t_run)
        post = p.get("post")
        if post:
            alltr = [(exe, s, post(s, tr)) for exe, s, tr in alltr]
        for _, _, tr in alltr:
            for ev in tr:
                opcount[ev["op"]] = opcount.get(ev["op"], 0) + 1
        # the histories of known findings are judged one by one
        keyed = [(exe, s, tr) for exe, s, tr in alltr if s.id.startswith("known:")]
        rest = by_threads([(exe, s, tr) for exe, s, tr in alltr if not s.id.startswith("known:")])
        judged.append((p, rest))
        nexec += len(rest) + len(keyed)
        events += sum(len(tr) for _, _, tr in rest + keyed)
        res, r = validate(tmp, p["spec"], [tr for _, _, tr in rest], env, p.get("cfg"))
        states += r.distinct
        transitions += r.generated
        if res is not None and viol is None:
            i, at, msg = res
            exe, s, tr = rest[i]
            again = drive(exe, [s], tmp, timeout=tout, env=denv)
            if post:
                again = [post(s, again[0])]
            rep, _ = validate(tmp, p["spec"], [t for _, _, t in by_threads([(exe, s, again[0])])], env, p.get("cfg"))
            msg += "" if rep is not None else " (not seen again when the history was repeated alone)"
            viol = (s, tr, at, msg, n, p["spec"])
        for exe, s, tr in keyed:
            res, r = validate(tmp, p["spec"], [tr], env, p.get("cfg"))
            states += r.distinct
            transitions += r.generated
            key = s.id[len("known:"):]
            if res is not None:
                if key in known:
                    log("KNOWN-FINDING: property=%s %s: %s" % (pid, key, known[key]))
                    found.append(key)
                elif viol is None:
                    viol = (s, tr, res[1], res[2], n, p["spec"])
        if viol is not None:
            break
    validated = nexec if viol is None else 0
    mc_info = []
    for m, f in zip(mcs, mcf):
        r = f.result()
        name = (m if isinstance(m, tuple) else (m["spec"], m.get("cfg")))
        mc_info.append({"spec": name[0], "cfg": name[1], "distinct_states": r.distinct, "states_generated": r.generated})
        states += r.distinct
        transitions += r.generated
    st = (0, 0, [])
    if viol is None and not replay:
        for p, rest in judged:
            x = selftest(tmp, p["spec"], [tr for _, _, tr in rest], p.get("obs", {}), random.Random(seed), env, p.get("cfg"),
                         limit=(24 if tier == "quick" else 80) // len(parts) or 1)
            st = (st[0] + x[0], st[1] + x[1], st[2] + x[2])
        if st[1] < st[0]:
            log("warning: %d of %d corrupted executions were accepted" % (st[0] - st[1], st[0]))
    wall = time.time() - t0
    if not replay:
        short = sorted((tr for _, rest in judged for _, _, tr in rest if tr), key=lambda tr: len(json.dumps(tr)))
        samples = [tr[:6] for tr in short[len(short) // 4:][:1] + short[len(short) // 2:][:1]]
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": states, "transitions": transitions,
                           "traces_validated_against_impl": validated, "events_checked": events,
                           "events_by_operation": opcount, "model_checks": mc_info,
                           "corrupted_executions_tried": st[0], "corrupted_executions_refused": st[1],
                           "known_findings_reproduced": found, "trace_spec": " ".join(sorted({p["spec"] for p in parts})),
                           "samples": [json.loads(json.dumps(s)[:20000]) if len(json.dumps(s)) < 20000 else
                                       [{"op": e["op"]} for e in s] for s in samples], **info},
              "assumptions": c.get("assumptions", []) + [
                  "the driver is built with g++ -O1 and %s, assertions off" % c.get("sanitizer", "AddressSanitizer")],
              "wall_s": round(wall, 2), "violations": 0 if viol is None else 1}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if viol is not None:
        s, tr, at, msg, n, spec = viol
        path = save_replay(pid, s.id, s, tr, at, msg, seed, tier, n)
        log("history %s (%s), event %d: %s" % (s.id, s.src, at + 1, msg))
        log("  refused: " + json.dumps(tr[at] if at < len(tr) else None)[:1500])
        log("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    log("HELD property=%s: %d executions (%d events) are behaviours of %s; %d model states; %d/%d corruptions refused; %.1f s (%.1f s to run)"
        % (pid, nexec, events, ", ".join(sorted({p["spec"] for p in parts})), sum(m["distinct_states"] for m in mc_info), st[1], st[0], wall, t_run))
    return 0


if __name__ == "__main__":
    sys.exit(main())
