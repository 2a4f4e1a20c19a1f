"""Plumbing of the checks: building and running the conformance drivers,
running TLC, and turning a rejected execution into a violation report."""
import json, os, re, random, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BWSL_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8


class CheckError(Exception):
    """Anything that is neither 'held' nor 'violated'."""


def log(*a):
    print(*a, flush=True)


# --------------------------------------------------------------------------
# stimuli
# --------------------------------------------------------------------------
class Stim:
    """A history of operations for a driver: one line per operation."""
    __slots__ = ("id", "ops", "src")

    def __init__(self, id, ops, src="random"):
        self.id, self.ops, self.src = str(id), list(ops), src

    def text(self):
        return "T %s\n" % self.id + "".join(o + "\n" for o in self.ops)


def vec(xs):
    xs = list(xs)
    return " ".join([str(len(xs))] + [str(x) for x in xs])


def hx(s):
    """a string argument, in hexadecimal"""
    if isinstance(s, str):
        s = s.encode("latin-1")
    return s.hex() if s else "-"


def hd(x):
    """a double argument, exactly"""
    return float(x).hex()


# --------------------------------------------------------------------------
# drivers
# --------------------------------------------------------------------------
def build(tmp, driver, name=None, defs=(), san="address", std="gnu++17", opt="-O1", libs=()):
    src = os.path.join(VERIF, "harness", driver + ".cpp")
    exe = os.path.join(tmp, name or driver)
    cmd = ["g++", "-std=" + std, opt, "-w", "-pthread", "-DNDEBUG", "-DFMT_HEADER_ONLY",
           "-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "harness")]
    if san:
        cmd += ["-fsanitize=" + san, "-fno-omit-frame-pointer"]
    cmd += ["-D" + d for d in defs] + [src, "-o", exe] + list(libs)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("driver %s does not build:\n%s" % (driver, r.stdout[-4000:]))
    if san == "thread" and not any(subprocess.run([exe], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                                  stderr=subprocess.DEVNULL).returncode == 0 for _ in range(5)):
        log("note: the ThreadSanitizer does not start here")
        return build(tmp, driver, name, defs, None, std, opt, libs)
    return exe


def build_many(tmp, specs):
    with ThreadPoolExecutor(max_workers=NPROC) as ex:
        return list(ex.map(lambda s: build(tmp, **s), specs))


def _run_chunk(exe, stims, tmp, timeout, env):
    """Runs the histories in one process; a crash or hang ends one history
    (with a Crash event) and the rest go on in a new process."""
    res = []
    todo = list(stims)
    retries = 50
    while todo:
        inp = "".join(s.text() for s in todo)
        wd = tempfile.mkdtemp(prefix="run", dir=tmp)
        e = dict(os.environ)
        e.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:hard_rss_limit_mb=2500",
                  "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_thread_leaks=0:report_signal_unsafe=0",
                  "LC_ALL": "C"})
        e.update(env)
        how = None
        try:
            p = subprocess.run([exe], input=inp.encode(), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, cwd=wd, env=e, timeout=timeout)
            out, err, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as x:
            out, err, rc = x.stdout or b"", x.stderr or b"", None
            how = "no answer within %d s" % timeout
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        text = out.decode("latin-1")
        lines = text.split("\n")
        if lines and lines[-1] != "":  # cut mid-line
            lines = lines[:-1]
        ended = False
        got = []
        for ln in lines:
            if not ln:
                continue
            if ln.startswith("T "):
                got.append([])
            elif ln == "END":
                ended = True
            else:
                got[-1].append(json.loads(ln))
        if rc == 90:
            raise CheckError("driver usage: " + err.decode("latin-1")[-500:])
        if ended and rc == 0:
            if len(got) != len(todo):
                raise CheckError("driver lost histories")
            res += got
            return res
        if not got and b"unexpected memory mapping" in err and retries:
            retries -= 1  # (the sanitizer does not like every address space)
            continue
        if not got:
            raise CheckError("driver did not start: rc=%s %s" % (rc, err.decode("latin-1")[-1500:]))
        if how is None:
            m = re.search(r"((?:Address|Thread)Sanitizer: [\w-]+(?: race)?|terminate called[^\n]*)", err.decode("latin-1"))
            how = m.group(1) if m else "exit status %s" % rc
        k = len(got) - 1  # (one that crashed on the way out blames the last history)
        if how.startswith("no answer") and len(stims) > 1:
            # a hang is repeated alone before it is believed; after one that
            # is real the rest of the histories is left out
            got[k] = _run_chunk(exe, [todo[k]], tmp, 2 * timeout, env)[0]
            res += got
            todo = todo[k + 1:]
            if got[k] and got[k][-1]["op"] == "Crash":
                return res + [[] for _ in todo]
            continue
        got[k].append({"op": "Crash", "how": how})
        res += got
        todo = todo[k + 1:]
    return res


def drive(exe, stims, tmp, timeout=60, procs=NPROC, env={}):
    """executions (lists of events), one per history"""
    if not stims:
        return []
    n = min(procs, len(stims))
    chunks = [stims[i::n] for i in range(n)]
    with ThreadPoolExecutor(max_workers=n) as ex:
        outs = list(ex.map(lambda c: _run_chunk(exe, c, tmp, timeout, env), chunks))
    res = [None] * len(stims)
    for i, o in enumerate(outs):
        for j, tr in enumerate(o):
            res[i + j * n] = tr
    return res


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
class Tlc:
    def __init__(self, code, out):
        self.code, self.out = code, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0


def tlc(tmp, spec, cfg=None, env={}, workers=NPROC, deadlock=True, timeout=800, xmx="6g", cfgtext=None, extra=()):
    meta = tempfile.mkdtemp(prefix="tlc", dir=tmp)
    if cfgtext is not None:
        cfg = os.path.join(meta, spec + ".cfg")
        open(cfg, "w").write(cfgtext)
    else:
        cfg = os.path.join(SPEC, (cfg or spec) + ".cfg")
    cmd = ["java", "-Xmx" + xmx, "-Djava.io.tmpdir=" + meta, "-Xss64m", "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra)
    cmd.append(os.path.join(SPEC, spec + ".tla"))
    e = dict(os.environ)
    e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=e, cwd=meta, timeout=timeout)
        r = Tlc(p.returncode, p.stdout)
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC on %s: no answer within %d s" % (spec, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r


def model_check(tmp, mc):
    """mc: (spec, cfg) or dict; the specification itself must be right."""
    if isinstance(mc, tuple):
        mc = {"spec": mc[0], "cfg": mc[1]}
    r = tlc(tmp, **mc)
    if r.code != 0:
        raise CheckError("the model %s (%s) fails its own check (exit %d):\n%s"
                         % (mc["spec"], mc.get("cfg"), r.code, r.out[-3000:]))
    return r


def validate(tmp, spec, traces, env={}, cfg=None, timeout=800):
    """None if every execution is a behaviour of the specification, else
    (index of a rejected execution, number of events accepted, message)."""
    f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", dir=tmp, delete=False)
    for tr in traces:
        f.write(json.dumps(tr, separators=(",", ":")) + "\n")
    f.close()
    e = {"BWSL_TRACES": f.name}
    e.update(env)
    r = tlc(tmp, spec, cfg=cfg or "Trace", env=e, timeout=timeout)
    os.unlink(f.name)
    want = sum(len(tr) + 1 for tr in traces)
    if r.code == 0:
        if r.distinct != want:
            raise CheckError("trace validation by %s explored %d states instead of %d\n%s"
                             % (spec, r.distinct, want, r.out[-1500:]))
        return None, r
    ts = re.findall(r"^/?\\? ?t = (\d+)$|^/\\ t = (\d+)$", r.out, re.M)
    ls = re.findall(r"^/\\ l = (\d+)$", r.out, re.M)
    if r.code in (11, 12, 13) and ts and ls:
        t = [a or b for a, b in ts][-1]
        return (int(t) - 1, int(ls[-1]) - 1, "not allowed by %s" % spec), r
    # an evaluation error in the middle of an execution: an observed value
    # outside of everything the specification gives a meaning to
    if ts and ls and "Error: " in r.out and "The behavior up to this point is" in r.out:
        t = [a or b for a, b in ts][-1]
        m = re.search(r"Error: (.*(?:\n.*){0,3})", r.out)
        return (int(t) - 1, int(ls[-1]) - 1, "no meaning in %s: %s" % (spec, m.group(1) if m else "")), r
    raise CheckError("TLC on %s failed (exit %d):\n%s" % (spec, r.code, r.out[-3000:]))


# --------------------------------------------------------------------------
# corrupting an observation: the specification must refuse it
# --------------------------------------------------------------------------
def perturb(v, rng):
    """another value of the same shape, or None"""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([-1, 1])
    if isinstance(v, str):
        return v + "x"
    if isinstance(v, dict) and v.get("k") == "f":
        s, m = v["m"]
        if s == 0:
            return {"k": "f", "m": [1, [1]], "e": 0}
        return dict(v, e=v["e"] + 1) if rng.random() < .5 else dict(v, m=[-s, m])
    if isinstance(v, dict) and "k" in v:
        return {"k": "f", "m": [1, [1]], "e": 0}
    if isinstance(v, dict):
        ks = [k for k in v if perturb(v[k], random.Random(0)) is not None]
        if not ks:
            return None
        k = rng.choice(sorted(ks))
        return dict(v, **{k: perturb(v[k], rng)})
    if isinstance(v, list):
        if len(v) == 2 and v[0] in (-1, 0, 1) and isinstance(v[1], list) and \
                all(isinstance(x, int) and 0 <= x < 4096 for x in v[1]):
            if v[0] == 0:
                return [1, [1]]
            m = list(v[1])
            m[0] = m[0] ^ 1
            if m == [0]:
                return [0, []]
            return [v[0], m]
        idx = [i for i in range(len(v)) if perturb(v[i], random.Random(0)) is not None]
        if not idx:
            return None
        i = rng.choice(idx)
        w = list(v)
        w[i] = perturb(v[i], rng)
        return w
    return None


def selftest(tmp, spec, traces, obs, rng, env={}, cfg=None, per=2, limit=24):
    """Corrupts single observations and counts how many corrupted executions
    the specification refuses at the corrupted event."""
    cands = {}
    for ti, tr in enumerate(traces):
        if len(json.dumps(tr)) > 60000:
            continue
        for ei, ev in enumerate(tr):
            for k in obs.get(ev["op"], ()):
                if k in ev:
                    cands.setdefault((ev["op"], k), []).append((ti, ei))
    bad, cut = [], []
    keys = sorted(cands)
    rng.shuffle(keys)
    for key in keys:
        for _ in range(per):
            ti, ei = rng.choice(cands[key])
            ev = traces[ti][ei]
            p = perturb(ev[key[1]], rng)
            if p is None:
                continue
            bad.append(traces[ti][:ei] + [dict(ev, **{key[1]: p})])
            cut.append((key, ei))
            if len(bad) >= limit:
                break
        if len(bad) >= limit:
            break
    if not bad:
        return 0, 0, []
    f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", dir=tmp, delete=False)
    for tr in bad:
        f.write(json.dumps(tr, separators=(",", ":")) + "\n")
    f.close()
    e = {"BWSL_TRACES": f.name}
    e.update(env)
    r = tlc(tmp, spec, cfg=cfg or "Trace", env=e, deadlock=False)
    os.unlink(f.name)
    want = sum(ei + 1 for _, ei in cut)
    if r.code != 0:
        return len(bad), len(bad), []
    accepted = r.distinct - want
    if accepted and os.environ.get("BWSL_DEBUG"):
        for b, (key, ei) in zip(bad, cut):
            v, _ = validate(tmp, spec, [b], env, cfg)
            if v is None:
                log("SELFTEST accepted", key, json.dumps(b[ei])[:600])
    return len(bad), len(bad) - accepted, [list(k) for k, _ in cut]
