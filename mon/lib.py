"""Harness: workload distribution, event recording, verdicts, evidence, replays.

A check module provides
    PROP, LEVEL_RULE (text), REQUIRED (event names that must be observed)
    cases(rng, tier) -> list of JSON-able case dicts      (deterministic in the seed)
    run(case, rec)                                         (drives the real code, judges)
Verdicts are three valued: 0 held on everything observed, 1 violated, 2 inconclusive /
harness error (deciding monitor never reached, watchdog, crash of the harness).
"""
import collections, hashlib, json, math, multiprocessing as mp, multiprocessing.connection, os, signal, sys, time, traceback
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 240


class Violation(Exception):
    def __init__(self, what, key=None):
        Exception.__init__(self, what)
        self.what, self.key = what, key


class Watchdog(Exception):
    pass


def _alarm(*a):
    raise Watchdog("case watchdog")


class Rec(object):
    """What the monitors observed."""

    def __init__(self):
        self.events = collections.Counter()
        self.evaluations = 0
        self.sigs = set()
        self.violations = []
        self.inconclusive = []
        self.maxerr = {}
        self.samples = []
        self._cur = None

    # ---- observation ----
    def ev(self, name, n=1):
        self.events[name] += n

    def seen(self, *sig):
        """Register one distinct non-trivial situation."""
        self.sigs.add(hashlib.blake2b(repr(sig).encode(), digest_size=8).digest())

    # ---- judgements ----
    def fail(self, what, key=None):
        self.violations.append({"what": str(what)[:1500], "key": key, "case": self._cur})

    def ok(self, cond, what, key=None):
        self.evaluations += 1
        if not cond:
            self.fail(what, key)
        return bool(cond)

    def arr(self, x, what):
        """Result of the code under test -> complex128 numpy array."""
        import torch
        if not torch.is_tensor(x):
            raise Violation("%s: expected a tensor, got %s" % (what, type(x).__name__))
        return x.detach().cpu().resolve_conj().resolve_neg().numpy().astype(np.complex128)

    def close(self, what, got, want, tol, key=None):
        """Entrywise comparison; `got` may be a tensor."""
        self.evaluations += 1
        if not isinstance(got, np.ndarray):
            got = self.arr(got, what)
        want = np.asarray(want)
        if got.shape != want.shape:
            self.fail("%s: shape %s, expected %s" % (what, got.shape, want.shape), key)
            return False
        if got.size == 0:
            return True
        d = np.abs(got - want)
        m = float(np.max(d)) if np.all(np.isfinite(d)) else float("inf")
        cat = what.split(":")[0]
        self.margin(cat, m, tol)
        if not m <= tol:
            i = np.unravel_index(int(np.argmax(np.where(np.isfinite(d), d, np.inf))), d.shape) if d.shape else ()
            self.fail("%s: differs from the reference by %.3g (tolerance %.3g) at index %s: got %s expected %s"
                      % (what, m, tol, tuple(int(k) for k in i), got[i], want[i]), key)
            return False
        return True

    def margin(self, cat, m, tol):
        """Remember the accepted deviation that came closest to its tolerance."""
        old = self.maxerr.get(cat)
        if m <= tol and (old is None or m * old[1] > old[0] * tol):
            self.maxerr[cat] = (m, tol)

    def rel(self, what, got, want, tol, key=None):
        """Root-mean-square comparison: ||got - want|| / ||want||.  Rounding errors of the entries
        average out, so this one can be much tighter than the entrywise comparison."""
        self.evaluations += 1
        if not isinstance(got, np.ndarray):
            got = self.arr(got, what)
        want = np.asarray(want)
        if got.shape != want.shape:
            self.fail("%s: shape %s, expected %s" % (what, got.shape, want.shape), key)
            return False
        n = float(np.linalg.norm(want))
        m = float(np.linalg.norm(got - want)) / (n if n > 0 else 1.0)
        cat = "rms " + what.split(":")[0]
        if m <= tol:
            self.margin(cat, m, tol)
            return True
        self.fail("%s: differs from the reference by a relative norm of %.3g (tolerance %.3g)" % (what, m, tol), key)
        return False

    def raises(self, what, fn, key=None):
        """fn() must raise (any exception)."""
        self.evaluations += 1
        try:
            r = fn()
        except Exception:
            return True
        self.fail("%s: accepted instead of rejected, returned %s" % (what, str(r)[:200]), key)
        return False

    # ---- merging ----
    def dump(self):
        return (self.events, self.evaluations, self.sigs, self.violations, self.inconclusive, self.maxerr, self.samples)

    def merge(self, d):
        ev, n, sg, vi, inc, me, sa = d
        self.events.update(ev)
        self.evaluations += n
        self.sigs |= sg
        self.violations += vi
        self.inconclusive += inc
        for k, v in me.items():
            self.margin(k, *v)
        self.samples += sa


def run_one(mod, case, rec):
    import torch
    rec._cur = case
    n0 = len(rec.violations)
    seed = int(case.get("seed", 0)) % (2 ** 31)
    torch.manual_seed(seed)
    np.random.seed(seed)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        mod.run(case, rec)
    except Watchdog:
        rec.inconclusive.append("watchdog fired on case %s" % json.dumps(case)[:300])
    except MemoryError:
        rec.inconclusive.append("out of memory on case %s" % json.dumps(case)[:300])
    except Violation as e:
        rec.fail(e.what, e.key)
    except Exception as e:
        tb = traceback.format_exc().strip().splitlines()
        rec.fail("exception on valid input: %s: %s | %s" % (type(e).__name__, e, " / ".join(t.strip() for t in tb[-7:])))
    finally:
        signal.alarm(0)
    if len(rec.violations) == n0 and not rec.samples:
        rec.samples.append(case)


_MOD = None


def _chunk(cs):
    rec = Rec()
    from . import hooks
    hooks.REC = rec
    for c in cs:
        if len(rec.violations) > 20:
            break
        run_one(_MOD, c, rec)
    hooks.REC = None
    rec._cur = None
    return rec.dump()


def _serve(conn, chunks):
    """A worker: takes chunk numbers from its own pipe and answers on it."""
    try:
        while True:
            i = conn.recv()
            if i is None:
                break
            conn.send(_chunk(chunks[i]))
    except (EOFError, OSError, KeyboardInterrupt):
        pass
    finally:
        os._exit(0)


def _farm(chunks, workers, rec):
    """Chunks over forked workers, one pipe each and no shared lock: a worker that is ended (memory) costs
    its chunk one more try by a worker alone, and never the answer.  Returns the chunks without an answer."""
    ctx = mp.get_context("fork")
    todo, lost, again = collections.deque(range(len(chunks))), [], collections.deque()
    live = {}                                    # connection -> [process, chunk or None]

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_serve, args=(b, chunks), daemon=True)
        p.start()
        b.close()
        live[a] = [p, None]

    def give(c):
        q = todo if todo else again if again and all(v[1] is None for v in live.values()) else None
        if q is None:
            return
        i = q.popleft()
        live[c][1] = i
        try:
            c.send(i)
        except OSError:
            gone(c)

    def gone(c):
        p, i = live.pop(c)
        c.close()
        p.join(5)
        if i is not None:
            (lost if tried[i] else again).append(i)
            tried[i] = True
        start()

    tried = [False] * len(chunks)
    for _ in range(min(workers, len(chunks))):
        start()
    while True:
        for c in [c for c in live if live[c][1] is None]:
            give(c)
        busy = [c for c in live if live[c][1] is not None]
        if not busy:
            if todo or again:
                continue
            break
        for c in mp.connection.wait(busy):
            try:
                d = c.recv()
            except (EOFError, OSError):
                gone(c)
                continue
            rec.merge(d)
            live[c][1] = None
        if os.environ.get("VERIF_FAILFAST") and any(v["key"] is None for v in rec.violations):
            break                                # (development: tools/mutate.py)
    for c, (p, _) in live.items():
        p.kill()
    return lost


def known_findings(prop):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for ln in open(path, encoding="utf-8"):
            ln = ln.strip()
            if ln.startswith("known: "):
                head, _, desc = ln[len("known: "):].partition(" | ")
                f = dict(x.split("=", 1) for x in head.split())
                if f.get("property") == prop:
                    out[f["key"]] = desc
    return out


def execute(mod, tier, seed, workers=None):
    """Run the workload of a check; returns (rec, wall).

    quick: REPEAT rounds, each with its own random stream; thorough: deeper rounds one after another until the time is used up."""
    global _MOD
    _MOD = mod
    t0 = time.time()
    from . import hooks
    hooks.install()
    workers = workers or int(os.environ.get("VERIF_WORKERS", "8"))
    rec = Rec()
    rec.ncases = 0
    num = int(mod.PROP[1:])
    stream = lambda k: np.random.default_rng([seed, num, k] if k else [seed, num])
    if tier == "quick":
        cs = []
        for k in range(getattr(mod, "REPEAT", 1)):
            cs += mod.cases(stream(k), tier)
        _round(cs, workers, rec)
    else:
        budget, longest, k = float(os.environ.get("VERIF_BUDGET", "400")), 0.0, 0
        while k == 0 or (time.time() - t0 + 1.5 * longest < budget and not any(v["key"] is None for v in rec.violations) and not rec.inconclusive):
            t = time.time()
            _round(list(mod.cases(stream(k), tier)), workers, rec)
            longest = max(longest, time.time() - t)
            k += 1
        rec.ev("rounds of the thorough workload", k)
    return rec, time.time() - t0


def _round(cs, workers, rec):
    # fixed pseudo-random order so that chunks are balanced
    order = np.random.default_rng(12345).permutation(len(cs))
    cs = [cs[i] for i in order]
    n = max(1, min(60, len(cs) // (workers * 6) or 1))
    chunks = [cs[i:i + n] for i in range(0, len(cs), n)]
    if workers == 1:
        for c in chunks:
            rec.merge(_chunk(c))
    else:
        lost = _farm(chunks, workers, rec)
        if lost:
            rec.inconclusive.append("worker processes ended before they answered (%d chunks)" % len(lost))
    rec.ncases += len(cs)


def main(mod, tier, seed, replay=None):
    prop = mod.PROP
    if replay:
        from . import hooks
        hooks.install()
        rec = Rec()
        hooks.REC = rec
        data = json.load(open(replay))
        run_one(mod, data["case"], rec)
        rec.ncases = 1
        wall = 0.0
    else:
        rec, wall = execute(mod, tier, seed)
    known = known_findings(prop)
    new, old = [], collections.OrderedDict()
    for v in rec.violations:
        if v["key"] is not None and v["key"] in known:
            old.setdefault(v["key"], v)
        else:
            new.append(v)
    missing = [e for e in getattr(mod, "REQUIRED", []) if not rec.events.get(e)]
    if not replay:
        write_evidence(mod, tier, seed, rec, wall, new)
    for k, v in old.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    if new:
        shown = set()
        for v in new:
            tag = v["key"] or v["what"].split(":")[0][:60]
            if tag in shown or len(shown) >= 5:
                continue
            shown.add(tag)
            path = replay or write_replay(prop, v)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  " + v["what"])
        print("%s: %d violating observations in %d cases" % (prop, len(new), rec.ncases))
        return 1
    if replay:
        print("%s: replayed case holds" % prop)
        return 0
    if rec.inconclusive or missing:
        print("%s: INCONCLUSIVE %s %s" % (prop, "monitors never reached: %s" % missing if missing else "",
                                         "; ".join(rec.inconclusive[:3])))
        return 2
    print("%s: held on %d cases, %d judgements, %d distinct situations, %.1fs (tier %s, seed %d)"
          % (prop, rec.ncases, rec.evaluations, len(rec.sigs), wall, tier, seed))
    if os.environ.get("VERIF_DEBUG"):
        for k, v in sorted(rec.maxerr.items()):
            print("   margin %-40s %.3g / %.3g" % (k, v[0], v[1]))
        for k, v in sorted(rec.events.items()):
            print("   event  %-40s %d" % (k, v))
    return 0


def write_replay(prop, v):
    d = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps({"property": prop, "case": v["case"], "what": v["what"], "key": v["key"]}, sort_keys=True)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(body)
    return path


def write_evidence(mod, tier, seed, rec, wall, new):
    d = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {
        "property": mod.PROP, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": rec.evaluations,
            "distinct_nontrivial": len(rec.sigs),
            "rule": mod.RULE,
            "samples": rec.samples[:3] or ["(no clean case)"],
            "cases_executed": rec.ncases,
            "events_observed": dict(sorted(rec.events.items())),
            "accepted_deviation_closest_to_tolerance": {k: {"deviation": v[0], "tolerance": v[1]} for k, v in
                sorted(rec.maxerr.items(), key=lambda z: -z[1][0] / (z[1][1] or 1e-30))[:40]},
        },
        "assumptions": getattr(mod, "ASSUME", []) + [
            "inputs restricted to the library's default single precision (complex64/float32) on CPU"],
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    path = os.path.join(d, mod.PROP + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + ".tmp", path)
