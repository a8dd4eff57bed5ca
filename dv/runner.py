"""Runs the units of a property on a pool of processes and decides the outcome."""
import collections
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import signal
import sys
import time
import traceback

from . import engine as E

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("DV_PROCS", str(min(8, os.cpu_count() or 1))))
SLICE = 1.5
HANG_S = 25


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def concrete(unit, values=None, rng=None):
    """run_concrete with a time limit; returns (values used, failures, checks, observed) or None"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, HANG_S)
    ctx = E.ConcCtx(E.lib_real(), values, rng)
    try:
        try:
            unit.body(ctx)
        except E.Skip:
            return None
        except Hang:
            ctx.failed.append("no termination within %d s" % HANG_S)
        except RecursionError as e:
            ctx.failed.append("exception RecursionError")
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = tb[-1]
            ctx.failed.append("exception %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(where.filename),
                                                           where.lineno))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        _reset_real_locks()
    return dict(ctx.used), list(ctx.failed), ctx.checks, ctx.observed


def _reset_real_locks():
    """a run cut short by the time limit may leave the library's lock held"""
    m = sys.modules.get("lunar_python.LunarYear")
    if m is None:
        return
    for v in vars(m).values():
        if isinstance(v, type):
            for a, b in vars(v).items():
                if type(b).__name__ == "lock" and b.locked():
                    b.release()


def _worker(conn, units):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    while True:
        try:
            task = conn.recv()
        except EOFError:
            return
        if task is None:
            return
        kind, ui = task[0], task[1]
        unit = units[ui]
        try:
            if kind == "loop":
                r, rest = E.run_loop_unit(unit)
                conn.send((kind, ui, r, rest))
            elif kind == "slice":
                r, rest = E.run_slice(unit, task[2], task[3])
                conn.send((kind, ui, r, rest))
            elif kind == "sample":
                conn.send((kind, ui, _sample(unit, task[2], task[3], task[4], task[5]), None))
            elif kind == "sweep":
                conn.send((kind, ui, _sweep(unit, task[2], task[3], task[4]), None))
            elif kind == "replay":
                out = []
                for values in task[2]:
                    out.append((values, concrete(unit, values)))
                conn.send((kind, ui, out, None))
        except BaseException as e:
            conn.send(("error", ui, "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-4)), None))


def _sample(unit, seed, count, seconds, near):
    """count concrete runs (or seconds); stops at 3 failures.  Returns a dict."""
    rng = random.Random(seed)
    t0 = time.time()
    n = skipped = checks = 0
    fails = []
    seen = set()
    while (count is None or n < count) and time.time() - t0 < seconds and len(fails) < 3:
        vals = None
        if near and rng.random() < 0.5:
            base = rng.choice(near)
            vals = {}
            for k, v in base.items():
                if isinstance(v, bool) or not isinstance(v, int):
                    vals[k] = v
                else:
                    z = rng.random()
                    if z < 0.5:
                        vals[k] = v
                    elif z < 0.8:
                        vals[k] = v + rng.randint(-3, 3)
                    # else: drawn afresh
        r = concrete(unit, vals, rng)
        if r is None:
            skipped += 1
            if skipped > 200 * (n + 5):
                break
            continue
        n += 1
        checks += r[2]
        if len(seen) < 200000:
            seen.add(json.dumps(r[0], sort_keys=True))
        if r[1]:
            fails.append((r[0], r[1]))
    return {"runs": n, "skipped": skipped, "checks": checks, "fails": fails, "distinct": len(seen),
            "seconds": time.time() - t0}


def _sweep(unit, tier, k, n):
    """evaluate part k of n of the unit's inputs; stops at 3 failures"""
    t0 = time.time()
    runs = skipped = checks = 0
    fails = []
    items = list(unit.sweep(tier))
    for vals in items[len(items) * k // n:len(items) * (k + 1) // n]:
        r = concrete(unit, vals)
        if r is None:
            skipped += 1
            continue
        runs += 1
        checks += r[2]
        if r[1]:
            fails.append((r[0], r[1]))
            if len(fails) >= 3:
                break
    return {"runs": runs, "skipped": skipped, "checks": checks, "fails": fails, "distinct": runs,
            "seconds": time.time() - t0}


class Pool:
    def __init__(self, units, n=NPROC):
        self.units = units
        self.n = n
        self.workers = []
        self.busy = {}

    def start(self):
        for _ in range(self.n):
            self._spawn()

    def _spawn(self):
        a, b = mp.Pipe()
        p = mp.get_context("fork").Process(target=_worker, args=(b, self.units), daemon=True)
        p.start()
        b.close()
        self.workers.append((a, p))
        return a

    def stop(self):
        for c, p in self.workers:
            try:
                c.send(None)
            except OSError:
                pass
        for c, p in self.workers:
            p.join(0.3)
            if p.is_alive():
                p.kill()
                p.join()
        self.workers = []

    def run(self, tasks, on_result, deadline=None):
        """tasks: deque of task tuples (may be extended by on_result).  on_result(kind, ui,
        payload, rest, task)"""
        idle = [c for c, p in self.workers]
        busy = {}
        while tasks or busy:
            if deadline and time.time() > deadline and tasks:
                left = list(tasks)
                tasks.clear()
                for t in left:
                    on_result("deadline", t[1], None, None, t)
            while idle and tasks:
                c = idle.pop()
                t = tasks.popleft()
                limit = self.limit(t)
                c.send(t)
                busy[c] = (t, time.time() + limit)
            if not busy:
                continue
            ready = multiprocessing.connection.wait(list(busy), timeout=1.0)
            for c in ready:
                t, _ = busy.pop(c)
                try:
                    msg = c.recv()
                except (EOFError, OSError):
                    msg = ("error", t[1], "worker died", None)
                    self._drop(c)
                    idle.append(self._spawn())
                    on_result(*msg, t)
                    continue
                idle.append(c)
                on_result(*msg, t)
            now = time.time()
            for c in list(busy):
                t, lim = busy[c]
                if now > lim:
                    busy.pop(c)
                    self._drop(c)
                    idle.append(self._spawn())
                    on_result("error", t[1], "time limit", None, t)

    def limit(self, t):
        if t[0] == "loop":
            return self.units[t[1]].max_seconds + 90
        if t[0] == "slice":
            return t[3] + 150
        if t[0] == "sample":
            return t[4] + HANG_S * 4 + 10
        if t[0] == "sweep":
            return 3600
        return HANG_S * (len(t[2]) + 1)

    def _drop(self, c):
        for i, (a, p) in enumerate(self.workers):
            if a is c:
                p.kill()
                p.join()
                a.close()
                del self.workers[i]
                return


def run_property(prop, units, tier, seed, budget, level, assumptions=(), trusted=(), extra=None, quiet=False):
    """decide the property; returns exit code"""
    t0 = time.time()
    E.lib_real()
    E.lib_sym()
    pool = Pool(units)
    pool.start()
    res = {i: E.Result(u.name) for i, u in enumerate(units)}
    own = [u for u in units if not u.dep]
    samp = {i: None for i in range(len(units))}
    errors = collections.defaultdict(list)
    pending = collections.Counter()
    spent = collections.Counter()
    outstanding = collections.Counter()
    tasks = collections.deque()
    # own units first, then the callee contracts they rest on
    order = sorted(range(len(units)), key=lambda i: (units[i].dep, -units[i].weight))
    for i in order:
        u = units[i]
        if u.prove and not (u.dep and u.heavy and tier == "quick"):
            tasks.append(("loop", i) if u.loops else ("slice", i, [[]], SLICE))
    for i in order:
        u = units[i]
        n = u.samples * (8 if tier == "thorough" else 1)
        if u.dep:
            n = min(n, 400)
        if n:
            parts = max(1, min(8, n // 40))
            for k in range(parts):
                tasks.append(("sample", i, "%s/%s/%d/%d" % (prop, u.name, seed, k), (n + parts - 1) // parts,
                              60 if tier == "quick" else 400, None))

    for i in order:
        u = units[i]
        if u.sweep and not u.dep:
            parts = 8 if tier == "quick" else 64
            for k in range(parts):
                tasks.appendleft(("sweep", i, tier, k, parts))
    swept = collections.Counter()
    sweep_fails = []

    def on_result(kind, ui, payload, rest, task):
        u = units[ui]
        if kind in ("slice", "loop"):
            res[ui].merge(payload)
            spent[ui] += payload.wall
            if rest:
                if spent[ui] > u.max_seconds or res[ui].paths + res[ui].ended > u.max_paths:
                    res[ui].undecided.append("budget of %d s / %d paths exhausted" % (u.max_seconds, u.max_paths))
                elif len(res[ui].undecided) > 60 or sum(1 for o in res[ui].obligations if o[1] == "refuted") > 400:
                    res[ui].undecided.append("stopped early")
                else:
                    k = max(1, min(4, len(rest) // 2)) if len(rest) > 1 else 1
                    step = (len(rest) + k - 1) // k
                    for j in range(0, len(rest), step):
                        tasks.append(("slice", ui, rest[j:j + step], SLICE))
        elif kind in ("sample", "sweep"):
            if kind == "sweep":
                swept[ui] += payload["runs"]
                for f in payload["fails"]:
                    sweep_fails.append((u, f[0], f[1], "exhaustive evaluation of the contract on the untouched code"))
                payload = dict(payload, fails=[])
            s = samp[ui] or {"runs": 0, "skipped": 0, "checks": 0, "fails": [], "distinct": 0, "seconds": 0.0}
            for k in ("runs", "skipped", "checks", "distinct", "seconds"):
                s[k] += payload[k]
            s["fails"] += payload["fails"]
            samp[ui] = s
        elif kind == "replay":
            replays[ui] += payload
        else:
            what = payload or "deadline"
            if task[0] in ("slice", "loop", "sweep"):
                res[ui].undecided.append(str(what))
            errors[ui].append((task[0], str(what)))

    replays = collections.defaultdict(list)
    pool.run(tasks, on_result, deadline=t0 + budget)

    # replay every counter-model and every path witness on the untouched code -----
    tasks = collections.deque()
    for i, u in enumerate(units):
        models = []
        for o in res[i].obligations:
            if o[1] == "refuted" and o[4] is not None and o[4] not in models:
                models.append(o[4])
        for text, m, tb in res[i].exceptions:
            if m is not None and m not in models:
                models.append(m)
        for m in models[:24]:
            tasks.append(("replay", i, [m]))
        for m, obs in res[i].witness_models[:12]:
            tasks.append(("replay", i, [m]))
    pool.run(tasks, on_result)

    confirmed = []      # (unit, inputs, labels, origin)
    mism = []           # engine disagreements
    for i, u in enumerate(units):
        wit = {json.dumps(m, sort_keys=True): obs for m, obs in res[i].witness_models}
        for values, out in replays[i]:
            if out is None:
                continue
            used, failed, checks, observed = out
            if failed:
                confirmed.append((u, values, failed, "counter-model replayed on the untouched code"))
            obs = wit.get(json.dumps(values, sort_keys=True))
            if u.exact and obs is not None and not failed and not u.loops and not u.stubs and not res[i].roundings:
                real = [(l, norm(v)) for l, v in observed]
                got = [(l, norm(v)) for l, v in obs]
                if "?" not in str(got) and real != got:
                    mism.append((u.name, values, got, real))
        if samp[i]:
            for used, failed in samp[i]["fails"]:
                confirmed.append((u, used, failed, "bounded sampling of the contract on the untouched code"))

    confirmed += sweep_fails
    listed = [c for c in confirmed if known(prop, c)]
    confirmed = [c for c in confirmed if not known(prop, c)]
    # a callee contract that fails here is the business of its own check; for this property
    # it directs the search
    broken = [c for c in confirmed if c[0].dep]
    confirmed = [c for c in confirmed if not c[0].dep]

    # suspicious units: search harder --------------------------------------------
    open_units = []
    for i, u in enumerate(units):
        refuted = [o for o in res[i].obligations if o[1] == "refuted"]
        if u.dep:
            broken += [(u, o[4], None, None) for o in refuted[:5] if o[4]]
            continue
        if (refuted or res[i].exceptions or res[i].undecided) and not any(c[0] is u for c in confirmed):
            open_units.append(i)
    if broken and not confirmed:
        open_units = [i for i, u in enumerate(units) if not u.dep and u.samples]
    if open_units and not confirmed:
        per = (24.0 if tier == "quick" else 120.0) / max(1, (len(open_units) + 7) // 8)
        tasks = collections.deque()
        reps = max(1, 8 // len(open_units))
        for i in open_units:
            near = [o[4] for o in res[i].obligations if o[1] == "refuted" and o[4]][:20]
            near += [m for _, m, _ in res[i].exceptions if m][:20]
            near += [c[1] for c in broken[:20]]
            for k in range(reps):
                tasks.append(("sample", i, "search/%s/%d/%d" % (units[i].name, seed, k), None, per, near or None))
        pool.run(tasks, on_result)
        for i in open_units:
            if samp[i]:
                for used, failed in samp[i]["fails"]:
                    confirmed.append((units[i], used, failed, "search near the failed obligation, on the untouched code"))
    pool.stop()

    # outcome ----------------------------------------------------------------------
    lines = ["KNOWN-FINDING: property=%s %s" % (prop, x) for x in sorted({known(prop, c) for c in listed})]
    rdir = os.path.join(ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    violations = 0
    done = set()
    for u, values, failed, origin in confirmed:
        key = (u.name, tuple(sorted(set(f.split(":")[0] for f in failed))))
        if key in done or len(done) >= 6:
            continue
        done.add(key)
        violations += 1
        path = os.path.join(rdir, "%s-%s-%d.json" % (prop, u.name.replace("/", "_"), violations))
        with open(path, "w") as f:
            json.dump({"property": prop, "unit": u.name, "inputs": values, "failed": failed, "origin": origin,
                       "statement": u.statement,
                       "run": "cd %s && ./check.sh --replay %s" % (ROOT, path)}, f, ensure_ascii=False, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        lines.append("  unit %s: %s on %s (%s)" % (u.name, "; ".join(failed), json.dumps(values, ensure_ascii=False), origin))
    undecided = {}
    for i, u in enumerate(units):
        if u.dep:
            continue
        refuted = [o for o in res[i].obligations if o[1] == "refuted"]
        if refuted and not any(c[0] is u for c in confirmed):
            undecided.setdefault(u.name, []).append("refuted but not replayed: " + ", ".join(sorted({o[0] for o in refuted})[:5]))
        if res[i].exceptions and not any(c[0] is u for c in confirmed):
            undecided.setdefault(u.name, []).append("exception on a symbolic path, not reproduced: %s\n%s" % (
                res[i].exceptions[0][0], res[i].exceptions[0][2]))
        if res[i].undecided:
            undecided.setdefault(u.name, []).extend(sorted(set(res[i].undecided))[:5])
        if u.prove and not res[i].undecided and (res[i].witnesses == 0 or not res[i].obligations):
            undecided.setdefault(u.name, []).append("vacuous: %d path witnesses, %d obligations" % (
                res[i].witnesses, len(res[i].obligations)))
        # a proof that is refuted or cannot be redone is reported; a solver or a clock that gives up is not
        why = [x for x in undecided.get(u.name, []) if x.startswith(FAILED)]
        if why and not confirmed:
            violations += 1
            path = os.path.join(rdir, "%s-%s-unreplayed.json" % (prop, u.name.replace("/", "_")))
            with open(path, "w") as f:
                json.dump({"property": prop, "unit": u.name, "functions": u.funcs, "reasons": why,
                           "obligations": sorted({o[0] for o in refuted}),
                           "counter_models": [o[4] for o in refuted[:5]], "statement": u.statement,
                           "solver": "sat (the negated obligation is satisfiable)" if refuted else "no obligation could be generated or the proof ended early"},
                          f, ensure_ascii=False, indent=1)
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    for m in mism:
        undecided.setdefault(m[0], []).append("engine disagrees with CPython on %s: %s / %s" % (m[1], m[2], m[3]))

    ev = evidence(prop, units, res, samp, undecided, errors, tier, seed, level, assumptions, trusted, violations,
                  time.time() - t0, extra, swept)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
    c = ev["coverage"]
    if not quiet:
        print("%s: %d obligations, %d discharged, %d paths, %d units (%d undecided), %d bounded runs, solver %.1f s, wall %.1f s"
              % (prop, c["obligations"], c["discharged"], c["paths"], len(own), len(undecided), c["bounded_runs"],
                 c["solver_seconds"], ev["wall_s"]))
        for k, v in undecided.items():
            print("  undecided %s: %s" % (k, " | ".join(v)[:1500]))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if violations else 0


FAILED = ("refuted", "exception on a symbolic path", "unsupported", "recursion", "set-up", "vacuous")


def known(prop, c):
    """the recorded finding this failure is, if it is one: same property, unit, inputs and no other postcondition"""
    with open(os.path.join(ROOT, "known_findings.txt"), encoding="utf-8") as f:
        for l in f:
            if l.startswith("known: property=%s " % prop):
                head, what = l.strip().split(" :: ", 1)
                k = json.loads(head.split(" ", 2)[2])
                if k["unit"] == c[0].name and k["inputs"] == c[1] and {x.split(":")[0] for x in c[2]} <= set(k["failed"]):
                    return what
    return None


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, bool):
        return int(v)
    return v


def evidence(prop, units, res, samp, undecided, errors, tier, seed, level, assumptions, trusted, violations, wall, extra, swept={}):
    per = []
    backends = collections.Counter()
    tot = dis = paths = 0
    runs = 0
    funcs_proved, funcs_bounded, ran = set(), set(), set()
    solver = 0.0
    callee = []
    for i, u in enumerate(units):
        r = res[i]
        if u.dep:
            bad = sum(1 for o in r.obligations if o[1] != "proved")
            n = len(r.obligations)
            callee.append({"contract": "%s/%s" % (u.home, u.name), "functions": u.funcs,
                           "status": ("assumed here; decided by check %s" % u.home) if not n else
                                     ("re-proved in this run" if not bad and not r.undecided and not r.exceptions else
                                      "not proved in this run"),
                           "obligations": n, "bounded_runs": samp[i]["runs"] if samp[i] else 0})
            solver += r.solver_s
            continue
        labels = collections.OrderedDict()
        ok = 0
        for lab, st, sec, be, m, triv in r.obligations:
            d = labels.setdefault(lab, [0, 0])
            d[0] += 1
            if st == "proved":
                d[1] += 1
                ok += 1
                backends[be] += 1
        tot += len(r.obligations)
        dis += ok
        paths += r.paths
        solver += r.solver_s
        s = samp[i]
        runs += s["runs"] if s else 0
        proved = u.prove and u.name not in undecided and ok == len(r.obligations) and ok > 0
        (funcs_proved if proved else funcs_bounded).update(u.funcs)
        if proved:
            ran |= r.entered
        per.append({"unit": u.name, "contract": u.statement, "functions": u.funcs,
                    "status": "proved" if proved else ("bounded" if not u.prove else "undecided"),
                    "paths": r.paths, "satisfiable_paths": r.witnesses, "loop_cut_paths": r.ended,
                    "obligations": {k: "%d/%d" % (v[1], v[0]) for k, v in list(labels.items())[:60]},
                    "solver_s": round(r.solver_s, 2), "float_roundings": r.roundings, "rounds": r.rounds,
                    "bounded_runs": s["runs"] if s else 0,
                    **({"exhaustively_evaluated": "%s (%d inputs)" % (u.over, swept[i])} if u.sweep else {}),
                    **({"open": undecided[u.name][:4]} if u.name in undecided else {})})
    cov = {"obligations": tot, "discharged": dis,
           "checker_cmd": "python3-vt -m dv.check %s (z3 %s; fresh z3 with other tactics, then cvc5, on unknown)" % (prop, E.z3.get_version_string()),
           "trusted_base": list(trusted),
           "paths": paths, "solver_seconds": round(solver, 2), "discharged_by": dict(backends),
           "functions_under_contract_proved": sorted(funcs_proved),
           "functions_whose_text_ran_on_proved_paths": sorted(ran),
           "functions_bounded_only": sorted(funcs_bounded - funcs_proved),
           "units_proved": sum(1 for p in per if p["status"] == "proved"),
           "units": per,
           "bounded_runs": runs,
           "callee_contracts": callee,
           "undecided_units": {k: v[:3] for k, v in undecided.items()}}
    if level != "proof":
        samples = []
        distinct = 0
        for i, u in enumerate(units):
            if samp[i] and not u.dep:
                distinct += samp[i]["distinct"]
            for m, obs in res[i].witness_models[:1]:
                samples.append({"unit": u.name, "inputs": m})
        cov["evaluations"] = runs
        cov["distinct_nontrivial"] = distinct
        cov["rule"] = "inputs drawn from the contract's precondition (boundaries first); distinct input tuples"
        cov["samples"] = samples[:6]
        cov["explanation"] = "deductive obligations where listed as proved; bounded evaluation of the same contracts elsewhere"
    if extra:
        cov.update(extra)
    return {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
            "assumptions": list(assumptions), "wall_s": round(wall, 2), "violations": violations}
