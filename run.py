"""Check of one property: contracts discharged from /repo's current source, then the executable contracts on concrete inputs.

usage: run.py PROPERTY            (VERIF_TIER quick|thorough, VERIF_SEED)
       run.py --replay FILE
"""
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import signal
import sys
import time
import traceback
import warnings

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [REPO, HERE]
warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)

NPROC = min(8, os.cpu_count() or 1)


def _worker(fn, arg, conn):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    try:
        out = ("ok", fn(arg))
    except BaseException as e:
        out = ("crash", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
    try:
        conn.send(out)
    except Exception as e:
        conn.send(("crash", f"unpicklable result: {e}"))
    conn.close()
    os._exit(0)


def run_jobs(jobs, deadline):
    """jobs: list of (key, fn, arg, timeout); yields (key, status, value); one forked process per job"""
    pending = list(reversed(jobs))
    live = {}
    while pending or live:
        while pending and len(live) < NPROC:
            key, fn, arg, tmo = pending.pop()
            left = deadline - time.time()
            if left <= 0:
                yield key, "timeout", None
                continue
            r, w = mp.Pipe(False)
            p = mp.Process(target=_worker, args=(fn, arg, w))
            p.start()
            w.close()
            live[r] = (key, p, time.time() + min(tmo, left))
        if not live:
            continue
        ready = mp.connection.wait(list(live), timeout=0.2)
        for r in ready:
            key, p, t = live.pop(r)
            try:
                st, v = r.recv()
            except (EOFError, OSError):
                st, v = "crash", "worker died"
            r.close()
            p.join()
            yield key, st, v
        now = time.time()
        for r in [r for r, (k, p, t) in live.items() if now > t]:
            key, p, t = live.pop(r)
            p.kill()
            p.join()
            r.close()
            yield key, "timeout", None


# ------------------------------------------------------------------ proof jobs
def prove_contract(a):
    mod, idx, both = a
    from pyvc.verify import verify
    m = importlib.import_module("contracts." + mod)
    c = importlib.import_module("contracts.bounds").label(m.CONTRACTS[idx])
    rep = verify(c, both=both)
    return {"name": c.name, "ok": rep.ok, "error": rep.error, "bounded": rep.bounded, "note": c.note,
            "obligations": [(o.name, o.status, o.backend, o.detail[:2000] if o.status != "discharged" else "") for o in rep.obligations],
            "functions": sorted(rep.covered), "assumptions": sorted(map(str, rep.assumptions)), "paths": rep.paths,
            "time": rep.time, "solver_time": rep.solver_time, "queries": getattr(rep, "queries", 0)}


def prove_lemma(a):
    mod, idx, both = a
    m = importlib.import_module("contracts." + mod)
    return m.LEMMAS[idx].run(both)


# ------------------------------------------------------------------ executable contracts
def call_case(mod, name, args):
    m = importlib.import_module("oracles." + mod)
    getattr(m, "check_" + name)(**args)


class CaseTimeout(BaseException):
    pass


def run_chunk(a):
    mod, cases, limit = a
    out = []
    def onalarm(*_):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    for name, args in cases:
        t = time.time()
        try:
            signal.alarm(limit)
            try:
                call_case(mod, name, args)
                signal.alarm(0)
                out.append((name, args, "ok", "", time.time() - t))
            finally:
                signal.alarm(0)
        except CaseTimeout:
            out.append((name, args, "timeout", "", time.time() - t))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{f.filename}:{f.lineno} {f.name}" for f in tb[-4:])
            out.append((name, args, "broken", f"{type(e).__name__}: {str(e)[:1500]} @ {where}", time.time() - t))
    return out


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f.get("property") == pid and f.get("status") == "known"]


def matches(f, name, args, msg):
    return f.get("check") == name and all(args.get(k) == v for k, v in f.get("args", {}).items()) and f.get("message", "") in msg


def replay(path):
    d = json.load(open(path))
    if d.get("case"):
        try:
            call_case(d["property"].lower(), d["case"]["check"], d["case"]["args"])
        except Exception as e:
            print(f"replayed: {type(e).__name__}: {e}")
            return 1
        print("replayed: the property holds for this input")
        return 0
    mod = d["property"].lower()
    m = importlib.import_module("contracts." + mod)
    bad = 0
    for i, c in enumerate(m.CONTRACTS):
        if c.name in {f["contract"] for f in d.get("failed_obligations", [])}:
            r = prove_contract((mod, i, False))
            for o in r["obligations"]:
                if o[1] != "discharged":
                    bad = 1
                    print(r["name"], o[0], o[3])
            if r["error"]:
                print(r["name"], r["error"])
    return bad


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    thorough = tier == "thorough"
    mod = pid.lower()
    deadline = t0 + (6000 if thorough else 700)
    notes, load_errors = [], []
    cm = om = None
    import pyvc  # noqa (puts z3 on the path)
    import z3  # noqa
    try:
        cm = importlib.import_module("contracts." + mod)
    except ModuleNotFoundError as e:
        if e.name != "contracts." + mod:
            load_errors.append(f"contracts.{mod}: {type(e).__name__}: {e}")
    except Exception as e:
        load_errors.append(f"contracts.{mod}: {type(e).__name__}: {e}")
    try:
        om = importlib.import_module("oracles." + mod)
    except ModuleNotFoundError as e:
        if e.name != "oracles." + mod:
            load_errors.append(f"oracles.{mod}: {type(e).__name__}: {e}")
    except Exception as e:
        load_errors.append(f"oracles.{mod}: {type(e).__name__}: {e}")

    jobs = []
    for i, c in enumerate(getattr(cm, "CONTRACTS", [])):
        if thorough or not getattr(c, "thorough_only", False):
            jobs.append((("contract", c.name), prove_contract, (mod, i, thorough), 900 if thorough else 240))
    for i, l in enumerate(getattr(cm, "LEMMAS", [])):
        jobs.append((("lemma", l.name), prove_lemma, (mod, i, thorough), 300))
    rng = random.Random(seed)
    cases = list(om.cases(rng, tier)) if om else []
    limit = 240 if thorough else 90
    order = list(range(len(cases)))
    random.Random(seed + 1).shuffle(order)
    n = max(1, min(len(cases), NPROC * (8 if thorough else 3)))
    chunks = [[cases[j] for j in order[i::n]] for i in range(n)] if cases else []
    ojobs = [(("cases", i), run_chunk, (mod, ch, limit), (5400 if thorough else 600)) for i, ch in enumerate(chunks)]
    # long jobs first, interleaved so that both kinds start early
    jobs = jobs + ojobs

    proofs, lemmas, results, undecided = [], [], [], []
    for key, st, v in run_jobs(jobs, deadline):
        if key[0] == "contract":
            if st == "ok":
                proofs.append(v)
            else:
                undecided.append({"contract": key[1], "reason": f"{st}: {v}"})
        elif key[0] == "lemma":
            if st == "ok":
                lemmas.append(v)
            else:
                undecided.append({"contract": key[1], "reason": f"{st}: {v}"})
        else:
            if st == "ok":
                results.extend(v)
            elif st == "timeout":
                notes.append(f"chunk {key[1]} timed out")
            else:
                notes.append(f"chunk {key[1]} {st}: {v}")
                # the real code killed the interpreter: run its cases one by one
                for c in chunks[key[1]]:
                    for k2, s2, v2 in run_jobs([(("case", 0), run_chunk, (mod, [c], limit), limit + 5)], deadline):
                        if s2 == "ok":
                            results.extend(v2)
                        elif s2 == "crash":
                            results.append((c[0], c[1], "broken", f"interpreter died: {v2}", 0.0))

    failed = []
    obl = dis = 0
    assumptions, functions, backends = set(), {}, {}
    for r in proofs + lemmas:
        for o in r["obligations"]:
            obl += 1
            if o[1] == "discharged":
                dis += 1
                backends[o[2]] = backends.get(o[2], 0) + 1
            else:
                failed.append({"contract": r["name"], "obligation": o[0], "detail": o[3]})
        if r.get("error"):
            undecided.append({"contract": r["name"], "reason": r["error"]})
        elif not r["obligations"]:
            failed.append({"contract": r["name"], "obligation": "(none generated)", "detail": "no obligation was generated"})
        assumptions |= set(r.get("assumptions", ()))
        for f in r.get("functions", ()):
            functions.setdefault(f, []).append(r["name"])
    und_names = {u["contract"] for u in undecided}
    failed = [f for f in failed if f["contract"] not in und_names] + [f for f in failed if f["contract"] in und_names]
    broken = [r for r in results if r[2] == "broken"]
    timeouts = [r for r in results if r[2] == "timeout"]
    kf = known_findings(pid)
    try:
        os.remove(os.path.join(HERE, "evidence", "replay", f"{pid}.json"))
    except OSError:
        pass
    unknown = []
    seen_kf = {}
    for r in broken:
        hit = next((f for f in kf if matches(f, r[0], r[1], r[3])), None)
        if hit:
            seen_kf.setdefault(hit["id"], hit)
        else:
            unknown.append(r)
    kf_contracts = {c for f in kf for c in f.get("contracts", ())}
    failed = [f for f in failed if f["contract"] + "::" + f["obligation"] not in kf_contracts]

    violations = []
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    rp = os.path.join(HERE, "evidence", "replay", f"{pid}.json")
    if unknown:
        unknown.sort(key=lambda r: len(json.dumps(r[1])))
        name, args, _, msg, _ = unknown[0]
        json.dump({"property": pid, "case": {"check": name, "args": args}, "message": msg,
                   "others": [{"check": r[0], "args": r[1], "message": r[3]} for r in unknown[1:20]],
                   "failed_obligations": failed[:20], "undecided": undecided,
                   "rerun": f"{HERE}/check.sh --replay {rp}"}, open(rp, "w"), indent=1, default=str)
        violations.append((f"{name} {json.dumps(args, default=str)}: {msg}", ""))
    elif failed:
        json.dump({"property": pid, "failed_obligations": failed[:50], "undecided": undecided,
                   "note": "no failing input found by the executable contracts; the obligations above were not discharged",
                   "rerun": f"{HERE}/check.sh --replay {rp}"}, open(rp, "w"), indent=1, default=str)
        violations.append((f"obligation not discharged: {failed[0]['contract']}: {failed[0]['obligation']}", " no-failing-input-found"))
    elif load_errors:
        json.dump({"property": pid, "load_errors": load_errors, "note": "the contracts could not be bound to the source"}, open(rp, "w"), indent=1)
        violations.append((load_errors[0], " no-failing-input-found"))

    distinct = len({json.dumps([r[0], r[1]], sort_keys=True, default=str) for r in results if r[2] == "ok"})
    meta = getattr(om, "META", {}) if om else {}
    cmeta = getattr(cm, "META", {}) if cm else {}
    level = manifest_level(pid) or ("proof" if obl else "exploration")
    cov = {"obligations": obl, "discharged": dis,
           "checker_cmd": f"{HERE}/check.sh {pid}   (VC generator pyvc over /repo's AST; z3, and cvc5 on z3's unknowns; thorough tier re-checks every solver obligation with cvc5)",
           "trusted_base": ["CPython's ast module and the VC generator /verif/pyvc (symbolic semantics of the Python subset)", "z3 5.3 / cvc5 1.1",
                            "library contracts in /verif/pyvc/models.py and /verif/pyvc/gemmodel.py (numpy, itertools, functools, gem), listed under assumptions"],
           "functions_under_contract": {k: shortened(sorted(set(v))) for k, v in sorted(functions.items())},
           "backends": backends, "solver_time_s": round(sum(r.get("solver_time", 0) for r in proofs + lemmas), 2),
           "contracts_total": len(proofs),
           "contracts": listed(proofs),
           "lemmas": [{"name": r["name"], "obligations": len(r["obligations"])} for r in lemmas],
           "proved_unbounded": sum(1 for r in proofs if r["ok"] and not r.get("bounded")),
           "undecided_contracts": undecided,
           "evaluations": len(results), "distinct_nontrivial": distinct,
           "rule": meta.get("rule", "concrete inputs (element expressions, points, shapes) drawn from a fixed list and from VERIF_SEED; distinct by input; the executable contract ran to completion on the real code"),
           "samples": [{"check": r[0], "args": r[1]} for r in results[:5]] or [{"contract": r["name"]} for r in proofs[:3]],
           "case_timeouts": len(timeouts), "notes": notes}
    if level == "other":
        cov["explanation"] = meta.get("explanation", "")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": sorted(assumptions) + list(cmeta.get("assumptions", ())) + list(meta.get("assumptions", ())),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1, default=str)

    print(f"{pid}: contracts {len(proofs)}, obligations {dis}/{obl} discharged, lemmas {len(lemmas)}, undecided {len(undecided)}, "
          f"concrete evaluations {len(results)} ({len(timeouts)} timed out), {time.time()-t0:.1f}s")
    for u in undecided:
        print(f"  undecided: {u['contract']}: {str(u['reason'])[:300]}")
    for x in notes:
        print("  note:", x[:300])
    for f in seen_kf.values():
        print(f"KNOWN-FINDING: property={pid} {f['what']}")
    if not violations and not kf and obl == 0 and not results:
        json.dump({"property": pid, "note": "nothing was checked"}, open(rp, "w"))
        violations.append(("nothing was checked", " no-failing-input-found"))
    for f in failed[:10]:
        print(f"  failed obligation: {f['contract']}: {f['obligation']}: {f['detail'][:300]}")
    for r in unknown[:5]:
        print(f"  broken: {r[0]} {json.dumps(r[1], default=str)[:300]}: {r[3][:400]}")
    for what, suffix in violations:
        print("  " + what[:600])
        print(f"VIOLATION property={pid} replay={rp}{suffix}")
    return 1 if violations else 0


def shortened(names, most=6):
    return names if len(names) <= most else names[:most] + [f"and {len(names) - most} more"]


def listed(proofs, most=250):
    """The contracts of the evidence file: all of them, or (for a large table) the slowest, the bounded and the unfinished ones first."""
    row = lambda r: {"name": r["name"], "obligations": len(r["obligations"]), "discharged": sum(o[1] == "discharged" for o in r["obligations"]),
                     "paths": r.get("paths", 0), "time_s": round(r.get("time", 0), 2), "bounded": r.get("bounded"), "note": (r.get("note") or "")[:300]}
    if len(proofs) > most:
        proofs = sorted(proofs, key=lambda r: (r["ok"], -r.get("time", 0)))[:most]
    return [row(r) for r in proofs]


def manifest_level(pid):
    try:
        m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
        return next(c["level"] for c in m["checks"] if c["property"] == pid)
    except Exception:
        return None


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
