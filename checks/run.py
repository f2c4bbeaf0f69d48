"""Runs the check of one property: python3-vt checks/run.py <property id>.

Exit 0 when every obligation was discharged (or, where the engine could not
decide, the labelled bounded stand-in found nothing); exit 1 with a VIOLATION
line when the real code breaks the property."""
import gc
import hashlib
import json
import multiprocessing as mp
import os
import queue
import resource
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from checks import common  # noqa: E402
from pyvc import core, loader  # noqa: E402
from contracts import prove  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
RECYCLE = 1 << 20         # kB of memory after which a worker is replaced
LIMITS = {"quick": (420, 200), "thorough": (820, 600)}


def cover_start(seen):
    """Record the functions of the code under verification that run."""
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "pv")
    except ValueError:
        return

    def start(code, off):
        if "/aeromet_py/" in code.co_filename:
            seen.add(code.co_filename.split("/aeromet_py/")[1] + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


def worker(tasks, inq, outq, end, per_task):
    seen = set()
    cover_start(seen)
    sent = set()
    while True:
        try:
            i = inq.get_nowait()
        except queue.Empty:
            time.sleep(0.01)
            try:
                i = inq.get(timeout=0.2)
            except queue.Empty:
                break
        t = tasks[i]
        st = prove.Stats()
        res = {"i": i, "name": t.name}
        t0 = time.time()
        core.CTX.deadline = min(t0 + per_task, end)
        e = None
        try:
            if time.time() > end:
                raise core.OutOfTime("time limit of the check")
            res["failure"] = t.run(st)
        except core.Control as x:
            e = x
            st.unsupported.append((t.name, f"{type(e).__name__}: {e}"))
        except Exception as x:
            e = x
            st.unsupported.append((t.name, "error of the machinery: " + traceback.format_exc(limit=-4)))
        if e is not None:
            core.CTX.deadline = None
            try:
                res["failure"] = t.standin(st, e)
            except (Exception, core.Control) as x:
                st.unsupported.append((t.name, f"stand-in: {type(x).__name__}: {x}"))
                res["failure"] = None
        core.CTX.deadline = None
        st.time = res["time"] = time.time() - t0
        res["stats"] = st
        res["functions"] = seen - sent
        sent |= seen
        outq.put(res)
        if resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > RECYCLE:
            outq.put("again")
            prove.PLAIN.close()
            return
    outq.put(None)
    prove.PLAIN.close()


def main():
    pid = sys.argv[1]
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    broken = None
    try:
        loader.install(prove.REPO)
    except BaseException as e:
        broken = f"{type(e).__name__}: {e}"
    from checks import calendar_, defs, lists_, sections_, stations_, total_, units_  # noqa: F401
    if broken:
        # does the plain package import?
        a = prove.PLAIN.ask({"op": "report", "cls": "metar", "text": "METAR", "paths": []})
        if isinstance(a, dict) and a.get("dead"):
            path = replay_file(pid, prove.Failure("import", broken, {"error": broken}))
            print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
            return 1
        core.CTX.hooks["broken"] = broken
    prove.PLAIN.close()
    chk = defs.CHECKS[pid]
    total, per_task = LIMITS[TIER]
    tasks = list(chk.tasks(TIER))
    n = min(len(tasks), int(os.environ.get("VERIF_JOBS", "0") or 0) or os.cpu_count() or 4)
    order = sorted(range(len(tasks)), key=lambda i: -tasks[i].cost)
    gc.collect()
    gc.freeze()
    ctx = mp.get_context("fork")
    inq, outq = ctx.Queue(), ctx.Queue()
    for i in order:
        inq.put(i)
    end = t0 + total
    procs = []

    def start():
        p = ctx.Process(target=worker, args=(tasks, inq, outq, end, per_task), daemon=True)
        procs.append(p)
        p.start()
    for _ in range(n):
        start()
    st = prove.Stats()
    failures = []
    functions = set()
    slow = []
    alive = n
    done = set()
    hard = t0 + total + 150
    while alive:
        try:
            r = outq.get(timeout=5)
        except queue.Empty:
            if time.time() > hard or not any(p.is_alive() for p in procs):
                break
            continue
        if r is None:
            alive -= 1
            continue
        if r == "again":
            start()
            continue
        done.add(r["i"])
        slow.append((round(r["time"], 1), r["name"]))
        st.merge(r["stats"])
        functions |= r["functions"]
        if r["failure"] is not None:
            failures.append(r["failure"])
            if not common.is_known(pid, r["failure"]):
                break
    for p in procs:
        if p.is_alive():
            p.kill()
    for i in range(len(tasks)):
        if i not in done and not failures:
            st.unsupported.append((tasks[i].name, "not finished in time"))
    known = [f for f in failures if common.is_known(pid, f)]
    new = [f for f in failures if not common.is_known(pid, f)]
    for line in sorted({f"KNOWN-FINDING: property={pid} {common.is_known(pid, f)}" for f in known}):
        print(line)
    if not new and st.obligations == 0 and st.bounded == 0:
        st.unsupported.append(("all", "no obligation was generated"))
    evidence(pid, chk, st, tasks, functions, new, known, time.time() - t0, slow)
    for u in st.unsupported[:20]:
        print("UNDECIDED", u[0], u[1].strip()[-300:].replace("\n", " / "))
    print(f"{pid}: {st.obligations} obligations, {st.discharged} discharged, {st.paths} paths, "
          f"{st.samples} replayed on the plain code, {st.bounded} bounded cases, {len(tasks)} units, "
          f"{time.time() - t0:.1f} s")
    if new:
        f = new[0]
        path = replay_file(pid, f)
        print(f"obligation: {f.obligation}")
        print(f.detail)
        print(f"VIOLATION property={pid} replay={path}" + ("" if f.replay.get("replayed", True)
                                                          else " no-failing-input-found"))
        return 1
    return 0


def replay_file(pid, f):
    h = hashlib.sha1((f.obligation + f.detail).encode()).hexdigest()[:10]
    path = os.path.join(ROOT, "evidence", f"{pid}-replay-{h}.json")
    with open(path, "w") as o:
        json.dump({"property": pid, "obligation": f.obligation, "detail": f.detail, **f.replay}, o, indent=1,
                  default=repr)
    return path


def evidence(pid, chk, st, tasks, functions, new, known, wall, slow):
    per = {}
    for k, v in st.backends.items():
        per[k] = v
    und = [f"{a}: {b}" for a, b in st.unsupported]
    ev = {
        "property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
        "level": chk.level,
        "coverage": {
            "obligations": st.obligations, "discharged": st.discharged,
            "checker_cmd": f"cd /verif && python3-vt checks/run.py {pid}",
            "trusted_base": common.TRUSTED + chk.trusted,
            "units": len(tasks), "unit_names": [t.name for t in tasks][:400],
            "by_back_end": per, "solver_seconds": round(st.time, 2), "paths": st.paths,
            "slowest_units_seconds": sorted(slow, reverse=True)[:12],
            "table_rows_decided": st.rows,
            "evaluations": st.samples + st.bounded,
            "replayed_on_plain_code": st.samples, "bounded_cases_not_counted_as_proved": st.bounded,
            "undecided": und[:100], "functions_under_contract": sorted(functions),
            "sources": {os.path.relpath(k, prove.REPO): v for k, v in loader.INFO["sha"].items()},
            "samples": st.examples[:5], "explanation": chk.explanation,
        },
        "assumptions": common.ASSUMPTIONS + chk.assumptions,
        "wall_s": round(wall, 2), "violations": len(new),
    }
    if known:
        ev["coverage"]["known_findings"] = [common.is_known(pid, f) for f in known]
    path = os.path.join(ROOT, "evidence", f"{pid}.json")
    with open(path + ".tmp", "w") as o:
        json.dump(ev, o, indent=1, default=repr)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main())
