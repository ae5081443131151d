"""usage: python -m vt.run <property-id> [--tier quick|thorough] [--replay FILE] [--sub NAME] [--examples N]"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8")
    os.execve(sys.executable, [sys.executable, "-m", "vt.run", *sys.argv[1:]], env)

import argparse
import faulthandler
import importlib
import json
import hashlib
import pickle
import shutil
import signal
import tempfile
import time
import traceback
import pkgutil

from vt import core
from vt.core import Ctx, Violation, HarnessError, CaseTimeout, canonical, classify_exception

VERIF = core.VERIF


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    d = json.loads(line)
                    if d.get("property") == prop and d.get("status") == "known":
                        res.append(d)
    return res


def load_check(prop):
    import checks
    for m in pkgutil.iter_modules(checks.__path__):
        if m.name.split("_")[0] == prop:
            return importlib.import_module("checks." + m.name)
    raise SystemExit("no check for %s" % prop)


def execute(sub, case, known):
    """run one case; returns (ctx, violation or None); raises HarnessError."""
    ctx = Ctx(known)

    def on_alarm(*a):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(sub.case_timeout)
    try:
        sub.run(case, ctx)
        return ctx, None
    except Violation as v:
        if v.key is not None and ctx.is_known(v.key):
            return ctx, None
        return ctx, v
    except CaseTimeout as e:
        ctx.label("case-timeout")
        if sub.hang_is_violation:
            return ctx, Violation("operation did not terminate within %ss\n%s" % (
                sub.case_timeout, "".join(traceback.format_exception(e)[-6:])))
        return ctx, None
    except HarnessError:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        v = classify_exception(e)
        if isinstance(v, HarnessError):
            raise v from e
        return ctx, v
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def reduce_list(sub, failure, known, seconds):
    """drop operations that are not needed (below the generator's minimum length)"""
    end = time.monotonic() + seconds
    case = failure["case"]
    for name in ("ops", "steps"):
        if not isinstance(case, dict) or not isinstance(case.get(name), list):
            continue
        items = case[name]
        size = max(1, len(items) // 2)
        while True:
            i = 0
            while i < len(items) and time.monotonic() < end:
                cand = items[:i] + items[i + size:]
                try:
                    v = execute(sub, dict(case, **{name: cand}), known)[1]
                except Exception:
                    v = None
                if v is not None and v.key == failure["key"]:
                    items = cand
                    failure = dict(case=dict(case, **{name: items}), msg=v.msg, key=v.key)
                else:
                    i += size
            if size == 1 or time.monotonic() >= end:
                break
            size //= 2
        case = failure["case"]
    return failure


def worker(mod, sub, shard, nshards, seed, tier, known, deadline, stopfile, outpath, examples):
    res = dict(sub=sub.name, shard=shard, evaluations=0, nontrivial=[], labels={}, known_hits={},
               samples=[], failure=None, skipped=0, error=None)
    tmp = tempfile.mkdtemp(prefix="verif-")
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    faulthandler.register(signal.SIGUSR1)
    nontrivial = set()
    state = dict(case=None, v=None, herr=None)

    def account(case, ctx):
        res["evaluations"] += 1
        for k, n in ctx.labels.items():
            res["labels"][k] = res["labels"].get(k, 0) + n
        for k, n in ctx.known_hits.items():
            res["known_hits"][k] = res["known_hits"].get(k, 0) + n
        if ctx.nontrivial:
            h = hashlib.sha1(canonical(case).encode()).hexdigest()[:16]
            if h not in nontrivial:
                nontrivial.add(h)
                if len(res["samples"]) < 2 or (len(res["samples"]) < 3 and len(nontrivial) % 17 == 0):
                    res["samples"].append(case)

    try:
        contain(mod, tmp)
        if hasattr(mod, "worker_setup"):
            mod.worker_setup()
        if isinstance(sub, core.Exhaustive):
            for i, case in enumerate(sub.cases(tier)):
                if i % nshards != shard:
                    continue
                if time.monotonic() > deadline or os.path.exists(stopfile):
                    res["skipped"] += 1
                    continue
                ctx, v = execute(sub, case, known)
                account(case, ctx)
                if v is not None:
                    res["failure"] = dict(case=case, msg=v.msg, key=v.key)
                    break
        else:
            import hypothesis
            import hypothesis.internal.conjecture.engine as eng
            from hypothesis import given, settings, HealthCheck, Phase
            eng.MAX_SHRINKING_SECONDS = 30 if tier == "quick" else 120

            n = examples or (sub.quick if tier == "quick" else sub.thorough)
            n = max(1, (n + nshards - 1) // nshards)

            class Failed(Exception):
                pass

            def test(case):
                if state["herr"] is not None:
                    return
                if state["v"] is None and (time.monotonic() > deadline or os.path.exists(stopfile)):
                    res["skipped"] += 1
                    return
                try:
                    ctx, v = execute(sub, case, known)
                except HarnessError as e:
                    state["herr"] = (case, str(e))
                    return
                if state["v"] is None or v is None:
                    account(case, ctx)
                if v is not None:
                    state["case"], state["v"] = case, v
                    raise Failed(v.msg)

            t = given(sub.strategy())(test)
            t = hypothesis.seed(seed * 1009 + shard)(t)
            t = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                         report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                         phases=(Phase.generate, Phase.shrink))(t)
            devnull = open(os.devnull, "w")
            so, se = sys.stdout, sys.stderr
            try:
                sys.stdout = sys.stderr = devnull if not os.environ.get("VERIF_DEBUG") else se
                t()
            except Failed:
                pass
            except hypothesis.errors.Flaky:
                pass
            except BaseException as e:
                if state["v"] is None:
                    raise
                if isinstance(e, BaseExceptionGroup) or isinstance(e, hypothesis.errors.HypothesisException):
                    pass
                else:
                    raise
            finally:
                sys.stdout, sys.stderr = so, se
            if state["herr"]:
                res["error"] = "case %s\n%s" % (canonical(state["herr"][0])[:2000], state["herr"][1])
            elif state["v"] is not None:
                res["failure"] = dict(case=state["case"], msg=state["v"].msg, key=state["v"].key)
                res["failure"] = reduce_list(sub, res["failure"], known, 15 if tier == "quick" else 60)
    except BaseException:
        res["error"] = traceback.format_exc()
    res["nontrivial"] = sorted(nontrivial)
    with open(outpath + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(outpath + ".tmp", outpath)
    shutil.rmtree(tmp, ignore_errors=True)


def contain(mod, tmp):
    """checks of hostile input run as nobody, who owns nothing but the scratch directory"""
    if getattr(mod, "UNPRIVILEGED", False) and os.getuid() == 0:
        os.chown(tmp, 65534, 65534)
        os.environ["HOME"] = tmp
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)


def fork_run(fn, *args):
    pid = os.fork()
    if pid:
        return pid
    try:
        os.setpgid(0, 0)
        fn(*args)
        sys.stdout.flush()
        os._exit(0)
    except BaseException:
        traceback.print_exc()
        os._exit(3)


def confirm(mod, sub, case, known, work):
    """re-run the shrunk case in a fresh process, without hypothesis."""
    out = os.path.join(work, "confirm.json")
    if os.path.exists(out):
        os.unlink(out)

    def go():
        tmp = tempfile.mkdtemp(prefix="verif-")
        tempfile.tempdir = tmp
        contain(mod, tmp)
        if hasattr(mod, "worker_setup"):
            mod.worker_setup()
        try:
            ctx, v = execute(sub, case, known)
            d = None if v is None else dict(msg=v.msg, key=v.key)
            with open(out, "w") as f:
                json.dump(dict(failure=d, known=ctx.known_hits), f)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    pid = fork_run(go)
    t = time.monotonic()
    while time.monotonic() - t < sub.case_timeout + 60:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        time.sleep(0.05)
    else:
        os.killpg(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    if not os.path.exists(out):
        return None
    with open(out) as f:
        return json.load(f)["failure"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--examples", type=int)
    ap.add_argument("--procs", type=int, default=8)
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.monotonic()
    from vt import boot  # noqa: F401
    mod = load_check(a.prop)
    if getattr(mod, "PRELOAD", None):
        mod.PRELOAD()
    known_entries = load_known(a.prop)
    known = {d["key"] for d in known_entries}
    subs = {s.name: s for s in mod.subs()}

    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        sub = subs[d["sub"]]
        tempfile.tempdir = tempfile.mkdtemp(prefix="verif-")
        contain(mod, tempfile.tempdir)
        if hasattr(mod, "worker_setup"):
            mod.worker_setup()
        try:
            ctx, v = execute(sub, d["case"], () if d.get("known") else known)
        finally:
            shutil.rmtree(tempfile.tempdir, ignore_errors=True)
        sys.stdout.flush()
        if v is None:
            print("replay: property %s held" % a.prop, ctx.labels)
            os._exit(0)
        print(v.msg)
        print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
        sys.stdout.flush()
        os._exit(1)

    tier = a.tier
    os.environ["VERIF_TIER"] = tier
    budget = a.budget or (420 if tier == "quick" else 3600)
    deadline = t0 + budget
    work = tempfile.mkdtemp(prefix="verif-run-")
    if getattr(mod, "UNPRIVILEGED", False):
        os.chmod(work, 0o777)
    stopfile = os.path.join(work, "stop")
    tasks = []
    maxshards = max(s.shards for s in subs.values())
    # interleave the subs so that all of them make progress within the budget
    for shard in range(maxshards):
        for sub in subs.values():
            if a.sub and sub.name != a.sub:
                continue
            if shard < sub.shards:
                tasks.append((sub, shard))
    violations = []   # (sub, failure)
    errors = []
    results = []

    # saved inputs first: minimal cases of defects found earlier
    regress = os.path.join(VERIF, "regress", a.prop)
    nreg = 0
    if os.path.isdir(regress) and not a.sub:
        for fn in sorted(os.listdir(regress)):
            with open(os.path.join(regress, fn)) as f:
                d = json.load(f)
            if d["sub"] not in subs:
                continue
            tasks.insert(nreg, (core.Exhaustive("regress:" + fn, lambda tier, d=d: [d["case"]], subs[d["sub"]].run, shards=1), 0))
            tasks[nreg][0].orig = d["sub"]
            nreg += 1

    running = {}
    pending = list(tasks)
    i = 0
    while pending or running:
        while pending and len(running) < a.procs:
            sub, shard = pending.pop(0)
            out = os.path.join(work, "r%d.pkl" % i)
            i += 1
            pid = fork_run(worker, mod, sub, shard, sub.shards, seed, tier, known, deadline, stopfile, out, a.examples)
            running[pid] = (sub, shard, out, time.monotonic())
        time.sleep(0.02)
        for pid in list(running):
            p, st = os.waitpid(pid, os.WNOHANG)
            sub, shard, out, started = running[pid]
            if not p:
                if time.monotonic() > deadline + sub.case_timeout + 150:
                    os.kill(pid, signal.SIGUSR1)
                    time.sleep(0.5)
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    os.waitpid(pid, 0)
                    del running[pid]
                    errors.append("worker %s/%s did not finish" % (sub.name, shard))
                continue
            del running[pid]
            try:
                os.killpg(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            if not os.path.exists(out):
                errors.append("worker %s/%s died, status %s" % (sub.name, shard, st))
                continue
            with open(out, "rb") as f:
                res = pickle.load(f)
            results.append(res)
            if res["error"]:
                errors.append("%s/%s: %s" % (sub.name, shard, res["error"]))
            if res["failure"]:
                violations.append((sub, res["failure"]))
                open(stopfile, "w").close()

    confirmed = []
    unconfirmed = []
    seen = set()
    for sub, fail in violations:
        if (sub.name, fail["msg"][:60]) in seen:
            continue
        seen.add((sub.name, fail["msg"][:60]))
        got = None
        for _ in range(3):
            got = confirm(mod, sub, fail["case"], known, work)
            if got:
                break
        if got:
            confirmed.append((sub, fail, got))
        else:
            unconfirmed.append((sub, fail))

    # known findings: each listed one is demonstrated again from its own case
    known_lines = []
    for d in known_entries:
        sub = subs.get(d["sub"])
        if sub is None:
            continue
        got = confirm(mod, sub, d["case"], (), work)
        if got and got.get("key") == d["key"]:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (a.prop, d["what"]))
        elif got:
            confirmed.append((sub, dict(case=d["case"], msg=got["msg"], key=got["key"]), got))

    evaluations = sum(r["evaluations"] for r in results)
    bysub = {}
    for r in results:
        b = bysub.setdefault(r["sub"], dict(evaluations=0, nontrivial=set(), labels={}, skipped=0, known_hits={}))
        b["evaluations"] += r["evaluations"]
        b["nontrivial"].update(r["nontrivial"])
        b["skipped"] += r["skipped"]
        for k, n in r["labels"].items():
            b["labels"][k] = b["labels"].get(k, 0) + n
        for k, n in r["known_hits"].items():
            b["known_hits"][k] = b["known_hits"].get(k, 0) + n
    distinct = sum(len(b["nontrivial"]) for b in bysub.values())
    samples = []
    for name in bysub:
        k = 0
        for r in results:
            if r["sub"] == name and k < 2:
                for s in r["samples"][:2 - k]:
                    text = canonical(s)
                    samples.append(dict(sub=name, case=s if len(text) < 3000 else text[:3000] + "..."))
                    k += 1
    rules = "; ".join("[%s] %s" % (s.name, s.rule) for s in subs.values() if s.rule)
    coverage = dict(
        evaluations=evaluations,
        distinct_nontrivial=distinct,
        rule=rules or getattr(mod, "RULE", ""),
        samples=samples,
        per_sub={n: dict(evaluations=b["evaluations"], distinct_nontrivial=len(b["nontrivial"]),
                         skipped_after_budget=b["skipped"], labels=b["labels"], known_findings_hit=b["known_hits"])
                 for n, b in bysub.items()},
        unreproduced=[dict(sub=s.name, msg=f["msg"][:500]) for s, f in unconfirmed],
    )
    evidence = dict(
        property=a.prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
        coverage=coverage, wall_s=round(time.monotonic() - t0, 2),
        assumptions=list(getattr(mod, "ASSUMPTIONS", ())),
        violations=len(confirmed))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.sub:
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, default=repr)
            f.write("\n")
    for line in known_lines:
        print(line)
    for n, b in sorted(bysub.items()):
        print("%-28s cases=%d nontrivial=%d skipped=%d %s" % (
            n, b["evaluations"], len(b["nontrivial"]), b["skipped"],
            " ".join("%s=%d" % kv for kv in sorted(b["labels"].items())[:40])))
    for sub, fail in unconfirmed:
        print("UNREPRODUCED (not counted): %s: %s" % (sub.name, fail["msg"][:500]))
    shutil.rmtree(work, ignore_errors=True)
    if confirmed:
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for sub, fail, got in confirmed:
            h = hashlib.sha1(canonical(fail["case"]).encode()).hexdigest()[:10]
            name = sub.name.replace(":", "_").replace("/", "_")
            path = os.path.join(rdir, "%s-%s-%s.json" % (a.prop, name, h))
            with open(path, "w") as f:
                json.dump(dict(property=a.prop, sub=getattr(sub, "orig", sub.name), case=fail["case"], msg=fail["msg"], seed=seed), f, indent=1)
            print("  %s: %s" % (sub.name, got["msg"][:1500]))
            print("  case: %s" % canonical(fail["case"])[:1500])
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
        sys.stdout.flush()
        os._exit(1)
    if errors:
        for e in errors[:2]:
            print("ERROR", e[:1500], "...", e[-3000:] if len(e) > 1500 else "", file=sys.stderr)
        sys.stderr.flush()
        os._exit(2)
    print("OK property=%s tier=%s seed=%d cases=%d nontrivial=%d wall=%.1fs" % (
        a.prop, tier, seed, evaluations, distinct, time.monotonic() - t0))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
