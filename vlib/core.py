"""Driver shared by all checks.

One check = one module props/<id>.py, which provides

  ID, RULE        property id, and the stated rule for what counts as a non-trivial case
  strategy(tier)  a Hypothesis strategy of cases; a case is a JSON value (it is its own replay file)
  check(case, ctx)  runs the engine and the oracle; raises on disagreement; returns a label set / dict
  CORPUS          optional list of fixed cases which are run before the random ones
  BUDGET          optional {'quick': seconds, 'thorough': seconds} of generation per worker
  EXAMPLES        optional {'quick': n, 'thorough': n} cap on cases per worker
  warmup()        optional, run once before the workers are forked

The driver forks workers, seeds each from VERIF_SEED, lets Hypothesis generate and shrink, writes the smallest
failing case as a replay file, and writes the evidence file.
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(AssertionError):
    pass


class Stop(KeyboardInterrupt):
    """The time for generating or shrinking is over (Hypothesis lets it through at once)."""


class Skip(Exception):
    """The case is outside the property's domain (not counted)."""


def dumps(case):
    return json.dumps(case, sort_keys=True)


def case_hash(case):
    return int.from_bytes(hashlib.sha1(dumps(case).encode()).digest()[:8], "big")


class Ctx:
    def __init__(self, root, tier="quick"):
        self.root = root
        self.tier = tier
        self.n = 0
        self.dir = None

    def fresh(self):
        """A new empty directory which is the working directory of the case."""
        if self.dir:
            os.chdir(self.root)
            shutil.rmtree(self.dir, ignore_errors=True)
        self.n += 1
        self.dir = os.path.join(self.root, f"case{os.getpid()}_{self.n}")
        os.makedirs(self.dir)
        os.chdir(self.dir)
        return self.dir


def run_case(mod, case, ctx):
    ctx.fresh()
    info = mod.check(case, ctx)
    return info or {}


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb[-4:])
    msg = str(exc)
    return f"{type(exc).__name__}: {msg[:1500]} [{where}]"


class Known:
    """Known findings of this property: {'property','id','what','case'?}; matched by mod.known(case, text) -> id."""

    def __init__(self, mod):
        self.mod = mod
        self.items = []
        path = os.path.join(HERE, "known_findings.json")
        if os.path.exists(path):
            for e in json.load(open(path)).get("findings", []):
                if e["property"] == mod.ID and e.get("status", "open") == "open":
                    self.items.append(e)

    def match(self, case, text):
        f = getattr(self.mod, "known", None)
        if not f or not self.items:
            return None
        k = f(case, text)
        return k if any(e["id"] == k for e in self.items) else None


def worker(mod, ix, nworkers, seed, tier, root, t_end, examples):
    from hypothesis import given, settings, HealthCheck, Phase, seed as hseed
    from hypothesis.errors import UnsatisfiedAssumption
    ctx = Ctx(os.path.join(root, f"w{ix}"), tier)
    os.makedirs(ctx.root)
    cur = os.path.join(root, f"cur{ix}.json")
    stop = os.path.join(root, "stop")
    known = Known(mod)
    res = dict(evaluations=0, nontrivial=[], samples=[], labels={}, violation=None, known={}, skipped=0)
    seen = set()
    state = dict(first_fail=None, best=None, fails={})
    shrink_s = 60 if tier == "quick" else 240

    def one(case):
        blob = dumps(case)
        if blob in state["fails"]:
            raise state["fails"][blob]
        now = time.time()
        if state["first_fail"] is None:
            if now > t_end or os.path.exists(stop):
                raise Stop()
        elif now > state["first_fail"] + shrink_s:
            raise Stop()
        with open(cur, "w") as f:
            f.write(blob)
        h = case_hash(case)
        try:
            info = run_case(mod, case, ctx)
        except Skip:
            res["skipped"] += 1
            return
        except (UnsatisfiedAssumption, KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:  # noqa
            text = describe(e)
            k = known.match(case, text)
            if k:
                res["known"][k] = res["known"].get(k, 0) + 1
                return
            if state["first_fail"] is None:
                state["first_fail"] = time.time()
            err = Violation(text)
            state["fails"][blob] = err
            state["best"] = (case, text)
            raise err
        if state["first_fail"] is not None:
            return
        res["evaluations"] += 1
        labels = info.get("labels", []) if isinstance(info, dict) else list(info)
        for lb in labels:
            res["labels"][lb] = res["labels"].get(lb, 0) + 1
        nt = info.get("nontrivial", True) if isinstance(info, dict) else True
        if nt and h not in seen:
            seen.add(h)
            if len(res["samples"]) < 3 and len(blob) < 6000:
                res["samples"].append(case)

    try:
        corpus = list(getattr(mod, "CORPUS", []))
        for j, case in enumerate(corpus):
            if j % nworkers == ix:
                one(case)

        @hseed(seed * 1000 + ix)
        @settings(max_examples=examples, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                  phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, derandomize=False)
        @given(mod.strategy(tier))
        def drive(case):
            one(case)

        rnd = random.getstate()
        if not os.path.exists(stop):
            drive()
        random.setstate(rnd)
    except BaseException as e:  # noqa
        if state["best"] is None:
            if not isinstance(e, Stop):
                res["error"] = describe(e)
        else:
            res["violation"] = dict(case=state["best"][0], text=state["best"][1])
            open(stop, "w").close()
    res["nontrivial"] = sorted(seen)
    if os.path.exists(cur):
        os.unlink(cur)
    tmp = os.path.join(root, f"res{ix}.tmp")
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.rename(tmp, os.path.join(root, f"res{ix}.json"))


def child(fn, log):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.setpgid(0, 0)
            fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            fn()
            code = 0
        except BaseException:  # noqa
            traceback.print_exc()
        finally:
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            except Exception:  # noqa
                pass
            os._exit(code)
    return pid


def wait_pid(pid, deadline):
    """('exit', code) / ('signal', n) / ('timeout', None)"""
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            if os.WIFSIGNALED(st):
                return "signal", os.WTERMSIG(st)
            return "exit", os.WEXITSTATUS(st)
        if time.time() > deadline:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return "timeout", None
        time.sleep(0.05)


def confirm(mod, case, root, timeout):
    """Run one case alone in a child; returns None when it is fine, else the text of the failure."""
    out = os.path.join(root, "confirm.json")
    if os.path.exists(out):
        os.unlink(out)

    def go():
        ctx = Ctx(tempfile.mkdtemp(dir=root))
        r = {"ok": True}
        try:
            run_case(mod, case, ctx)
        except Skip:
            pass
        except BaseException as e:  # noqa
            r = {"ok": False, "text": describe(e)}
            traceback.print_exc()
        json.dump(r, open(out, "w"))

    how, v = wait_pid(child(go, os.path.join(root, "confirm.log")), time.time() + timeout)
    if how == "signal":
        return f"the engine crashed the process (signal {v})"
    if how == "timeout":
        return f"the engine did not finish within {timeout} s"
    if os.path.exists(out):
        r = json.load(open(out))
        return None if r["ok"] else r["text"]
    return None


def write_evidence(mod, tier, seed, cov, wall, nviol):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = dict(property=mod.ID, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=nviol)
    tmp = os.path.join(d, f".{mod.ID}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(d, f"{mod.ID}.json"))


def write_replay(mod, case, text):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{mod.ID}-{case_hash(case):016x}.json")
    with open(p, "w") as f:
        json.dump(dict(property=mod.ID, what=text, case=case), f, indent=1)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--seconds", type=float, default=0)
    ap.add_argument("--examples", type=int, default=0)
    a = ap.parse_args()
    if a.replay:
        a.replay = os.path.abspath(a.replay)
    t0 = time.time()
    from vlib import deps
    sys.path.append(deps.ensure())
    root = tempfile.mkdtemp(prefix=f"verif-{a.prop}-")
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(root, "numba")
    os.chdir(root)
    code = 2
    try:
        code = run(a, root, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def run(a, root, t0):
    name = "props." + a.prop.lower()
    try:
        mod = importlib.import_module(name)
    except ModuleNotFoundError as e:
        if e.name == name:
            print("no such check:", a.prop)
            return 2
        return import_failure(a, t0, describe(e))
    except Exception as e:  # noqa
        return import_failure(a, t0, describe(e))

    if a.replay:
        data = json.load(open(a.replay))
        text = confirm(mod, data["case"], root, 600)
        print(open(os.path.join(root, "confirm.log")).read()[-4000:])
        if text:
            print(text)
            print(f"VIOLATION property={mod.ID} replay={a.replay}")
            return 1
        print("replay: holds")
        return 0

    nworkers = a.workers or min(getattr(mod, "WORKERS", 8), os.cpu_count() or 1)
    seconds = a.seconds or getattr(mod, "BUDGET", {}).get(a.tier) or (35 if a.tier == "quick" else 900)
    examples = a.examples or getattr(mod, "EXAMPLES", {}).get(a.tier) or 1000000
    violations = []
    errors = []
    results = []
    warm = getattr(mod, "warmup", None)
    if warm:
        # in a child first: a crash of the warm-up is a crash of the engine
        log = os.path.join(root, "warm.log")
        saved = os.dup(1), os.dup(2)
        fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        sys.stdout.flush()
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        try:
            os.makedirs(os.path.join(root, "warm"))
            os.chdir(os.path.join(root, "warm"))
            warm()
        except BaseException as e:  # noqa
            violations.append((dict(warmup=True), "warm-up model failed: " + describe(e)))
        finally:
            os.chdir(root)
            sys.stdout.flush()
            sys.stderr.flush()
            os.dup2(saved[0], 1)
            os.dup2(saved[1], 2)
    t_gen = time.time()
    t_end = t_gen + seconds
    if not violations:
        pids = {}
        for i in range(nworkers):
            pids[i] = child(lambda i=i: worker(mod, i, nworkers, a.seed, a.tier, root, t_end, examples),
                            os.path.join(root, f"log{i}"))
        grace = 120 if a.tier == "quick" else 500
        for i, pid in pids.items():
            how, v = wait_pid(pid, t_end + grace)
            rp = os.path.join(root, f"res{i}.json")
            if os.path.exists(rp):
                r = json.load(open(rp))
                results.append(r)
                if r.get("violation"):
                    violations.append((r["violation"]["case"], r["violation"]["text"]))
                if r.get("error"):
                    errors.append(r["error"])
                continue
            cp = os.path.join(root, f"cur{i}.json")
            log = open(os.path.join(root, f"log{i}"), errors="replace").read()[-3000:]
            if not os.path.exists(cp):
                errors.append(f"worker {i}: {how} {v}\n{log}")
                continue
            case = json.load(open(cp))
            if violations or len(errors) > 2:
                continue
            text = confirm(mod, case, root, 90)
            if text:
                violations.append((case, text))
            else:
                errors.append(f"worker {i} ended with {how} {v} and the case it was on does not reproduce that\n{log}")

    wall = time.time() - t0
    nt = set()
    labels = {}
    samples = []
    for r in results:
        nt.update(r["nontrivial"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    for j in range(3):
        for r in results:
            if j < len(r["samples"]) and len(samples) < 6:
                samples.append(r["samples"][j])
    known = Known(mod)
    cov = dict(evaluations=sum(r["evaluations"] for r in results), distinct_nontrivial=len(nt), rule=mod.RULE,
               samples=samples or [c for c, _ in violations[:1]], labels=dict(sorted(labels.items())), workers=nworkers,
               generation_s=round(time.time() - t_gen, 1))
    write_evidence(mod, a.tier, a.seed, cov, wall, len(violations))
    for e in known.items:
        print(f"KNOWN-FINDING: property={mod.ID} {e['id']}: {e['what']}")
    print(f"{mod.ID} {a.tier} seed={a.seed}: {cov['evaluations']} cases, {len(nt)} distinct non-trivial, {wall:.0f} s; "
          f"labels {cov['labels']}")
    if violations:
        violations.sort(key=lambda cv: len(dumps(cv[0])))
        case, text = violations[0]
        p = write_replay(mod, case, text)
        print("  ", text)
        print("   case:", dumps(case)[:1500])
        print(f"VIOLATION property={mod.ID} replay={p}")
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR", e)
        return 2
    if not cov["evaluations"]:
        print("ERROR: nothing was explored")
        return 2
    return 0


def import_failure(a, t0, text):
    """The engine cannot even be imported: no property of it holds."""
    class M:
        ID = a.prop.upper()
        RULE = "import of the engine"
    if "props/" in text and "/repo" not in text and "numerous" not in text:
        print("ERROR", text)
        return 2
    write_evidence(M, a.tier, a.seed, dict(evaluations=1, distinct_nontrivial=0, rule=M.RULE, samples=[text]),
                   time.time() - t0, 1)
    p = write_replay(M, dict(import_failure=True), text)
    print("  ", text)
    print(f"VIOLATION property={M.ID} replay={p}")
    return 1


if __name__ == "__main__":
    from vlib import core  # the classes of the module which the checks import
    core.main()
