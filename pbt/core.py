"""Driver side: worker connections, test runner, replay files and evidence."""
import atexit
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import shutil
import socket
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("CLF_REPO", "/repo")
PYPY = "/opt/venv/bin/python"
SHARDS = int(os.environ.get("VERIF_SHARDS", "7"))


class HarnessError(Exception):
    """Something is wrong with the machinery (never reported as a violation)."""


class Violation(Exception):
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class Known(Exception):
    pass


# --------------------------------------------------------------------------
class Server(object):
    """The PyPy process that has imported the code under test."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="clfpbt-srv-")
        self.sock = os.path.join(self.dir, "s")
        env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONHOME")}
        py2 = "/opt/vp/py2"
        if REPO != "/repo":
            py2 = os.path.join(self.dir, "py2")
            os.mkdir(py2)
            src = open("/opt/vp/py2/py2compat.py").read()
            src = src.replace('REPO = "/repo"', 'REPO = %r' % REPO)
            src = src.replace('ROOT = "/repo/python"', 'ROOT = %r' % (REPO + "/python"))
            open(os.path.join(py2, "py2compat.py"), "w").write(src)
        env.update(PYTHONPATH=py2, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
                   LC_ALL="C.UTF-8", HOME="/root")
        self.log = open(os.path.join(self.dir, "log"), "wb")
        self.proc = subprocess.Popen([PYPY, os.path.join(HERE, "worker.py"), self.sock],
                                     stdin=subprocess.PIPE, stdout=self.log, stderr=self.log, env=env)
        atexit.register(self.close)
        self.pid = os.getpid()
        end = time.time() + 180
        while not os.path.exists(self.sock):
            if self.proc.poll() is not None or time.time() > end:
                raise HarnessError("worker did not start:\n" + self.tail())
            time.sleep(0.05)
        # bind happens before listen; connecting retries

    def tail(self):
        self.log.flush()
        return open(os.path.join(self.dir, "log"), errors="replace").read()[-3000:]

    def close(self):
        if os.getpid() != self.pid:
            return
        try:
            self.proc.stdin.close()
            self.proc.wait(5)
        except Exception:
            self.proc.kill()
        shutil.rmtree(self.dir, ignore_errors=True)


class Worker(object):
    """One forked interpreter."""

    def __init__(self, sockpath, keep=400):
        self.sockpath = sockpath
        self.keep = keep
        self.history = []
        self.conn = None
        self.open()

    def open(self):
        end = time.time() + 60
        while True:
            self.conn = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            try:
                self.conn.connect(self.sockpath)
                break
            except OSError:
                if time.time() > end:
                    raise HarnessError("cannot connect to worker")
                time.sleep(0.05)
        self.conn.settimeout(300)
        self.r = self.conn.makefile("r", encoding="utf-8")
        self.w = self.conn.makefile("w", encoding="utf-8")
        self.history = []

    def close(self):
        for f in (self.r, self.w, self.conn):
            try:
                f.close()
            except OSError:
                pass

    def restart(self):
        self.close()
        self.open()

    def run(self, script):
        line = json.dumps({"script": script})
        if self.keep:
            self.history.append(line)
            if len(self.history) > self.keep:
                del self.history[0]
        try:
            self.w.write(line + "\n")
            self.w.flush()
            reply = self.r.readline()
        except OSError as e:
            raise HarnessError("worker connection failed: %s" % e)
        if not reply:
            # the interpreter ended; a violation when it does so again on a fresh one
            self.restart()
            return [{"exc": "InterpreterDied", "msg": "", "where": "", "mro": []}] * len(script)
        reply = json.loads(reply)
        if reply["mb"] > 2000:
            # several interpreters must fit side by side
            self.restart()
        return reply["results"]


# --------------------------------------------------------------------------
class Test(object):
    """One generated-input test of a property.

    strategy: a Hypothesis strategy of JSON-serialisable cases (or a callable giving one).
    run(case, ctx): raises Violation; returns True when the case was non-trivial.
    quick/thorough: number of generated cases in that tier (over all shards).
    explicit: cases that are always run.
    tries: how often a failing case is repeated to confirm it (more than once where threads race; such a
        failure counts even when no repetition shows it again, as the comparison itself is exact).
    """

    def __init__(self, name, strategy, run, quick, thorough, explicit=(), tries=1):
        self.tries = tries
        self.name, self.strategy, self.run = name, strategy, run
        # VERIF_SCALE: a fraction of the cases, for trying out many changes of the code quickly
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        self.n = {"quick": max(1, int(quick * scale)), "thorough": max(1, int(thorough * scale))}
        self.explicit = list(explicit)


class Ctx(object):
    def __init__(self, worker, known):
        self.w = worker
        self.known = known
        self.labels = {}

    def run(self, script):
        return self.w.run(script)

    def ok(self, script):
        """Run a script in which every step must succeed; the list of values."""
        res = self.w.run(script)
        for step, r in zip(script, res):
            if "exc" in r:
                self.fail("operation %s failed: %s: %s (at %s)" % (
                    json.dumps(step)[:300], r["exc"], r["msg"], r["where"]))
        return [r["ok"] for r in res]

    def fail(self, msg, key=None):
        if key is not None and key in self.known:
            raise Known(key)
        raise Violation(msg, key)

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1


def understood(e):
    if isinstance(e, Violation):
        return e
    at = traceback.extract_tb(e.__traceback__)
    return Violation("output that cannot be interpreted: %s: %s (%s)" % (type(e).__name__, e, "; ".join(
        "%s:%d" % (os.path.basename(f.filename), f.lineno) for f in at[-3:])))


def known_findings(prop):
    """{key: text} for 'known:' lines of KNOWN_FINDINGS.txt of this property."""
    out = {}
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                out[key.replace("key=", "", 1)] = text
    return out


def load_check(prop):
    sys.path.insert(0, ROOT)
    sys.path.insert(0, HERE)
    return importlib.import_module("checks." + prop.lower())


def fingerprint(test, case):
    return hashlib.blake2b((test + json.dumps(case, sort_keys=True)).encode(), digest_size=8).hexdigest()


def sample_of(case):
    text = json.dumps(case)
    return case if len(text) < 1500 else {"abridged": text[:1500] + "..."}


def run_shard(prop, shard, nshards, tier, seed, sockpath, deadline, out):
    result = {"evaluations": 0, "nontrivial": [], "samples": [], "labels": {}, "known": {},
              "violation": None, "error": None, "skipped": 0, "per_test": {}}
    try:
        _run_shard(prop, shard, nshards, tier, seed, sockpath, deadline, result)
    except BaseException:
        result["error"] = traceback.format_exc()
    with open(out, "w") as f:
        json.dump(result, f)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def _run_shard(prop, shard, nshards, tier, seed, sockpath, deadline, result):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 40
    check = load_check(prop)
    ctx = Ctx(Worker(sockpath), known_findings(prop))
    seen = set()
    for test in check.tests(tier):
        state = {"fail": None, "n": 0, "hist": None}
        start = time.time()

        def one(case, test=test, state=state):
            if time.time() > deadline and state["fail"] is None:
                result["skipped"] += 1
                return
            result["evaluations"] += 1
            state["n"] += 1
            try:
                nontrivial = test.run(case, ctx)
            except Known as k:
                result["known"][str(k)] = result["known"].get(str(k), 0) + 1
                return
            except HarnessError:
                raise
            except Exception as v:
                # any other exception: the code gave something that the check cannot make sense of
                v = understood(v)
                if state["hist"] is None:
                    state["hist"] = list(ctx.w.history)
                    state["first"] = (case, str(v))
                state["fail"] = (case, str(v))
                raise v from None
            if nontrivial:
                fp = fingerprint(test.name, case)
                if fp not in seen:
                    seen.add(fp)
                    if len(result["samples"]) < 6 and (len(seen) in (1, 7, 60) or state["n"] < 3):
                        result["samples"].append({"test": test.name, "case": sample_of(case)})

        try:
            if shard == 0:
                for case in test.explicit:
                    one(json.loads(json.dumps(case)))
            n = test.n[tier]
            n = n // nshards + (1 if shard < n % nshards else 0)
            if n:
                strat = test.strategy() if callable(test.strategy) else test.strategy
                digest = hashlib.sha256(("%d/%s/%s/%d" % (seed, prop, test.name, shard)).encode()).digest()
                fn = given(strat)(lambda case: one(case))
                fn = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                              suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                              phases=[Phase.generate] + ([] if os.environ.get("VERIF_NOSHRINK") else [Phase.shrink]))(fn)
                fn = hypothesis.seed(int.from_bytes(digest[:8], "big"))(fn)
                fn()
        except HarnessError:
            raise
        except BaseException:
            if state["fail"] is None:
                raise
        result["per_test"][test.name] = {"cases": state["n"], "s": round(time.time() - start, 1)}
        if state["fail"]:
            result["violation"] = confirm(check, test, state, ctx)
            break
    result["nontrivial"] = sorted(seen)
    result["labels"] = ctx.labels


def confirm(check, test, state, ctx):
    """Re-run the failing case on fresh interpreters."""
    for case, msg in [state["fail"], state["first"]] * test.tries:
        ctx.w.restart()
        try:
            test.run(json.loads(json.dumps(case)), ctx)
        except (HarnessError, Known) as e:
            if isinstance(e, HarnessError):
                raise
        except Exception as v:
            return {"test": test.name, "case": case, "message": str(understood(v)), "history": None}
    if test.tries > 1:
        return {"test": test.name, "case": case, "message": msg, "history": None}
    # Only fails after earlier requests of the same interpreter: find a short history.
    hist = state["hist"][:-1]
    case, msg = state["first"]

    def fails(h):
        ctx.w.restart()
        for line in h:
            ctx.w.run(json.loads(line)["script"])
        try:
            test.run(json.loads(json.dumps(case)), ctx)
        except HarnessError:
            raise
        except Known:
            return False
        except Exception:
            return True
        return False
    end = time.time() + 60
    # the failing case's own requests are at the end of the history; dropping them is harmless
    if not fails(hist):
        return {"test": test.name, "case": case, "message": msg, "unconfirmed": True, "history": None}
    step = max(1, len(hist) // 2)
    while step and time.time() < end:
        i = 0
        while i < len(hist) and time.time() < end:
            cand = hist[:i] + hist[i + step:]
            if fails(cand):
                hist = cand
            else:
                i += step
        step //= 2
    return {"test": test.name, "case": case, "message": msg,
            "history": [json.loads(h)["script"] for h in hist]}


def main_check(prop, tier, seed):
    t0 = time.time()
    check = load_check(prop)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evpath = os.path.join(ROOT, "evidence", prop + ".json")
    if os.path.exists(evpath):
        os.remove(evpath)
    server = Server()
    limit = float(os.environ.get("VERIF_LIMIT", "300" if tier == "quick" else "5400"))
    deadline = time.time() + limit
    tmp = tempfile.mkdtemp(prefix="clfpbt-out-")
    try:
        procs = []
        for i in range(SHARDS):
            out = os.path.join(tmp, "%d.json" % i)
            p = multiprocessing.get_context("fork").Process(
                target=run_shard, args=(prop, i, SHARDS, tier, seed, server.sock, deadline, out))
            p.start()
            procs.append((p, out))
        results = []
        for p, out in procs:
            p.join()
            if not os.path.exists(out):
                raise HarnessError("shard ended without a result (exit %s)" % p.exitcode)
            results.append(json.load(open(out)))
    finally:
        tail = server.tail()
        server.close()
        shutil.rmtree(tmp, ignore_errors=True)

    errors = [r["error"] for r in results if r["error"]]
    viols = [r["violation"] for r in results if r["violation"]]
    unconf = [v for v in viols if v.get("unconfirmed")]
    viols = [v for v in viols if not v.get("unconfirmed")]
    nontrivial = set()
    labels, known, per_test = {}, {}, {}
    for r in results:
        nontrivial.update(r["nontrivial"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
        for k, v in r["per_test"].items():
            d = per_test.setdefault(k, {"cases": 0, "max_shard_s": 0})
            d["cases"] += v["cases"]
            d["max_shard_s"] = max(d["max_shard_s"], v["s"])
    samples = [s for r in results for s in r["samples"]][:12]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(nontrivial),
            "rule": check.RULE,
            "samples": samples,
            "per_test": per_test,
            "classes": labels,
            "skipped_after_time_limit": sum(r["skipped"] for r in results),
            "shards": SHARDS,
        },
        "assumptions": check.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    if known:
        evidence["coverage"]["known_findings_hit"] = known
    with open(evpath, "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for key, text in known_findings(prop).items():
        print("KNOWN-FINDING: property=%s %s %s" % (prop, key, text))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (
        prop, tier, seed, evidence["coverage"]["evaluations"], len(nontrivial), evidence["wall_s"]))
    if viols:
        v = min(viols, key=lambda v: (v["history"] is not None, len(json.dumps(v["case"]))))
        rdir = os.path.join(ROOT, "replays")
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, "%s-%s.json" % (prop, fingerprint(v["test"], v["case"])))
        with open(rpath, "w") as f:
            json.dump(dict(v, property=prop, seed=seed), f, indent=1)
            f.write("\n")
        print("test: %s" % v["test"])
        print("case: %s" % json.dumps(v["case"])[:3000])
        print("why : %s" % v["message"])
        print("VIOLATION property=%s replay=%s" % (prop, rpath))
        return 1
    if errors:
        print("ERROR in the checking machinery:\n%s\n%s" % (errors[0], tail), file=sys.stderr)
        return 2
    if unconf:
        print("ERROR: a failure did not repeat: %s" % json.dumps(unconf[0])[:3000], file=sys.stderr)
        return 2
    return 0


def main_replay(path):
    v = json.load(open(path))
    check = load_check(v["property"])
    server = Server()
    try:
        ctx = Ctx(Worker(server.sock), known_findings(v["property"]))
        for script in v.get("history") or []:
            ctx.run(script)
        for t in check.tests("quick") + check.tests("thorough"):
            if t.name == v["test"]:
                try:
                    for _ in range(t.tries):
                        t.run(v["case"], ctx)
                except HarnessError:
                    raise
                except Known as k:
                    print("KNOWN-FINDING: property=%s %s" % (v["property"], k))
                    return 0
                except Exception as e:
                    print("why : %s" % understood(e))
                    print("VIOLATION property=%s replay=%s" % (v["property"], path))
                    return 1
                print("%s: the recorded case passes" % v["property"])
                return 0
        print("no test named %s" % v["test"], file=sys.stderr)
        return 2
    finally:
        server.close()
