"""Bounded exhaustive exploration engine shared by every check.

A check hands the engine a list of *shards* (each a finite, completely
enumerated part of its state space) and a function that explores one shard on
the real openformats code.  Shards run in forked workers.  Everything that is
counted is counted here, from what was really executed:

* ``states``       distinct canonical states / documents / histories reached
* ``transitions``  operations of the implementation executed
* ``traces``       complete executions compared with the reference model
* ``outcomes``     distinct observed results (guards against vacuity)

Exit status: 0, or 1 with a ``VIOLATION property=<id> replay=<path>`` line.
"""
from __future__ import print_function

import gc
import hashlib
import json
import os
import pickle
import resource
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
MAX_VIOLATIONS = 4           # per worker and kind; exploration goes on
HANG_SECONDS = 60


class Hang(BaseException):
    pass


class Violation(Exception):
    """Raised inside a case: the implementation disagrees with the model."""

    def __init__(self, what, **detail):
        Exception.__init__(self, what)
        self.what = what
        self.detail = detail


def h64(obj):
    if not isinstance(obj, bytes):
        obj = repr(obj).encode("utf-8", "surrogatepass")
    return struct.unpack("<q", hashlib.blake2b(obj, digest_size=8).digest())[0]


def jsonable(obj, depth=0):
    if isinstance(obj, (str, int, float, bool)) or obj is None:
        if isinstance(obj, str):
            try:
                return obj.encode("utf-8", "backslashreplace").decode("utf-8")
            except UnicodeError:
                return ascii(obj)[1:-1]
        return obj
    if isinstance(obj, bytes):
        return {"bytes": repr(obj)}
    if isinstance(obj, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in obj.items()}
    if isinstance(obj, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in obj]
    return repr(obj)


class Ctx(object):
    """Collects what one worker did."""

    def __init__(self, tier):
        self.tier = tier
        self.thorough = tier == "thorough"
        self.states = set()
        self.outcomes = set()
        self.nstates = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.nviol = 0
        self.kinds = {}
        self.named = set()
        self.beat = 0
        self.scopes = {}
        self.shard = None
        self.memory = MEMORY

    # -- what cases call ------------------------------------------------
    def state(self, obj):
        k = h64(obj)
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def distinct(self, n=1):
        """States that the enumeration makes distinct by construction."""
        self.nstates += n

    def step(self, n=1):
        self.transitions += n

    def outcome(self, obj):
        if len(self.outcomes) < 400000:
            self.outcomes.add(h64(obj))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(jsonable(obj))

    def scope(self, name, n=1):
        self.scopes[name] = self.scopes.get(name, 0) + n

    def violate(self, what, replay, signature=None):
        self.nviol += 1
        if signature is not None:
            # violations of named probes never crowd out the others
            if signature in self.named:
                return
            self.named.add(signature)
            self.violations.append(
                {"what": what, "signature": signature,
                 "replay": jsonable(replay)})
            return
        self.kinds[what] = self.kinds.get(what, 0) + 1
        if self.kinds[what] <= MAX_VIOLATIONS and len(self.kinds) <= 40:
            self.violations.append(
                {"what": what, "signature": signature,
                 "replay": jsonable(replay)}
            )

    def case(self, fn, *args, **kw):
        """Run one complete trace; any disagreement or exception is recorded.

        ``signature`` identifies the failing input for the known findings
        file."""
        replay = kw.pop("replay", None)
        signature = kw.pop("signature", None)
        self.beat += 1
        self.traces += 1
        if not self.traces % 512:
            _collect(self)
        try:
            return fn(*args, **kw)
        except Violation as e:
            self.violate(
                e.what,
                {"case": replay if replay is not None else args,
                 "detail": e.detail},
                signature and "%s: %s" % (signature, e.what),
            )
        except Hang:
            self.violate("did not terminate",
                         {"case": replay if replay is not None else args},
                         signature)
        except RecursionError:
            self.violate("recursion error",
                         {"case": replay if replay is not None else args},
                         signature)
        except Exception as e:
            self.violate(
                "unexpected exception",
                {"case": replay if replay is not None else args,
                 "traceback": traceback.format_exc(limit=-6)},
                signature and "%s: %s" % (signature, type(e).__name__),
            )
        return None


def expect(got, want, what, **detail):
    if got != want:
        raise Violation(what, got=got, want=want, **detail)


def _watch(ctx):
    last = [ctx.beat, time.time()]

    def on_alarm(signum, frame):
        if ctx.beat != last[0]:
            last[0], last[1] = ctx.beat, time.time()
        elif time.time() - last[1] > HANG_SECONDS:
            last[1] = time.time()
            raise Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, 5, 5)


def _worker(shards, fn, tier, wfd):
    ctx = Ctx(tier)
    scratch = tempfile.mkdtemp(prefix="vp_worker_")
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    _watch(ctx)
    # the code under test may print
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.close(null)
    try:
        for shard in shards:
            ctx.shard = shard
            try:
                fn(ctx, shard)
            except Hang:
                ctx.violate("shard did not terminate", {"shard": shard})
            except Exception:
                ctx.violate("shard failed",
                            {"shard": shard,
                             "traceback": traceback.format_exc(limit=-8)})
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        shutil.rmtree(scratch, ignore_errors=True)
    data = pickle.dumps({
        "states": ctx.states, "outcomes": ctx.outcomes,
        "nstates": ctx.nstates,
        "transitions": ctx.transitions, "traces": ctx.traces,
        "samples": ctx.samples, "violations": ctx.violations,
        "nviol": ctx.nviol, "scopes": ctx.scopes,
    }, 2)
    with os.fdopen(wfd, "wb") as f:
        f.write(data)


MEMORY = 700 << 20      # what a worker may hold before garbage is collected


def _collect(ctx):
    """PyPy does not count memory that C code holds for its objects."""
    try:
        with open("/proc/self/statm") as f:
            rss = int(f.read().split()[1]) * resource.getpagesize()
    except (IOError, ValueError):
        return
    if rss > ctx.memory:
        gc.collect()
        with open("/proc/self/statm") as f:
            rss = int(f.read().split()[1]) * resource.getpagesize()
        ctx.memory = max(MEMORY, rss + (MEMORY >> 1))


def explore(fn, shards, tier, jobs=None, again=True):
    """The shards that a worker took which was ended from outside, because
    memory ran out, are explored again by a single one."""
    shards = list(shards)
    jobs = jobs or int(os.environ.get("VP_JOBS", "0")) or min(8, os.cpu_count() or 1)
    jobs = max(1, min(jobs, len(shards)))
    merged = Ctx(tier)
    # work stealing through a shared pipe of shard indices
    rq, wq = os.pipe()
    payload = b"".join(struct.pack("<I", i) for i in range(len(shards)))
    feeder = os.fork()
    if feeder == 0:
        try:
            os.close(rq)
            with os.fdopen(wq, "wb", 0) as f:
                f.write(payload)
        except BaseException:
            pass
        os._exit(0)
    os.close(wq)

    def pull(log):
        while True:
            raw = os.read(rq, 4)
            if len(raw) < 4:
                return
            os.write(log, raw)
            yield shards[struct.unpack("<I", raw)[0]]

    procs = []
    for _ in range(jobs):
        r, w = os.pipe()
        log = tempfile.TemporaryFile()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                _worker(pull(log.fileno()), fn, tier, w)
            except BaseException:
                traceback.print_exc()
                code = 3
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
        os.close(w)
        procs.append((pid, r, log))
    os.close(rq)
    lost, parts = [], []
    for pid, r, log in procs:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if not data:
            log.seek(0)
            raw = log.read()
            took = [shards[i] for i, in struct.iter_unpack("<I", raw)]
            if again and os.WIFSIGNALED(status) and (
                    os.WTERMSIG(status) == signal.SIGKILL):
                lost += took
            else:
                merged.violate("worker died",
                               {"status": status, "shards": took[-1:]})
            continue
        parts.append(pickle.loads(data))
    os.waitpid(feeder, 0)
    if lost:
        more = explore(fn, lost, tier, 1, False)
        parts.append(vars(more))
    for part in parts:
        merged.states |= part["states"]
        merged.outcomes |= part["outcomes"]
        merged.nstates += part["nstates"]
        merged.transitions += part["transitions"]
        merged.traces += part["traces"]
        merged.samples += part["samples"]
        merged.violations += part["violations"]
        merged.nviol += part["nviol"]
        for k, v in part["scopes"].items():
            merged.scopes[k] = merged.scopes.get(k, 0) + v
    return merged


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            return json.load(f).get("findings", [])
    except IOError:
        return []


def finish(pid, tier, seed, merged, bounds, t0, assumptions=(),
           level="model_checking"):
    known = {}
    for item in load_known():
        if item.get("property") == pid and item.get("status") == "known":
            for sig in item["signatures"]:
                known[sig] = item
    rp = os.path.join(VERIF, "replays", pid + ".json")
    if os.path.exists(rp):
        os.remove(rp)
    reported, new = {}, []
    for v in merged.violations:
        if v["signature"] is not None and v["signature"] in known:
            reported[known[v["signature"]]["id"]] = known[v["signature"]]
        else:
            new.append(v)
    for fid in sorted(reported):
        print("KNOWN-FINDING: property=%s %s" % (pid, reported[fid]["what_fails"]))
    coverage = {
        "states": len(merged.states) + merged.nstates,
        "transitions": merged.transitions,
        "traces_validated_against_impl": merged.traces,
        "distinct_outcomes": len(merged.outcomes),
        "samples": merged.samples[:6],
        "scopes": merged.scopes,
        "bounds": bounds,
        "exhaustive": True,
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": coverage, "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    evdir = os.path.join(VERIF, "evidence")
    if not os.path.isdir(evdir):
        os.makedirs(evdir)
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    print("property=%s tier=%s states=%d transitions=%d traces=%d outcomes=%d "
          "violations=%d wall=%.1fs" % (
              pid, tier, len(merged.states) + merged.nstates, merged.transitions,
              merged.traces, len(merged.outcomes), len(new),
              time.time() - t0))
    if new:
        rdir = os.path.join(VERIF, "replays")
        if not os.path.isdir(rdir):
            os.makedirs(rdir)
        new.sort(key=lambda v: len(json.dumps(v)))
        path = os.path.join(rdir, "%s.json" % pid)
        with open(path, "w") as f:
            json.dump({"property": pid, "total": merged.nviol,
                       "violations": new}, f, indent=1)
        print("first: %s" % json.dumps(new[0])[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.stdout.flush()
        return 1
    if not merged.traces or not (merged.states or merged.nstates):
        # an exploration that visited nothing decides nothing
        print("VIOLATION property=%s replay=%s" % (pid, "vacuous-exploration"))
        return 1
    return 0
