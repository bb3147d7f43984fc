#!/usr/bin/env python3
"""The asynchronous application facade on a simulated event loop (property C18).

lmb/application.py runs unmodified.  Simulated: the event loop's clock and
waiting (virtual time), the worker pool (seeded start, duration, stall and
completion order), the clients (seeded calls, cancellations, timeouts) and the
tracker (a recorder whose results and errors are seeded).

    appsim.py explore --repo R --seed N --runs N --wall S --workers W --tier T --out PREFIX --minimise S
    appsim.py replay FILE --repo R
    appsim.py show --seed N --index I
"""
import asyncio
import concurrent.futures
import contextvars
import hashlib
import heapq
import importlib.util
import json
import logging
import os
import random
import signal
import sys
import time as realtime
import types
import warnings

sys.dont_write_bytecode = True
REAL = {n: getattr(realtime, n) for n in ("time", "monotonic", "perf_counter", "sleep")}
SLACK = 1.0            # virtual seconds a request may spend outside pool and worker
STUCK = 1000.0          # a call that practically never returns
MAX_ITER = 400000      # event loop iterations per run
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
sys.unraisablehook = lambda *a: None


class Violation(BaseException):
    def __init__(self, kind, msg):
        super().__init__(kind, msg)
        self.kind, self.msg = kind, msg


# ------------------------------------------------------------ simulated world
class World:
    """Virtual clock, pool and history of one run."""

    def __init__(self, spec):
        self.spec = spec
        self.rng = random.Random(spec["sched"])
        self.now = 0.0
        self.events = []        # (time, n, fn)
        self.n = 0
        self.in_worker = 0
        self.trace = hashlib.sha256()
        self.viol = None
        self.job = None
        self.stuck = None
        self.iterations = 0
        self.pools = []
        self.calls = []         # tracker invocations
        self.max_parallel = 0
        self.closed = False
        self.fired = {}

    def note(self, *a):
        self.trace.update(repr((round(self.now, 6),) + a).encode())

    def at(self, t, fn):
        self.n += 1
        heapq.heappush(self.events, (max(t, self.now), self.n, fn))

    def fault(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    def fail(self, kind, msg):
        if self.viol is None:
            self.viol = (kind, msg)
            self.note("violation", kind, msg)

    def run_due(self):
        while self.events and self.events[0][0] <= self.now + 1e-12:
            _, _, fn = heapq.heappop(self.events)
            fn()

    def wait(self, timeout):
        """The loop has nothing to do for timeout seconds (None: until an event)."""
        self.iterations += 1
        if self.iterations > MAX_ITER:
            self.fail("progress", "the event loop did not settle within %d iterations" % MAX_ITER)
            raise Violation(*self.viol)
        if timeout is not None and timeout <= 0:
            self.now += 1e-6
            self.run_due()
            return
        t = self.now + timeout if timeout is not None else None
        if self.events and (t is None or self.events[0][0] <= t):
            self.now = max(self.now, self.events[0][0])
            self.run_due()
            return
        if t is None:
            self.fail("progress", "nothing is under way although a request has not been answered")
            raise Violation(*self.viol)
        self.now = t


W = None     # current world
REQ = contextvars.ContextVar("request", default=None)


class SimFuture(concurrent.futures.Future):
    """Waiting for it on the event loop is a violation."""

    def _block(self):
        if W is not None and not W.closed and not W.in_worker and not self.done():
            W.fail("blocks", "the event loop waits for a worker")
            raise Violation(*W.viol)

    def result(self, timeout=None):
        self._block()
        return super().result(timeout)

    def exception(self, timeout=None):
        self._block()
        return super().exception(timeout)


class SimPool(concurrent.futures.ThreadPoolExecutor):
    """Simulated worker pool."""

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        self.size = max_workers or 8
        if self.size < 1:
            raise ValueError("max_workers must be greater than 0")
        self.queue, self.busy, self.down = [], 0, False
        self.jobs = []
        self._max_workers = self.size
        if W is not None:
            W.pools.append(self)

    def submit(self, fn, /, *args, **kw):
        if self.down:
            W.fault("pool_rejects")
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = SimFuture()
        j = {"fn": fn, "args": args, "kw": kw, "f": f, "at": W.now, "n": len(self.jobs), "req": REQ.get()}
        self.jobs.append(j)
        self.queue.append(j)
        W.note("submit", j["n"])
        W.at(W.now + W.rng.choice((0, 0, 0.001, 0.02)), self.pump)
        return f

    def pump(self):
        while self.queue and self.busy < self.size:
            j = self.queue.pop(0)
            if not j["f"].set_running_or_notify_cancel():
                W.note("dropped", j["n"])
                continue
            self.busy += 1
            W.max_parallel = max(W.max_parallel, self.busy)
            W.note("start", j["n"])
            j["begin"] = W.now
            # the call takes effect at its start, at its end, or in between
            d = duration(j)
            k = W.rng.choice((0.0, 0.5, 1.0))
            W.at(W.now + d * k, lambda j=j, d=d, k=k: self.execute(j, d * (1 - k)))

    def execute(self, j, rest):
        W.in_worker += 1
        W.job = j
        try:
            try:
                j["out"] = (True, j["fn"](*j["args"], **j["kw"]))
            except Violation:
                raise
            except BaseException as x:
                j["out"] = (False, x)
        finally:
            W.in_worker -= 1
            W.job = None
        W.at(W.now + rest, lambda: self.finish(j))

    def finish(self, j):
        self.busy -= 1
        j["end"] = W.now
        W.note("finish", j["n"])
        late = W.rng.random() < 0.2
        if late:
            W.fault("late_completion")
        W.at(W.now + (W.rng.choice((0.01, 0.2)) if late else 0), lambda: self.deliver(j))
        self.pump()

    def deliver(self, j):
        W.in_worker += 1
        try:
            ok, v = j.pop("out")
            j["delivered"] = W.now
            if ok:
                j["f"].set_result(v)
            else:
                j["f"].set_exception(v)
        except concurrent.futures.InvalidStateError:
            pass
        finally:
            W.in_worker -= 1

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.down = True

    def _adjust_thread_count(self):
        pass


def duration(j):
    if W.stuck is not None and j["req"] == W.stuck:
        W.fault("stuck_worker")
        return STUCK
    d = W.rng.choice((0.0, 0.001, 0.01, 0.1, 0.5))
    r = W.rng.random()
    if r < W.spec["slow"]:
        W.fault("slow_worker")
        d = W.rng.choice((5.0, 20.0))
    if r < W.spec["stall"]:
        W.fault("stalled_worker")
        d = 200.0
    return d


class Selector:
    def select(self, timeout=None):
        W.wait(timeout)
        return []

    def close(self):
        pass

    def get_map(self):
        return {}


class SimLoop(asyncio.BaseEventLoop):
    """The library's event loop with simulated waiting and time."""

    def __init__(self):
        super().__init__()
        self._selector = Selector()
        self._clock_resolution = 1e-9
        self.set_exception_handler(lambda loop, ctx: None)

    def time(self):
        return W.now

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        pass


def sim_sleep(s=0):
    if W is not None and not W.closed and not W.in_worker and s > 0:
        W.fail("blocks", "the event loop sleeps")
        raise Violation(*W.viol)


# ------------------------------------------------------------------- tracker
class Failure(Exception):
    pass


ERRORS = [Failure, ValueError, KeyError, MemoryError, RuntimeError, OSError, ZeroDivisionError, TimeoutError]


class Tracker:
    """Records every invocation; results and errors come from the request that made it."""

    def __init__(self, ident):
        self.ident = ident

    def _call(self, name, args, kw):
        c = {"tracker": self.ident, "name": name, "args": args, "kw": kw, "t": W.now, "job": W.job, "req": W.job["req"] if W.job else REQ.get()}
        c["n"] = len(W.calls)
        W.calls.append(c)
        W.note("call", self.ident, name, len(args))
        if not W.in_worker:
            W.fail("blocks", "%s ran on the event loop" % name)
        q = W.rng.random()
        if q < W.spec["errors"]:
            W.fault("tracker_error")
            c["x"] = W.rng.choice(ERRORS)("failure %d" % c["n"])
            raise c["x"]
        c["r"] = self._value(name, c)
        return c["r"]

    def _value(self, name, c):
        import numpy as np
        if name == "pos_phd":
            g = np.full((3, 2), float(c["n"] + 1))
            if W.rng.random() < W.spec["nan"]:
                W.fault("undefined_density")
                g[W.rng.randrange(3), W.rng.randrange(2)] = np.nan
            c["copy"] = g.copy()
            return g
        k = W.rng.randrange(8)
        return [None, 0, [], "", float("nan"), Token(c["n"]), [Token(c["n"])], Failure("a result %d" % c["n"])][k]

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return lambda *a, **k: self._call(name, a, k)

    # bound methods proper, as the real tracker has
    def predict(self, *a, **k):
        return self._call("predict", a, k)

    def correct(self, *a, **k):
        return self._call("correct", a, k)

    def get_targets(self, *a, **k):
        return self._call("get_targets", a, k)

    def enof_targets(self, *a, **k):
        return self._call("enof_targets", a, k)

    def nof_targets(self, *a, **k):
        return self._call("nof_targets", a, k)

    def pos_phd(self, *a, **k):
        return self._call("pos_phd", a, k)


class Token:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "token%d" % self.n


class Arg:
    """An argument that can be told from every other."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "arg%d" % self.n


# ------------------------------------------------------------ loading the code
class Anything(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


def load(repo):
    for n in ("matplotlib", "matplotlib.pyplot", "matplotlib.colors", "matplotlib.patches"):
        sys.modules[n] = Anything(n)
    sys.modules["matplotlib"].pyplot = sys.modules["matplotlib.pyplot"]
    sys.modules["matplotlib"].colors = sys.modules["matplotlib.colors"]
    pk = types.ModuleType("lmb")
    pk.__path__ = [os.path.join(repo, "lmb")]
    pk.Params = type("Params", (), {})
    for n in ("cf", "plot", "lmb"):
        m = Anything("lmb." + n)
        setattr(pk, n, m)
        sys.modules["lmb." + n] = m
    sys.modules["lmb.lmb"].Params = pk.Params
    for n in ("Tracker", "BBox", "AABBox", "PositionSensor", "GaussianReport", "CV", "NM"):
        setattr(pk, n, type(n, (), {}))
    sys.modules["lmb"] = pk
    concurrent.futures.ThreadPoolExecutor = SimPool
    concurrent.futures.thread.ThreadPoolExecutor = SimPool
    realtime.sleep = sim_sleep
    for n in ("time", "monotonic", "perf_counter"):
        setattr(realtime, n, lambda n=n: W.now if W is not None and not W.closed else REAL[n]())
    sp = importlib.util.spec_from_file_location("lmb.application", os.path.join(repo, "lmb", "application.py"))
    m = importlib.util.module_from_spec(sp)
    sys.modules["lmb.application"] = m
    pk.application = m
    sp.loader.exec_module(m)
    return m


# ------------------------------------------------------------------ workload
METHODS = ["predict", "correct", "get_targets", "enof_targets", "nof_targets", "sample_phd"]


def generate(seed, thorough=False):
    r = random.Random(seed)
    s = {"format": "app 1", "sched": r.getrandbits(48), "apps": r.choice((1, 1, 1, 2)), "own_loop": r.random() < 0.5, "pool": r.choice((0, 1, 2, 3, 8)),
         "slow": r.choice((0, 0, 0.1, 0.4)), "stall": r.choice((0, 0, 0, 0.1)), "errors": r.choice((0, 0.1, 0.5)), "nan": r.choice((0, 0.3)),
         "shutdown": 0, "clients": []}
    if r.random() < 0.05:
        s["shutdown"] = round(r.uniform(0.001, 2), 3)
    for _ in range(r.randint(1, 10 if thorough else 6)):
        c = []
        for _ in range(r.randint(1, 12 if thorough else 6)):
            m = r.choice(METHODS)
            q = {"m": m, "app": r.randrange(s["apps"]), "delay": r.choice((0, 0, 0, 0.001, 0.05, 1.0)), "n": r.randint(0, 2), "how": "await", "dt": 0}
            x = r.random()
            if x < 0.12:
                q["how"] = "cancel"
                q["dt"] = r.choice((0, 0.0005, 0.01, 0.3, 3.0))
            elif x < 0.22:
                q["how"] = "timeout"
                q["dt"] = r.choice((0.0005, 0.01, 0.3, 3.0))
            elif x < 0.40:
                q["how"] = "background"      # the client goes on and collects the answer at its end
            c.append(q)
        s["clients"].append(c)
    if r.random() < 0.15:                    # one call never returns: nobody else may wait for it
        s["stuck"] = [0, 0]
        s["pool"] = r.choice((0, 2, 3))
        s["slow"] = s["stall"] = 0
    return s


def arguments(q, new):
    m = q["m"]
    if m in ("predict", "correct"):
        return tuple(new() for _ in range(3))
    if m in ("enof_targets", "nof_targets"):
        return tuple(new() for _ in range(q["n"]))
    return ()


def run(module, spec):
    """One simulated run: (status, kind, message, hash, counters)."""
    global W
    import numpy as np
    W = World(spec)
    w = W
    cnt = {"requests": 0, "answered": 0, "failed": 0, "cancelled": 0, "timed_out": 0, "rejected": 0, "overlapping": 0}
    loop = SimLoop()
    asyncio.set_event_loop(loop)
    reqs = []
    nargs = [0]
    ticks = [0.0]
    open_now = [0]

    def new():
        nargs[0] += 1
        return Arg(nargs[0])

    apps = []
    try:
        shared = SimPool(spec["pool"]) if spec["pool"] else None
        for i in range(spec["apps"]):
            kw = {}
            if spec["own_loop"]:
                kw["loop"] = loop
            if shared is not None:
                kw["executor"] = shared
            a = module.Application(**kw)
            a.tracker = Tracker(i)
            a.region = Arg(-1 - i)
            a.phdsize = Arg(-11 - i)
            a.unknown = np.array([[0.25, 0.5], [1.0, 2.0], [4.0, 8.0]]) * (i + 1)
            apps.append(a)

        async def one(rec):
            q = rec["q"]
            rec["t0"] = w.now
            REQ.set(rec["i"])
            w.note("request", rec["i"], q["m"])
            open_now[0] += 1
            if open_now[0] > 1:
                cnt["overlapping"] = 1
            try:
                v = await getattr(apps[q["app"]], q["m"])(*rec["args"])
                rec["out"] = ("value", v)
            except asyncio.CancelledError:
                rec["out"] = ("cancelled", None)
                raise
            except Violation:
                raise
            except Exception as x:
                rec["out"] = ("error", x)
            finally:
                open_now[0] -= 1
                rec["t1"] = w.now
                w.note("answer", rec["i"], rec.get("out", ("none",))[0])

        async def client(k, todo):
            bg = []
            for j, q in enumerate(todo):
                if q["delay"]:
                    await asyncio.sleep(q["delay"])
                if spec.get("stuck") == [k, j]:
                    w.stuck = len(reqs)
                rec = {"i": len(reqs), "k": k, "q": q, "args": arguments(q, new), "cancel": None}
                reqs.append(rec)
                cnt["requests"] += 1
                if q["how"] == "await":
                    await one(rec)
                elif q["how"] == "background":
                    bg.append(loop.create_task(one(rec)))
                elif q["how"] == "cancel":
                    t = loop.create_task(one(rec))
                    await asyncio.sleep(q["dt"])
                    if not t.done():
                        w.fault("cancellation")
                        rec["cancel"] = w.now
                        t.cancel()
                    try:
                        await t
                    except asyncio.CancelledError:
                        pass
                    rec["t2"] = w.now
                else:
                    t0 = w.now
                    try:
                        await asyncio.wait_for(one(rec), q["dt"])
                    except asyncio.TimeoutError:
                        w.fault("timeout")
                        rec["cancel"] = t0 + q["dt"]
                    rec["t2"] = w.now
            for t in bg:
                await t

        async def main():
            ts = [loop.create_task(client(k, c)) for k, c in enumerate(spec["clients"])]
            for t in ts:
                await t

        if spec["shutdown"] and shared is not None:
            w.at(spec["shutdown"], shared.shutdown)
        try:
            loop.run_until_complete(main())
        except Violation:
            pass
        # let everything under way end
        if w.viol is None:
            while w.events:
                w.now = max(w.now, w.events[0][0])
                w.run_due()
        w.closed = True
        if w.viol is None:
            judge(w, spec, reqs, apps, cnt, np)
    except Violation:
        pass
    finally:
        w.closed = True
        for t in asyncio.all_tasks(loop):
            t._log_destroy_pending = False
        loop._ready.clear()
        loop._scheduled.clear()
        asyncio.set_event_loop(None)
        try:
            loop.close()
        except Exception:
            pass
    for r in reqs:
        o = r.get("out", ("none",))
        w.note(r["i"], o[0], type(o[1]).__name__ if len(o) > 1 else "")
    cnt["max_parallel"] = w.max_parallel
    cnt["simtime"] = w.now
    cnt["nontrivial"] = 1 if (cnt["overlapping"] and w.fired) else 0
    st = "violation" if w.viol else "ok"
    k, m = w.viol if w.viol else ("", "")
    return st, k, m, w.trace.hexdigest()[:24], cnt, w.fired


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


TARGET = {"sample_phd": "pos_phd"}


def judge(w, spec, reqs, apps, cnt, np):
    """Every request against what the tracker saw on its behalf."""
    by = {}
    for c in w.calls:
        if c["req"] is None:
            return w.fail("once", "the tracker was asked for %s by no request" % c["name"])
        by.setdefault(c["req"], []).append(c)
    for r in reqs:
        q, o = r["q"], r.get("out", ("none", None))
        L = "request %d (%s)" % (r["i"], q["m"])
        seen = by.get(r["i"], [])
        app = apps[q["app"]]
        if len(seen) > 1:
            return w.fail("once", "%s reached the tracker %d times" % (L, len(seen)))
        c = seen[0] if seen else None
        if c is not None:
            if c["name"] != TARGET.get(q["m"], q["m"]):
                return w.fail("faithful", "%s reached the tracker as %s" % (L, c["name"]))
            if c["tracker"] != q["app"]:
                return w.fail("faithful", "%s reached another application's tracker" % L)
            want = r["args"] if q["m"] != "sample_phd" else (app.region, app.phdsize)
            if not passed(q["m"], want, c):
                return w.fail("faithful", "%s reached the tracker with arguments %r %r instead of %r" % (L, c["args"], c["kw"], want))
            if "copy" in c and not np.array_equal(c["r"], c["copy"], equal_nan=True):
                return w.fail("faithful", "%s changed the tracker's own grid" % L)
        if r["cancel"] is not None:
            if r.get("t2", 1e18) - r["cancel"] > SLACK:
                return w.fail("progress", "%s was given up at %.3f but held its client until %.3f" % (L, r["cancel"], r.get("t2", -1)))
            if o[0] in ("cancelled", "none"):
                cnt["cancelled" if q["how"] == "cancel" else "timed_out"] += 1
                continue
        if o[0] == "none":
            return w.fail("progress", "%s was never answered" % L)
        if o[0] == "cancelled":
            return w.fail("faithful", "%s was cancelled although nobody asked for it" % L)
        if c is None:
            if o[0] == "error" and isinstance(o[1], RuntimeError) and any(p.down for p in w.pools):
                cnt["rejected"] += 1
                continue
            return w.fail("once", "%s never reached the tracker but was answered (%s)" % (L, describe(o)))
        if not matches(q, o, c, app, np):
            return w.fail("faithful", "%s was answered with %s, its call gave %s" % (L, describe(o), describe(("error", c["x"]) if "x" in c else ("value", c.get("r")))))
        cnt["answered" if o[0] == "value" else "failed"] += 1
        j = c["job"]
        if j is None:
            continue
        if j["at"] - r["t0"] > SLACK:
            return w.fail("progress", "%s was made at %.3f but handed to the workers only at %.3f" % (L, r["t0"], j["at"]))
        if "delivered" in j and r["t1"] - j["delivered"] > SLACK:
            return w.fail("progress", "%s was complete at %.3f but answered only at %.3f" % (L, j["delivered"], r["t1"]))
        if w.stuck is not None and r["k"] != 0 and r["t1"] > STUCK / 2:
            return w.fail("progress", "%s was answered only when a stuck request of another client ended" % L)


NAMES = {"predict": ("model", "time", "last_time"), "correct": ("sensor", "scan", "time")}




def passed(m, want, c):
    got, names = list(c["args"]), NAMES.get(m)
    if c["kw"]:
        if not names:
            return False
        d = dict(zip(names, got))
        if set(d) & set(c["kw"]):
            return False
        d.update(c["kw"])
        if set(d) != set(names):
            return False
        got = [d[n] for n in names]
    return len(got) == len(want) and all(x is y for x, y in zip(got, want))


def matches(q, o, c, app, np):
    if "x" in c:
        return o[0] == "error" and (o[1] is c["x"] or (type(o[1]) is type(c["x"]) and o[1].args == c["x"].args))
    if "r" not in c:
        return False
    if q["m"] != "sample_phd":
        return o[0] == "value" and o[1] is c["r"]
    if np.isnan(c["copy"]).any():
        return o[0] == "error"
    return o[0] == "value" and o[1] is not c["r"] and np.array_equal(np.asarray(o[1]), c["copy"] + app.unknown)


def describe(o):
    return "%s %s" % (o[0], type(o[1]).__name__ if o[0] == "error" else repr(o[1])[:60].replace("\n", " "))


# --------------------------------------------------------------------- engine
def run_seed(seed, i):
    z = (seed * 0x9E3779B97F4A7C15 + (i + 1) * 0xD1B54A32D192ED03) & (2 ** 64 - 1)
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & (2 ** 64 - 1)
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & (2 ** 64 - 1)
    return z ^ (z >> 31)


class Hang(BaseException):
    pass


def on_alarm(sig, frame):
    raise Hang()


def attempt(module, spec, limit=20):
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        return run(module, spec)
    except Hang:
        return ("violation", "progress", "the event loop is blocked for good", "hang", {"nontrivial": 1}, {})
    finally:
        signal.alarm(0)


def add(a, b):
    for k, v in b.items():
        a[k] = max(a.get(k, 0), v) if k == "max_parallel" else a.get(k, 0) + v


def worker(module, o, w, q):
    n = 0
    cnt, fired, states, nontriv = {}, {}, set(), set()
    out = {"viol": None, "internal": None, "rechecked": 0}
    batch = 16
    i = w * batch
    t0 = REAL["monotonic"]()
    while REAL["monotonic"]() - t0 < o.wall and not out["viol"] and not out["internal"]:
        for k in range(i, min(i + batch, o.runs)):
            s = generate(run_seed(o.seed, k), o.tier == "thorough")
            r = attempt(module, s)
            if r[0] != "ok" or k % 64 == 0:
                r2 = attempt(module, generate(run_seed(o.seed, k), o.tier == "thorough"))
                out["rechecked"] += 1
                if (r2[0], r2[1], r2[3]) != (r[0], r[1], r[3]):
                    out["internal"] = "run %d does not repeat: %r then %r" % (k, r[:4], r2[:4])
            n += 1
            add(cnt, r[4])
            add(fired, r[5])
            states.add(r[3])
            if r[4].get("nontrivial"):
                nontriv.add(r[3])
            if r[0] != "ok":
                out["viol"] = [k, r[1], r[2]]
                break
        i += batch * o.workers
        if i >= o.runs:
            break
    out.update(n=n, cnt=cnt, fired=fired, states=sorted(states), nontriv=sorted(nontriv))
    with open(q, "w") as f:
        json.dump(out, f)


def minimise(module, spec, kind, budget):
    end = REAL["monotonic"]() + budget

    def bad(s):
        if REAL["monotonic"]() > end:
            return False
        r = attempt(module, s, 5)
        return r[0] == "violation" and r[1] == kind
    best = spec
    changed = True
    while changed and REAL["monotonic"]() < end:
        changed = False
        tries = []
        for k in range(len(best["clients"])):
            tries.append(lambda s, k=k: s["clients"].pop(k))
        for k, c in enumerate(best["clients"]):
            for j in range(len(c)):
                tries.append(lambda s, k=k, j=j: s["clients"][k].pop(j))
        for f, v in (("errors", 0), ("nan", 0), ("slow", 0), ("stall", 0), ("shutdown", 0), ("apps", 1), ("own_loop", True), ("pool", 1), ("sched", 1), ("stuck", None)):
            if best.get(f) != v and best.get(f) is not None:
                tries.append(lambda s, f=f, v=v: s.update({f: v}))
        for k, c in enumerate(best["clients"]):
            for j, q in enumerate(c):
                for f, v in (("delay", 0), ("how", "await"), ("app", 0), ("n", 0)):
                    if q[f] != v:
                        tries.append(lambda s, k=k, j=j, f=f, v=v: s["clients"][k][j].update({f: v}))
        for t in tries:
            s = json.loads(json.dumps(best))
            try:
                t(s)
            except IndexError:
                continue
            if s["apps"] == 1:
                for c in s["clients"]:
                    for q in c:
                        q["app"] = 0
            if any(s["clients"]) and bad(s):
                best = s
                changed = True
    return best


def explore(o):
    module = load(o.repo)
    pids, files = [], []
    for w in range(o.workers):
        q = "%s.%d" % (o.out, w)
        files.append(q)
        p = os.fork()
        if p == 0:
            try:
                worker(module, o, w, q)
                os._exit(0)
            except BaseException:
                import traceback
                traceback.print_exc()
                os._exit(3)
        pids.append(p)
    bad = 0
    t0 = REAL["monotonic"]()
    for p in pids:
        _, st = os.waitpid(p, 0)
        bad += st != 0
    wall = REAL["monotonic"]() - t0
    if bad:
        print("worker failed", file=sys.stderr)
        return 3
    tot = {"runs": 0, "wall": wall, "rechecked": 0, "counters": {}, "faults": {}}
    st, nt, viols, internal = set(), set(), [], None
    for q in files:
        d = json.load(open(q))
        os.unlink(q)
        tot["runs"] += d["n"]
        tot["rechecked"] += d["rechecked"]
        add(tot["counters"], d["cnt"])
        add(tot["faults"], d["fired"])
        st.update(d["states"])
        nt.update(d["nontriv"])
        if d["viol"]:
            viols.append(d["viol"])
        internal = internal or d["internal"]
    tot.update(distinct=len(st), distinct_nontrivial=len(nt), internal=internal, violation="", simtime=tot["counters"].pop("simtime", 0))
    tot["samples"] = [describe_spec(generate(run_seed(o.seed, k), o.tier == "thorough"), k) for k in (0, 1, 2)]
    if viols:
        k, kind, msg = min(viols)
        s = minimise(module, generate(run_seed(o.seed, k), o.tier == "thorough"), kind, o.minimise)
        r = attempt(module, s)
        tot["violation"] = "%s: %s" % (r[1], r[2])
        with open(o.out + ".replay", "w") as f:
            f.write("# run %d of seed %d\n# %s\napp 1\n%s\n" % (k, o.seed, tot["violation"], json.dumps(s, indent=1)))
    with open(o.out + ".json", "w") as f:
        json.dump(tot, f)
    return 1 if viols else 0


def describe_spec(s, k):
    return "run %d: pool %s, %s" % (k, s["pool"] or "default", "; ".join(",".join(q["m"] + ("" if q["how"] == "await" else "/" + q["how"]) for q in c) for c in s["clients"]))[:600]


def main():
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument("mode")
    p.add_argument("file", nargs="?")
    p.add_argument("--repo", default="/repo")
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--index", type=int, default=0)
    p.add_argument("--runs", type=int, default=10 ** 9)
    p.add_argument("--wall", type=float, default=20)
    p.add_argument("--workers", type=int, default=8)
    p.add_argument("--tier", default="quick")
    p.add_argument("--out", default="/tmp/app")
    p.add_argument("--minimise", type=float, default=40)
    o = p.parse_args()
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    if o.mode == "explore":
        return explore(o)
    if o.mode == "show":
        print(json.dumps(generate(run_seed(o.seed, o.index), o.tier == "thorough"), indent=1))
        return 0
    text = [x for x in open(o.file).read().splitlines() if not x.startswith("#")]
    if not text or text[0] != "app 1":
        print("not a replay file", file=sys.stderr)
        return 2
    r = attempt(load(o.repo), json.loads("\n".join(text[1:])))
    if r[0] == "violation":
        print("%s: %s" % (r[1], r[2]))
        return 1
    print("no violation")
    return 0


if __name__ == "__main__":
    sys.exit(main())
