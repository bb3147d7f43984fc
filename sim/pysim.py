#!/usr/bin/env python3
"""The Python module on a simulated interpreter lock (property C19).

The repository's extension modules run unmodified in one shared object
(sim/pymod.cpp) that decides, from a seed, which of the concurrent Python
threads goes on at every lock, unlock, release and acquisition of the
interpreter lock and allocation.  What a Python call returns is compared with
the C++ tracker driven directly.

    pysim.py explore --so FILE --seed N --wall S --workers W --tier T --out PREFIX --minimise S
    pysim.py replay FILE --so FILE
    pysim.py show --seed N --index I
"""
import copy
import ctypes
import gc
import hashlib
import importlib.machinery
import importlib.util
import json
import math
import os
import pickle
import random
import resource
import select
import signal
import sys
import threading
import time as realtime
import warnings
import numpy as np

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
CPU = 20               # seconds of processor time for one run
D = ctypes.POINTER(ctypes.c_double)
PNAMES = ("w_lim", "r_lim", "nhyp_max", "rB_max", "nstd", "cw_lim", "cov_lim", "tscale")
REFUSED = (TypeError, ValueError, RuntimeError)


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__(kind, msg)
        self.kind, self.msg = kind, msg


class Mod:
    def __init__(self, so):
        def ld(n):
            loader = importlib.machinery.ExtensionFileLoader(n, so)
            spec = importlib.util.spec_from_loader(n, loader)
            m = importlib.util.module_from_spec(spec)
            loader.exec_module(m)
            sys.modules[n] = m      # pickles look classes up by module
            return m
        self.lmb, self.cf = ld("lmb"), ld("cf")
        c = self.c = ctypes.CDLL(so)
        self.ref_of = ctypes.PyDLL(so).ref_of
        self.ref_of.restype, self.ref_of.argtypes = ctypes.c_void_p, [ctypes.py_object]
        V, I, F = ctypes.c_void_p, ctypes.c_int, ctypes.c_double
        for n, r, a in (("ref_new", V, [D]), ("ref_free", None, [V]), ("ref_set", None, [V, I, F]), ("ref_predict", None, [V, I, F, D, F, F]),
                        ("ref_correct", None, [V, D, I, D, F, D]), ("ref_count", F, [V, I, D, F]), ("ref_get", I, [V, D, D, I]), ("ref_phd", None, [V, D, I, I, D]),
                        ("ref_metric", F, [V, I, I, D, F, F]), ("ref_clusters", I, [V, ctypes.POINTER(I), I]),
                        ("sim_begin", None, [I, ctypes.POINTER(I), ctypes.c_uint64, I, ctypes.c_uint64]), ("sim_fd", None, [I]), ("sim_enter", None, [I]),
                        ("sim_yield", None, []), ("sim_exit", None, []), ("sim_run", None, []), ("sim_stats", None, [ctypes.POINTER(ctypes.c_uint64)])):
            f = getattr(c, n)
            f.restype, f.argtypes = r, a


def dbl(v):
    v = [float(x) for x in v]
    return (ctypes.c_double * max(1, len(v)))(*v)


# ------------------------------------------------------------------ generator
def generate(seed, thorough):
    r = random.Random(seed)
    s = {"sched": r.getrandbits(60), "psw": r.choice([200, 2000, 10000, 30000, 60000]), "budget": r.choice([10, 100, 10 ** 9, 10 ** 9, 10 ** 9])}
    s["origin"] = list(r.choice([(58.4, 15.6), (0.3, -120.0), (-33.9, 151.2), (10.0, 0.1), (67.0, -20.0)]))
    s["params"] = dict(w_lim=r.choice([0.01, 0.001]), r_lim=r.choice([0.01, 0.05, 0.1]), nhyp_max=r.choice([10, 50, 100]), rB_max=r.choice([0.5, 0.8, 0.95]),
                       nstd=r.choice([1.5, 1.9, 3.0]), cw_lim=0.01, cov_lim=r.choice([150, 1e4]), tscale=r.choice([1, 1, 2.5]))
    s["trackers"] = r.choice([1, 1, 2])
    w = World(r, s)
    s["pre"] = w.steps(r.randint(1, 4))
    s["burst"] = []
    if r.random() < 0.8:
        for _ in range(r.randint(2, 4)):
            ops = []
            for _ in range(r.randint(1, 4)):
                x = r.random()
                ops.append(w.predict() if x < 0.15 else w.correct() if x < 0.35 else w.bad() if x < 0.4 else w.query())
            s["burst"].append(ops)
    s["post"] = w.steps(r.randint(0, 2 if not thorough else 6))
    s["faults"] = w.faults
    s["time"] = w.time
    return s


class World:
    def __init__(self, r, s):
        self.r, self.s = r, s
        self.obj = [[r.uniform(-200, 200), r.uniform(-200, 200), r.uniform(-3, 3), r.uniform(-3, 3)] for _ in range(r.randint(1, 6))]
        self.time, self.last = 0.0, 0.0
        self.faults = dict(report_lost=0, report_duplicated=0, false_report=0, invalid_argument=0, damaged_state=0, stale_report=0)
        self.sigma = r.choice([0.7, 1.5, 3.0])
        self.pd = r.uniform(0.7, 0.99)

    def ll(self, n, e):
        a, b = self.s["origin"]
        return [a + n / 111200.0, b + e / (111320.0 * math.cos(math.radians(a)))]

    def tr(self):
        return self.r.randrange(self.s["trackers"])

    def box(self):
        r = self.r
        if r.random() < 0.2:
            a, b = self.ll(-3000, -3000), self.ll(3000, 3000)
        else:
            n, e = r.uniform(-250, 250), r.uniform(-250, 250)
            if self.obj and r.random() < 0.6:
                n, e = [v + r.gauss(0, 5) for v in r.choice(self.obj)[:2]]
            h, k = r.choice([5, 50, 150, 400]), r.choice([5, 50, 150, 400])
            a, b = self.ll(n - h, e - k), self.ll(n + h, e + k)
        return a + b if r.random() < 0.7 else b + a

    def via(self):
        return self.r.choice(["", "", "", "pickle", "copy"])

    def predict(self):
        r = self.r
        dt = r.choice([0.0, 0.5, 1.0, 3.0])
        for o in self.obj:
            o[0] += o[2] * dt
            o[1] += o[3] * dt
        self.last, self.time = self.time, self.time + dt
        nm = r.random() < 0.3
        q = [r.uniform(0.01, 0.5)] + [0] * 15
        if nm:
            q = [0.0] * 16
            for i in range(4):
                q[i * 5] = r.uniform(0.1, 2)
            q[1] = q[4] = r.uniform(-0.1, 0.1)
            q[2] = q[8] = r.uniform(-0.1, 0.1)
        return dict(k="predict", t=self.tr(), nm=nm, pS=r.uniform(0.9, 1), q=q, time=self.time, last=self.last, form=r.randrange(3), y=r.random() < 0.5)

    def correct(self):
        r = self.r
        scan = []

        def rep(n, e):
            s2 = self.sigma ** 2
            a, b, c = s2 * r.uniform(0.5, 2), s2 * r.uniform(0.5, 2), 0.0
            c = r.uniform(-0.6, 0.6) * math.sqrt(a * b)
            return self.ll(n, e) + [a, c, c, b]
        for o in self.obj:
            if r.random() > self.pd:
                self.faults["report_lost"] += 1
                continue
            scan.append(rep(o[0] + r.gauss(0, self.sigma), o[1] + r.gauss(0, self.sigma)))
            if r.random() < 0.1:
                self.faults["report_duplicated"] += 1
                scan.append(rep(o[0] + r.gauss(0, self.sigma), o[1] + r.gauss(0, self.sigma)))
            if r.random() < 0.05:
                self.faults["stale_report"] += 1
                scan.append(rep(o[0] - 3 * o[2], o[1] - 3 * o[3]))
        while r.random() < 0.25:
            self.faults["false_report"] += 1
            scan.append(rep(r.uniform(-300, 300), r.uniform(-300, 300)))
        r.shuffle(scan)
        a, b = self.ll(-5000, -5000), self.ll(5000, 5000)
        pv = r.uniform(1, 9)
        x = r.uniform(-0.3, 0.3)
        sensor = dict(fov=[b[0], b[0], a[0], a[0], b[1], a[1], a[1], b[1]], pv=[pv, x, x, pv * r.uniform(0.5, 2)], lambdaB=r.choice([0.3, 1.0, 2.0]), pD=r.choice([0.6, 0.9, 0.97]),
                      kappa=r.choice([1.0, 0.1, 0.01, 1e-4]))
        return dict(k="correct", t=self.tr(), sensor=sensor, scan=scan, time=self.time, form=r.randrange(2), via=self.via(), y=r.random() < 0.5)

    def query(self):
        r = self.r
        k = r.choice(["enof", "nof", "get", "get", "phd", "ospa", "gospa", "stats"])
        o = dict(k=k, t=self.tr(), y=r.random() < 0.5)
        if k in ("enof", "nof", "get"):
            o["box"] = self.box() if r.random() < 0.6 else None
            o["via"] = self.via()
        if k == "nof":
            o["lim"] = r.choice([None, 0.1, 0.3, 0.5, 0.9])
            o["kw"] = r.random() < 0.5
        if k == "get":
            o["life"] = r.random() < 0.3
        if k == "phd":
            o["box"] = self.box()
            o["size"] = [r.randint(1, 6), r.randint(1, 6)]
            o["form"] = r.randrange(3)
        if k in ("ospa", "gospa"):
            o["truth"] = [self.ll(b[0], b[1]) + [b[2], b[3]] for b in self.obj if r.random() < 0.8]
            o["c"], o["p"] = r.choice([5.0, 20.0, 100.0]), r.choice([1.0, 2.0, 3.0])
            o["form"] = r.randrange(2)
        return o

    def bad(self):
        r = self.r
        if r.random() < 0.6:
            self.faults["invalid_argument"] += 1
            return dict(k="bad", t=self.tr(), n=r.randrange(len(BAD)), y=False)
        self.faults["damaged_state"] += 1
        return dict(k="damage", t=self.tr(), what=r.randrange(4), how=r.randrange(5), at=r.randrange(8), y=False)

    def pure(self):
        r = self.r
        k = r.choice(["objects", "objects", "frames", "params"])
        if k == "params":
            return dict(k=k, t=self.tr(), i=r.randrange(8), f=r.choice([0.8, 1.25]), y=False)
        if k == "frames" and r.random() < 0.7:      # anywhere on the globe, at any height
            lat = lambda: r.choice([r.uniform(-89.9, 89.9), r.uniform(-89.9, 89.9), r.uniform(-1e-3, 1e-3), r.choice([-1, 1]) * r.uniform(56, 58)])     # noqa
            lon = lambda: r.choice([r.uniform(-180, 180), r.uniform(-180, 180), r.uniform(-1e-3, 1e-3), r.choice([-1, 1]) * (180 - r.uniform(0, 1e-3))])     # noqa
            return dict(k=k, t=0, v=[], org=[lat(), lon()], at=[lat(), lon()], alt=[r.choice([0, r.uniform(-1e3, 1e4), r.uniform(0, 5e5)]) for _ in range(2)], ne=[r.uniform(-1e3, 1e3) for _ in range(2)], y=False)
        return dict(k=k, t=self.tr(), v=[r.uniform(-1, 1) for _ in range(16)], at=self.ll(r.uniform(-300, 300), r.uniform(-300, 300)), y=False)

    def steps(self, n):
        r, out = self.r, []
        for _ in range(n):
            if r.random() < 0.8:
                out.append(self.predict())
                out += [dict(copy.deepcopy(out[-1]), t=i) for i in range(self.s["trackers"]) if i != out[-1]["t"]]
            c = self.correct()
            out.append(c)
            if r.random() < 0.7:
                out += [dict(copy.deepcopy(c), t=i) for i in range(self.s["trackers"]) if i != c["t"]]
            for _ in range(r.randint(0, 3)):
                x = r.random()
                out.append(self.query() if x < 0.7 else self.bad() if x < 0.85 else self.pure())
        return out


# ------------------------------------------------------------ Python execution
def send(x, via):
    return pickle.loads(pickle.dumps(x)) if via == "pickle" else copy.deepcopy(x) if via == "copy" else x


BAD = [
    lambda m, t: t.predict(None, 1.0, 0.0), lambda m, t: t.predict(m.CV(), "a", 0.0), lambda m, t: t.predict(m.CV(), 1.0),
    lambda m, t: t.correct(m.PositionSensor(), [1, 2], 0.0), lambda m, t: t.correct(m.PositionSensor(), None, 0.0), lambda m, t: t.correct(None, [], 0.0),
    lambda m, t: t.enof_targets(5), lambda m, t: t.nof_targets("x"), lambda m, t: t.get_targets(m.AABBox(0, 0, 1, 1), 3), lambda m, t: t.pos_phd(m.AABBox(0, 0, 1, 1), [1]),
    lambda m, t: t.ospa([[1, 2]], 1.0, 1.0), lambda m, t: t.gospa([[1, 2, 3, 4]], "c", 1.0), lambda m, t: m.GaussianReport(np.zeros(3), np.eye(2)),
    lambda m, t: m.GaussianReport(np.zeros(2), np.eye(3)), lambda m, t: m.Tracker(3), lambda m, t: m.AABBox(1, 2, 3), lambda m, t: m.BBox(np.zeros((2, 3))),
    lambda m, t: setattr(t.params, "r_lim", "x"), lambda m, t: t.predict(m.NM(), None, 0.0), lambda m, t: m.NM(1.0, np.zeros((3, 3))),
]


class Run:
    def __init__(self, mod, spec):
        self.mod, self.m, self.s = mod, mod.lmb, spec
        p = self.m.Params()
        for k, v in spec["params"].items():
            setattr(p, k, v)
        self.t = [self.m.Tracker(p) for _ in range(spec["trackers"])]
        p.r_lim, p.nstd, p.tscale = 0.77, 77.0, 7.0     # the tracker has its own copy
        self.done = []          # every operation so far, in the order that explains the results
        self.twin = self.fresh()
        self.idmap = [{} for _ in self.t]
        self.cnt = dict(operations=0, compared=0, births=0, tracks=0, orders_tried=0, concurrent=0, refused=0, lifetimes=0, round_trips=0, frames=0, max_tracks=0)
        self.trace = hashlib.sha256()
        self.kept = []

    def fresh(self):
        v = dbl([self.s["params"][k] for k in PNAMES])
        return [self.mod.c.ref_new(v) for _ in self.t]

    # one operation through the Python interface; out: plain values
    def call(self, o, yield_=lambda: None):
        m, t, k = self.m, self.t[o["t"]], o["k"]
        if k == "predict":
            q = np.array(o["q"]).reshape(4, 4)
            if o["nm"]:
                x = m.NM(o["pS"], q) if o["form"] else m.NM()
                x.pS, x.Q = o["pS"], q
            else:
                x = (m.CV(o["pS"], o["q"][0]), m.CV(q=o["q"][0], pS=o["pS"]), m.CV())[o["form"]]
                if o["form"] == 2:
                    x.pS, x.q = o["pS"], o["q"][0]
            if o["y"]:
                yield_()
            if t.predict(x, o["time"], o["last"]) is not None:
                raise Violation("result", "predict returned something")
            return None
        if k == "correct":
            s, c = m.PositionSensor(), o["sensor"]
            f = c["fov"]
            s.fov = m.BBox(np.array(f).reshape(2, 4)) if o["form"] else m.BBox(m.AABBox(f[2], f[5], f[0], f[4]))
            s.pv, s.lambdaB, s.pD, s.kappa = np.array(c["pv"]).reshape(2, 2), c["lambdaB"], c["pD"], c["kappa"]
            scan = []
            for a in o["scan"]:
                x, P = np.array(a[:2]), np.array(a[2:6]).reshape(2, 2)
                scan.append(m.GaussianReport(s, x, P) if o["form"] else m.GaussianReport(x, P, c["kappa"]))
            scan = send(scan, o["via"])
            if o["y"]:
                yield_()
            out = t.correct(s, scan, o["time"])
            out = send(out, o["via"])
            return [list(r.x) + list(np.asarray(r.P).ravel()) + [r.kappa, float(r.cid)] for r in out]
        b = None
        if o.get("box"):
            b = send(m.AABBox(*o["box"]), o.get("via"))
        if o["y"]:
            yield_()
        if k == "enof":
            return t.enof_targets(b) if b else t.enof_targets()
        if k == "nof":
            a = ([b] if b and not o["kw"] else []) + ([o["lim"]] if o["lim"] is not None and not o["kw"] else [])
            kw = {}
            if o["kw"]:
                if b:
                    kw["aabbox"] = b
                if o["lim"] is not None:
                    kw["r_lim"] = o["lim"]
            return t.nof_targets(*a, **kw)
        if k == "get":
            l = t.get_targets(b) if b else t.get_targets()
            if o["life"]:
                # one view of each: another one would keep the track alive
                self.kept += [(v, np.array(v)) for v in (g.x if (g.id + len(self.kept)) % 2 else g.P for g in l)]
            l = send(l, o["via"])
            return [[float(g.id), float(g.cid), g.r] + list(g.x) + list(np.asarray(g.P).ravel()) for g in l]
        if k == "phd":
            z = (o["size"], np.array(o["size"]), np.array(o["size"], dtype=np.int32))[o["form"]]
            return np.array(t.pos_phd(b, z)).tolist()
        if k in ("ospa", "gospa"):
            v = [np.array(x) for x in o["truth"]] if o["form"] else o["truth"]
            return getattr(t, k)(v, o["c"], o["p"])
        if k == "stats":
            return None     # read only while nothing else runs: see sequential()
        if k == "bad":
            try:
                BAD[o["n"]](m, t)
            except REFUSED:
                self.cnt["refused"] += 1
                return None
            raise Violation("accepted", "unsuitable arguments (case %d) were accepted" % o["n"])
        if k == "damage":
            return self.damage(o)
        raise AssertionError(k)

    def damage(self, o):
        m = self.m
        x = [m.AABBox(1, 2, 3, 4), m.BBox(m.AABBox(1, 2, 3, 4)), m.GaussianReport(np.ones(2), np.eye(2)), None][o["what"]]
        if x is None:
            x = m.Gaussian(np.zeros(4), np.eye(4))
            l = self.probe_target()
            if l is None:
                return None
            x = l
        st = list(x.__reduce_ex__(2)[2])
        at = o["at"] % len(st)
        if o["how"] == 0:
            st.pop(at)
        elif o["how"] == 1:
            st.insert(at, st[at])
        elif o["how"] == 2:
            st[at] = "damaged"
        elif o["how"] == 3:
            st[at] = None
        else:
            st[at] = np.zeros(7)
        try:
            y = type(x).__new__(type(x))
            y.__setstate__(tuple(st))
        except REFUSED:
            self.cnt["refused"] += 1
            return None
        raise Violation("accepted", "a damaged stored %s was accepted (%r)" % (type(x).__name__, st))

    def probe_target(self):
        t = self.m.Tracker()
        s = self.m.PositionSensor()
        s.fov = self.m.BBox(self.m.AABBox(-80, -170, 80, 170))
        t.correct(s, [self.m.GaussianReport(np.array([1.0, 2.0]), np.eye(2))], 0.0)
        l = t.get_targets()
        return l[0] if l else None

    # the same operation on the C++ tracker
    def direct(self, o, t):
        c, k = self.mod.c, o["k"]
        if k == "predict":
            c.ref_predict(t, int(o["nm"]), o["pS"], dbl(o["q"]), o["time"], o["last"])
            return None
        if k == "correct":
            s, n = o["sensor"], len(o["scan"])
            out = (ctypes.c_double * (8 * n + 1))()
            c.ref_correct(t, dbl(s["fov"] + s["pv"] + [s["lambdaB"], s["pD"], s["kappa"]]), n, dbl([v for a in o["scan"] for v in a + [s["kappa"]]]), o["time"], out)
            return [list(out[8 * i:8 * i + 8]) for i in range(n)]
        b = None
        if o.get("box"):
            x = o["box"]
            b = dbl([min(x[0], x[2]), min(x[1], x[3]), max(x[0], x[2]), max(x[1], x[3])])
        if k == "enof":
            return c.ref_count(t, 1 if b else 0, b, 0)
        if k == "nof":
            return c.ref_count(t, (4 if b else 2) + (o["lim"] is not None), b, o["lim"] or 0)
        if k == "get":
            out = (ctypes.c_double * (23 * 2000))()
            n = c.ref_get(t, b, out, 2000)
            return [list(out[23 * i:23 * i + 23]) for i in range(n)]
        if k == "phd":
            nx, ny = o["size"]
            out = (ctypes.c_double * (nx * ny))()
            c.ref_phd(t, b, nx, ny, out)
            return [list(out[i * ny:(i + 1) * ny]) for i in range(nx)]
        if k in ("ospa", "gospa"):
            return c.ref_metric(t, int(k == "gospa"), len(o["truth"]), dbl([v for x in o["truth"] for v in x]), o["c"], o["p"])
        if k == "params":
            return None
        return None

    # ---------------------------------------------------------------- compare
    @staticmethod
    def near(a, b, tol=1e-7, ab=1e-9):
        return a == b or abs(a - b) <= tol * max(abs(a), abs(b)) + ab

    def same_target(self, a, b):
        if not self.near(a[2], b[2], 1e-6):
            return False
        sc = max(abs(v) for v in b[7:23])
        return all(self.near(x, y, 1e-9, 1e-7) for x, y in zip(a[3:7], b[3:7])) and all(abs(x - y) <= 1e-6 * sc + 1e-9 for x, y in zip(a[7:23], b[7:23]))

    def differs(self, o, a, b, idmap):
        """Why the Python result a is not the direct result b (or '')."""
        k = o["k"]
        self.cnt["compared"] += 1
        if k in ("predict", "stats", "bad", "damage", "objects", "frames", "params"):
            return ""
        if k in ("enof", "nof", "ospa", "gospa"):
            return "" if self.near(a, b) else "%s gave %.12g, the tracker %.12g" % (k, a, b)
        if k == "phd":
            if len(a) != len(b) or len(a[0]) != len(b[0]):
                return "density map of %d x %d cells instead of %d x %d" % (len(a), len(a[0]), len(b), len(b[0]))
            for i, (p, q) in enumerate(zip(a, b)):
                for j, (x, y) in enumerate(zip(p, q)):
                    if not abs(x - y) <= 8 * math.sqrt(2 * max(x, y, 1e-3) / 1000):
                        return "density cell (%d,%d) is %.6g, the tracker's %.6g" % (i, j, x, y)
            return ""
        if k == "correct":
            if len(a) != len(b):
                return "%d reports returned, %d given" % (len(a), len(b))
            for i, (x, y) in enumerate(zip(a, b)):
                for j in range(7):
                    if not self.near(x[j], y[j], 1e-9):
                        return "report %d: field %d is %.12g, the tracker's %.12g" % (i, j, x[j], y[j])
            for i in range(len(a)):
                for j in range(i):
                    if (a[i][7] == a[j][7]) != (b[i][7] == b[j][7]):
                        return "reports %d and %d are clustered differently" % (j, i)
            return ""
        if k == "get":
            if len(a) != len(b):
                return "%d tracks listed, the tracker lists %d" % (len(a), len(b))
            by = {x[0]: x for x in b}
            rev = set(idmap.values())
            new = []
            for x in a:
                if x[0] in idmap:
                    y = by.get(idmap[x[0]])
                    if y is None or not self.same_target(x, y):
                        return "track %d: r=%.9g x=%r, the tracker has %r" % (x[0], x[2], x[3:7], y and y[2:7])
                else:
                    new.append(x)
            free = [y for y in b if y[0] not in rev]
            # a track keeps its number unless born together with another
            for x in new:
                c = [y for y in free if self.same_target(x, y)]
                c = [y for y in c if y[0] == x[0]] or c
                if not c:
                    return "track %d: r=%.9g x=%r is unknown to the tracker (%r)" % (x[0], x[2], x[3:7], [y[:7] for y in free][:3])
                free.remove(c[0])
                idmap[x[0]] = c[0][0]
            return ""
        raise AssertionError(k)

    LIST = dict(k="get", box=None, life=False, via="", y=False)

    def in_thread(self, fn):
        out = {}

        def go():
            try:
                out["r"] = fn()
            except BaseException as x:      # noqa
                out["x"] = x
        th = threading.Thread(target=go)
        th.start()
        th.join()
        if "x" in out:
            if isinstance(out["x"], Violation):
                raise out["x"]
            raise Violation("exception", "%s: %s" % (type(out["x"]).__name__, str(out["x"]).splitlines()[0] if str(out["x"]) else ""))
        return out["r"]

    def note(self, v):
        self.trace.update(repr(v).encode())

    def sequential(self, i, o):
        self.cnt["operations"] += 1
        k, L = o["k"], "operation %d (%s)" % (i, o["k"])
        if k == "objects":
            return self.sound(self.objects, o, L)
        if k == "frames":
            return self.sound(self.frames, o, L)
        inst = self.mod.ref_of(self.t[o["t"]])
        if k == "params":
            n = PNAMES[o["i"]]
            if n in ("tscale", "nhyp_max", "nstd"):
                return
            v = getattr(self.t[o["t"]].params, n)
            if v != self.value(o["t"], n):
                raise Violation("params", "%s: %s is %r, %r was set" % (L, n, v, self.value(o["t"], n)))
            v = min(v * o["f"], 0.99) if n != "cov_lim" else v * o["f"]
            setattr(self.t[o["t"]].params, n, v)
            if getattr(self.t[o["t"]].params, n) != v:
                raise Violation("params", "%s: %s was set to %r and reads %r" % (L, n, v, getattr(self.t[o["t"]].params, n)))
            self.mod.c.ref_set(self.twin[o["t"]], o["i"], v)
            self.done.append(dict(o, value=v))
            return
        before = self.direct(dict(self.LIST, t=o["t"]), inst) if k in ("bad", "damage", "enof", "nof", "get", "phd", "ospa", "gospa") else None
        a = self.in_thread(lambda: self.call(o))
        self.note(a)
        b = self.direct(o, self.twin[o["t"]])
        w = self.differs(o, a, b, self.idmap[o["t"]])
        if w:
            raise Violation("differs", "%s: %s" % (L, w))
        if k in ("enof", "nof", "get", "ospa", "gospa"):
            x = self.direct(o, inst)
            if x != a:
                raise Violation("differs", "%s: the call gave %s, the same tracker asked directly %s" % (L, repr(a)[:200], repr(x)[:200]))
        if before is not None and before != self.direct(dict(self.LIST, t=o["t"]), inst):
            raise Violation("mutation", "%s changed the tracker" % L)
        if k == "stats":
            self.stats(o, L, inst)
        self.done.append(o)
        if k in ("predict", "correct"):
            self.populations(L, [o["t"]])

    def value(self, t, n):
        v = self.s["params"][n]
        for o in self.done:
            if o["k"] == "params" and o["t"] == t and PNAMES[o["i"]] == n:
                v = o["value"]
        return v

    def stats(self, o, L, inst):
        t = self.t[o["t"]]
        if not any(q["k"] == "correct" and q["t"] == o["t"] for q in self.done):
            return
        out = (ctypes.c_int * 3000)()
        n = self.mod.c.ref_clusters(inst, out, 1000)
        for j, name in enumerate(("cluster_ntargets", "cluster_nreports", "cluster_nhyps")):
            v = list(getattr(t, name))
            if v != [out[3 * i + j] for i in range(n)]:
                raise Violation("differs", "%s: %s is %r" % (L, name, v))
        if t.nof_clusters != n:
            raise Violation("differs", "%s: nof_clusters is %r instead of %d" % (L, t.nof_clusters, n))

    def populations(self, L, ts):
        for t in ts:
            o = dict(self.LIST, t=t)
            a = self.in_thread(lambda: self.call(o))
            self.note(a)
            self.cnt["tracks"] += len(a)
            self.cnt["max_tracks"] = max(self.cnt["max_tracks"], len(a))
            w = self.differs(o, a, self.direct(o, self.twin[t]), self.idmap[t])
            if w:
                raise Violation("differs", "%s: afterwards %s" % (L, w))

    # ------------------------------------------------------------------ bursts
    def burst(self):
        ops, deps = [], []
        for c in self.s["burst"]:
            p = -1
            for o in c:
                ops.append(o)
                deps.append(p)
                p = len(ops) - 1
        n = len(ops)
        if not n:
            return
        c = self.mod.c
        res, err = [None] * n, [None] * n
        c.sim_begin(n, (ctypes.c_int * n)(*deps), self.s["sched"], self.s["psw"], self.s["budget"])

        def go(i):
            c.sim_enter(i)
            try:
                res[i] = self.call(ops[i], c.sim_yield)
            except BaseException as x:      # noqa
                err[i] = x
            c.sim_exit()
        ths = [threading.Thread(target=go, args=(i,)) for i in range(n)]
        for t in ths:
            t.start()
        c.sim_run()
        for t in ths:
            t.join()
        st = (ctypes.c_uint64 * 300)()
        c.sim_stats(st)
        self.sched = "%016x" % st[0]
        self.cnt.update(points=st[1], switches=st[2], lock_releases=st[3], lock_waits=st[4], concurrent=n)
        self.note(self.sched)
        for i in range(n):
            self.cnt["operations"] += 1
            self.note(res[i])
            if err[i] is not None:
                if isinstance(err[i], Violation):
                    raise err[i]
                raise Violation("exception", "call %d (%s): %s: %s" % (i, ops[i]["k"], type(err[i]).__name__, str(err[i])[:150]))
        order = [st[6 + i] for i in range(st[5])]
        first = None
        # final listings as additional operations at the end
        for k, cand in enumerate(self.orders(order, deps, n)):
            self.cnt["orders_tried"] += 1
            w = self.explains(ops, cand, res)
            if not w:
                break
            first = first or w
            if k >= 300:
                cand = None
                break
        else:
            cand = None
        if cand is None:
            raise Violation("order", "no order of the %d overlapping calls explains the results; in the order of their turns: %s" % (n, first))
        self.done += [ops[i] for i in cand]

    def orders(self, first, deps, n):
        yield first
        r = random.Random(1)
        for _ in range(300):
            left, done, out = set(range(n)), set(), []
            while left:
                c = sorted(i for i in left if deps[i] < 0 or deps[i] in done)
                i = r.choice(c)
                left.discard(i)
                done.add(i)
                out.append(i)
            yield out

    def explains(self, ops, order, res):
        tw = self.fresh()
        ids = [dict(x) for x in self.idmap]
        for o in self.done:
            if o["k"] == "params":
                self.mod.c.ref_set(tw[o["t"]], o["i"], o["value"])
            elif o["k"] in ("predict", "correct"):
                self.direct(o, tw[o["t"]])
        for i in order:
            w = self.differs(ops[i], res[i], self.direct(ops[i], tw[ops[i]["t"]]), ids[ops[i]["t"]])
            if w:
                return "call %d: %s" % (i, w)
        for t in range(len(self.t)):
            o = dict(self.LIST, t=t)
            w = self.differs(o, self.in_thread(lambda: self.call(o)), self.direct(o, tw[t]), ids[t])
            if w:
                return "at the end %s" % w
        self.twin, self.idmap = tw, ids
        return ""

    # ------------------------------------------------------- values and frames
    def sound(self, f, o, L):
        """All of these are proper uses of the module: an exception, or a text without its fields, is its fault."""
        try:
            return f(o, L)
        except Violation:
            raise
        except Exception as x:      # noqa
            raise Violation("value", "%s: %s: %s" % (L, type(x).__name__, str(x)[:150]))

    def objects(self, o, L):
        m, v = self.m, o["v"]

        def need(ok, what):
            if not ok:
                raise Violation("value", "%s: %s" % (L, what))

        def eq(a, b):
            return np.array_equal(np.asarray(a), np.asarray(b))
        self.cnt["round_trips"] += 1
        b = m.AABBox(v[0], v[1], v[2], v[3])
        need(b.min == [min(v[0], v[2]), min(v[1], v[3])] and b.max == [max(v[0], v[2]), max(v[1], v[3])], "AABBox%r is %r" % (tuple(v[:4]), b))
        for how in ("pickle", "copy"):
            x = send(b, how)
            need(x.min == b.min and x.max == b.max, "%s of %r is %r" % (how, b, x))
        b2 = send(b, "pickle")
        b2.min = [-5, -6]
        need(b2.min == [-5, -6] and b.min != [-5, -6], "AABBox.min assigns elsewhere")
        B = m.BBox(b)
        need(sorted(map(tuple, np.array(B.corners).T.tolist())) == sorted([(b.min[0], b.min[1]), (b.min[0], b.max[1]), (b.max[0], b.min[1]), (b.max[0], b.max[1])]), "corners of %r are %r" % (b, B))
        need(B.aabbox().min == b.min and B.aabbox().max == b.max, "box of %r is %r" % (B, B.aabbox()))
        C = np.array(v[:8]).reshape(2, 4)
        B = m.BBox(C)
        need(eq(B.corners, C), "corners of a box")
        for how in ("pickle", "copy"):
            need(eq(send(B, how).corners, C), "%s of %r is %r" % (how, B, send(B, how)))
        need(B.aabbox().min == C.min(axis=1).tolist() and B.aabbox().max == C.max(axis=1).tolist(), "box of %r is %r" % (B, B.aabbox()))
        A = np.array(v[8:12]).reshape(2, 2)
        P = A @ A.T + 0.1 * np.eye(2)
        x = np.array(o["at"])
        s = m.PositionSensor()
        s.kappa = abs(v[12]) + 0.01
        for r in (m.GaussianReport(s, x, P), m.GaussianReport(x, P, s.kappa), m.GaussianReport(state=x, cov=P, kappa=s.kappa), m.GaussianReport(sensor=s, state=x, cov=P)):
            for how in ("", "pickle", "copy"):
                y = send(r, how)
                need(eq(y.x, x) and eq(y.P, P) and y.kappa == s.kappa and y.cid == 0, "%s of a report has x=%r P=%r kappa=%r cid=%r" % (how or "constructor", y.x, y.P, y.kappa, y.cid))
        need(m.GaussianReport(x, P).kappa == 1.0, "default clutter of a report is %r" % m.GaussianReport(x, P).kappa)
        org = np.array(self.s["origin"])
        k = abs(v[13]) * 2 + 0.5
        for args, n in (((org,), 2.0), ((org, k), k)):
            D = np.array(r.nebbox(*args).corners)
            mid = ll2ne(x, org)
            need(np.allclose(D.mean(axis=1), mid, atol=1e-5), "extent of a report is centred at %r, the report is at %r" % (D.mean(axis=1), mid))
            need(all(abs((d - D.mean(axis=1)) @ np.linalg.inv(P) @ (d - D.mean(axis=1)) - 2 * n * n) < 1e-6 * n * n + 1e-6 for d in D.T), "extent of a report of %g standard deviations is %r" % (n, D.tolist()))
        for args, n in (((x, P), 2.0), ((x, P, k), k)):
            q = m.BBox()
            q.from_gaussian(*args)
            D = np.array(q.corners)
            need(np.allclose(D.mean(axis=1), x, atol=1e-9), "extent of a distribution at %r is centred at %r" % (x, D.mean(axis=1)))
            need(all(abs((d - x) @ np.linalg.inv(P) @ (d - x) - 2 * n * n) < 1e-6 * n * n + 1e-6 for d in D.T), "extent of %g standard deviations is %r" % (n, D.tolist()))
        far = ne2ll(np.array([v[6] * 500, v[7] * 500]), org)
        B3 = m.BBox(np.array([[x[0], far[0], far[0], x[0]], [x[1], x[1], far[1], far[1]]]))
        D = np.array(B3.nebbox(org).corners)
        need(all(np.allclose(D[:, i], ll2ne(np.array(B3.corners)[:, i], org), atol=1e-6) for i in range(4)), "local corners of %r are %r" % (B3, D.tolist()))
        b3 = m.AABBox(x[0], x[1], far[0], far[1])
        a1, a2 = ll2ne(np.array(b3.min), org), ll2ne(np.array(b3.max), org)
        q = b3.neaabbox(org)
        need(np.allclose(q.min, np.minimum(a1, a2), atol=1e-6) and np.allclose(q.max, np.maximum(a1, a2), atol=1e-6), "local box of %r is %r" % (b3, q))
        q = q.llaabbox(org)
        need(np.allclose(q.min, b3.min, atol=1e-6) and np.allclose(q.max, b3.max, atol=1e-6), "the global box of the local box of %r is %r" % (b3, q))
        q = m.AABBox()
        need(max(q.min) < -360 and min(q.max) > 360, "the box without arguments is %r" % q)
        y = json.loads(repr(r))
        need(near(y["x"], x) and near(y["P"], P), "a report at %r prints as %r" % (x, r))
        need(near(json.loads(repr(B))["c"], C), "the corners %r print as %r" % (C.tolist(), B))
        for T in self.t[o["t"]].get_targets():
            y = json.loads(repr(T))
            need(y["id"] == T.id and near(y["w"], T.r) and near(y["x"], T.x) and near(y["P"], T.P), "track %d (r=%r, x=%r) prints as %r" % (T.id, T.r, T.x, T))
            st = T.__reduce_ex__(2)[2:3]
            st = list(st[0]) if st and isinstance(st[0], tuple) else []
            for w in ("id", "cid"):          # numbers far beyond those of a short run survive, too
                at = [i for i, z in enumerate(st) if isinstance(z, int) and z == getattr(T, w)]
                if len(at) == 1:
                    big = list(st)
                    big[at[0]] = 70000 + o["t"] if v[0] > 0 else 4000000000
                    y = T.__class__.__new__(T.__class__)
                    y.__setstate__(tuple(big))
                    need(getattr(y, w) == big[at[0]] and getattr(send(y, "pickle"), w) == big[at[0]], "a stored track %s of %d reads %d" % (w, big[at[0]], getattr(y, w)))
            for args, n in (((org,), 2.0), ((org, k), k)):
                D, Q = np.array(T.nebbox(*args).corners), np.array(T.P)[:2, :2]
                w, e = np.linalg.eigh(Q)
                if w[0] > 1e-6 * w[1]:
                    need(np.allclose(D.mean(axis=1), ll2ne(np.array(T.x[:2]), org), atol=1e-4), "extent of track %d is centred at %r" % (T.id, D.mean(axis=1)))
                    need(all(abs(((d - D.mean(axis=1)) @ e) ** 2 / w - n * n).max() < 1e-5 * n * n + 1e-5 for d in D.T), "extent of %g standard deviations of track %d is %r" % (n, T.id, D.tolist()))
        g = m.Gaussian(np.array(v[:4]), np.diag([1.0, 2, 3, 4]), abs(v[4]))
        y = json.loads(repr(g))
        need(near(y["w"], g.w) and near(y["x"], g.m) and near(y["P"], g.P), "a Gaussian prints as %r" % g)
        need(eq(g.m, v[:4]) and eq(g.P, np.diag([1.0, 2, 3, 4])) and g.w == abs(v[4]) and m.Gaussian(np.zeros(4), np.eye(4)).w == 1.0, "fields of a Gaussian")
        for q in (m.CV(abs(v[5]), abs(v[6])), m.CV(pS=abs(v[5]), q=abs(v[6]))):
            need(q.pS == abs(v[5]) and q.q == abs(v[6]), "CV reads pS=%r q=%r" % (q.pS, q.q))
        need(m.CV().pS == 1 and m.CV().q == 1 and m.NM().pS == 1 and eq(m.NM().Q, np.zeros((4, 4))), "defaults of the motion models")
        q = m.NM(abs(v[5]), np.arange(16.0).reshape(4, 4))
        need(q.pS == abs(v[5]) and eq(q.Q, np.arange(16.0).reshape(4, 4)), "NM reads pS=%r Q=%r" % (q.pS, q.Q))
        s.lambdaB, s.pD, s.kappa, s.pv, s.fov = v[1], v[2], v[3], np.diag([v[4], v[5]]), B
        need((s.lambdaB, s.pD, s.kappa) == (v[1], v[2], v[3]) and eq(s.pv, np.diag([v[4], v[5]])) and eq(s.fov.corners, C), "fields of a sensor")
        p = m.Params()
        for i, n in enumerate(PNAMES):
            setattr(p, n, v[i])
        for i, n in enumerate(PNAMES):
            need(getattr(p, n) == v[i], "parameter %s reads %r, %r was set" % (n, getattr(p, n), v[i]))
        t = m.Tracker(p)
        for i, n in enumerate(PNAMES):
            need(getattr(t.params, n) == v[i], "parameter %s of a tracker reads %r, %r was given" % (n, getattr(t.params, n), v[i]))
        l = self.call(dict(self.LIST, t=o["t"]))
        for how in ("pickle", "copy"):
            need(self.call(dict(self.LIST, t=o["t"], via=how)) == l, "%s of the tracks differs from them" % how)
        q = t.params
        del t
        gc.collect()
        need(q.nstd == v[4], "the parameters of a tracker died with it")

    def frames(self, o, L):
        f, v = self.mod.cf, o["v"]
        self.cnt["frames"] += 1
        p, org = np.array(o["at"]), np.array(o.get("org", self.s["origin"]))
        alt = o.get("alt") or [100 * v[0], 50 * v[1]]
        p3, o3 = np.append(p, alt[0]), np.append(org, alt[1])

        def need(name, got, want, tol):
            if not (np.shape(got) == np.shape(want) and np.all(np.abs(np.asarray(got) - np.asarray(want)) <= tol)):
                raise Violation("frames", "%s: %s gave %r, expected %r" % (L, name, np.asarray(got).tolist(), np.asarray(want).tolist()))
        e, e3, oe, oe3 = ecef(p, 0), ecef(p, p3[2]), ecef(org, 0), ecef(org, o3[2])
        R = rot(org)
        # degrees, where a degree of longitude may be short
        deg = np.array([1e-9, 1e-9 / max(1e-3, math.cos(math.radians(p[0])))])

        def place(name, got, want, tol):
            got = np.array(got, dtype=float)
            if got.shape == np.shape(want) and abs(got[1] - want[1]) > 180:
                got[1] += math.copysign(360, want[1] - got[1])
            need(name, got, want, tol)
        need("nedrot", f.nedrot(o3), R, 1e-12)
        need("nerot", f.nerot(org), R[:2], 1e-12)
        need("lla2ecef", f.lla2ecef(p3), e3, 1e-6)
        need("ll2ecef", f.ll2ecef(p), e, 1e-6)
        place("ecef2lla", f.ecef2lla(e3), p3, np.append(deg, 1e-5))
        place("ecef2ll", f.ecef2ll(e), p, deg)
        place("ecef2ll", f.ecef2ll(e3), p, deg)
        need("ecef2ned", f.ecef2ned(e3, o3), R @ (e3 - oe3), 1e-6)
        need("lla2ned", f.lla2ned(p3, o3), R @ (e3 - oe3), 1e-6)
        need("ecef2ne", f.ecef2ne(e, org), (R @ (e - oe))[:2], 1e-6)
        need("ll2ne", f.ll2ne(p, org), (R @ (e - oe))[:2], 1e-6)
        ned = R @ (e3 - oe3)
        need("ned2ecef", f.ned2ecef(ned, o3), e3, 1e-6)
        place("ned2lla", f.ned2lla(ned, o3), p3, np.append(deg, 1e-5))
        ne = np.array(o["ne"]) if "ne" in o else f.ll2ne(p, org)
        q = f.ne2ll(ne, org)
        need("ne2ecef", f.ne2ecef(ne, org), ecef(q, 0), 1e-4)
        # a place on the ground has no height in the plane: the way back misses it by its sagitta
        sag = max(1e-6, 2 * np.linalg.norm(ne) ** 3 / 6.3e6 ** 2 + 1e-6)
        need("ll2ne of ne2ll", f.ll2ne(q, org), ne, sag)
        if "ne" not in o:
            need("ne2ll", q, p, 1e-7)

    def lifetimes(self):
        for x, y in self.kept:
            self.cnt["lifetimes"] += 1
            if not np.array_equal(x, y):
                raise Violation("lifetime", "the state of a listed track changed from %r to %r after the listing was dropped" % (y.tolist(), np.array(x).tolist()))

    def go(self):
        i = 0
        for o in self.s["pre"]:
            self.sequential(i, o)
            i += 1
        self.sched = ""
        self.burst()
        for o in self.s["post"]:
            self.sequential(i, o)
            i += 1
        gc.collect()
        junk = [np.zeros(8) for _ in range(200)]
        self.lifetimes()
        del junk
        self.t = None
        gc.collect()
        self.lifetimes()


def ecef(ll, alt):
    a, e2 = 6378137.0, 6.6943799901377997e-3
    la, lo = math.radians(ll[0]), math.radians(ll[1])
    n = a / math.sqrt(1 - e2 * math.sin(la) ** 2)
    return np.array([(n + alt) * math.cos(la) * math.cos(lo), (n + alt) * math.cos(la) * math.sin(lo), (n * (1 - e2) + alt) * math.sin(la)])


def rot(o):
    la, lo = math.radians(o[0]), math.radians(o[1])
    s, c, S, C = math.sin(la), math.cos(la), math.sin(lo), math.cos(lo)
    return np.array([[-s * C, -s * S, c], [-S, C, 0], [-c * C, -c * S, -s]])


def ll2ne(p, o):
    return (rot(o) @ (ecef(p, 0) - ecef(o, 0)))[:2]


def ne2ll(ne, o):
    x = np.array(o, dtype=float)
    for _ in range(20):
        d = ne - ll2ne(x, o)
        x = x + np.array([d[0] / 111200.0, d[1] / (111320.0 * math.cos(math.radians(o[0])))])
    return x


def near(a, b):
    """Printed numbers: five significant digits."""
    a, b = np.asarray(a, dtype=float).ravel(), np.asarray(b, dtype=float).ravel()
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-5 * np.abs(b) + 1e-12))


# ---------------------------------------------------------------------- engine
def run_seed(seed, i):
    z = (seed * 0x9E3779B97F4A7C15 + (i + 1) * 0xD1B54A32D192ED03) & (2 ** 64 - 1)
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & (2 ** 64 - 1)
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & (2 ** 64 - 1)
    return z ^ (z >> 31)


def attempt(mod, spec):
    """One run in a process of its own: (status, kind, message, trace, counters)."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        mod.c.sim_fd(wr)
        sys.setswitchinterval(1e6)
        out = None
        r = None
        try:
            r = Run(mod, spec)
            r.go()
            out = dict(st="ok", kind="", msg="")
        except Violation as x:
            out = dict(st="violation", kind=x.kind, msg=x.msg)
        except BaseException as x:      # noqa
            import traceback
            out = dict(st="internal", kind="internal", msg=traceback.format_exc()[-600:])
        if r is not None:
            r.note(out["msg"])
            out.update(trace=r.trace.hexdigest()[:24], cnt=r.cnt)
        os.write(wr, json.dumps(out).encode())
        os._exit(0)
    os.close(wr)
    buf, end, late = b"", realtime.monotonic() + 10 * CPU, False
    while True:
        if not select.select([rd], [], [], max(0, end - realtime.monotonic()))[0]:
            os.kill(pid, signal.SIGKILL)
            late = True
            break
        b = os.read(rd, 65536)
        if not b:
            break
        buf += b
    os.close(rd)
    _, st = os.waitpid(pid, 0)
    if late or (os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL)):
        return ("timeout", "timeout", "the run took too long", "timeout", {})
    if buf and not os.WIFSIGNALED(st):
        o = json.loads(buf)
        return (o["st"], o["kind"], o["msg"], o.get("trace", ""), o.get("cnt", {}))
    return ("violation", "crash", "the process died with %s" % ("signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "status %d" % os.WEXITSTATUS(st)), "crash", {})


def add(a, b):
    for k, v in b.items():
        a[k] = max(a.get(k, 0), v) if k.startswith("max_") else a.get(k, 0) + v


def worker(mod, o, w, q):
    n = 0
    cnt, fired, states, nontriv = {}, {}, set(), set()
    out = {"viol": None, "internal": None, "rechecked": 0, "simtime": 0, "timeouts": 0}
    i, batch, t0 = w * 8, 8, realtime.monotonic()
    while realtime.monotonic() - t0 < o.wall and not out["viol"] and not out["internal"]:
        for k in range(i, min(i + batch, o.runs)):
            if realtime.monotonic() - t0 >= o.wall:
                break
            s = generate(run_seed(o.seed, k), o.tier == "thorough")
            r = attempt(mod, s)
            n += 1
            if r[0] == "timeout":
                out["timeouts"] += 1
                continue
            if r[0] == "internal":
                out["internal"] = "run %d: %s" % (k, r[2])
                break
            if r[0] != "ok" or k % 64 == 0:
                r2 = attempt(mod, s)
                out["rechecked"] += 1
                if (r2[0], r2[1], r2[3]) != (r[0], r[1], r[3]):
                    out["internal"] = "run %d does not repeat: %r then %r" % (k, r[:4], r2[:4])
                    break
            add(cnt, r[4])
            add(fired, s["faults"])
            add(fired, {"preemption": r[4].get("switches", 0)})
            out["simtime"] += s["time"]
            states.add(r[3])
            if r[4].get("switches", 0) > r[4].get("concurrent", 0) and r[4].get("tracks"):
                nontriv.add(r[3])
            if r[0] != "ok":
                out["viol"] = [k, r[1], r[2]]
                break
        i += batch * o.workers
        if i >= o.runs:
            break
    out.update(n=n, cnt=cnt, fired=fired, states=sorted(states), nontriv=sorted(nontriv))
    with open(q, "w") as f:
        json.dump(out, f)


def minimise(mod, spec, kind, budget):
    end = realtime.monotonic() + budget

    def bad(s):
        if realtime.monotonic() > end:
            return False
        r = attempt(mod, s)
        return r[0] == "violation" and r[1] == kind
    best, changed = spec, True
    while changed and realtime.monotonic() < end:
        changed = False
        tries = []
        for f in ("pre", "post"):
            for j in reversed(range(len(best[f]))):
                tries.append(lambda s, f=f, j=j: s[f].pop(j))
        for j in reversed(range(len(best["burst"]))):
            tries.append(lambda s, j=j: s["burst"].pop(j))
            for i in reversed(range(len(best["burst"][j]))):
                tries.append(lambda s, i=i, j=j: s["burst"][j].pop(i))
        for f in ("pre", "post"):
            for j, o in enumerate(best[f]):
                for i in reversed(range(len(o.get("scan", [])))):
                    tries.append(lambda s, f=f, j=j, i=i: s[f][j]["scan"].pop(i))
        for v in (0, 1, 2, 4, 8, 16, 64):
            if best["budget"] > v:
                tries.append(lambda s, v=v: s.update(budget=v))
        for t in tries:
            s = json.loads(json.dumps(best))
            try:
                t(s)
            except (IndexError, KeyError):
                continue
            if bad(s):
                best, changed = s, True
    return best


def summary(s, k):
    return "run %d: %d tracker(s), %s; burst %s; %s" % (k, s["trackers"], ",".join(o["k"] for o in s["pre"]), " | ".join(",".join(o["k"] for o in c) for c in s["burst"]), ",".join(o["k"] for o in s["post"]))


def explore(mod, o):
    pids, files = [], []
    for w in range(o.workers):
        q = "%s.%d" % (o.out, w)
        files.append(q)
        p = os.fork()
        if p == 0:
            try:
                worker(mod, o, w, q)
                os._exit(0)
            except BaseException:       # noqa
                import traceback
                traceback.print_exc()
                os._exit(3)
        pids.append(p)
    t0 = realtime.monotonic()
    bad = sum(os.waitpid(p, 0)[1] != 0 for p in pids)
    wall = realtime.monotonic() - t0
    if bad:
        print("worker failed", file=sys.stderr)
        return 3
    tot = {"runs": 0, "wall": wall, "rechecked": 0, "counters": {}, "faults": {}, "simtime": 0, "timeouts": 0}
    st, nt, viols, internal = set(), set(), [], None
    for q in files:
        d = json.load(open(q))
        os.unlink(q)
        tot["runs"] += d["n"]
        tot["rechecked"] += d["rechecked"]
        tot["simtime"] += d["simtime"]
        tot["timeouts"] += d["timeouts"]
        add(tot["counters"], d["cnt"])
        add(tot["faults"], d["fired"])
        st.update(d["states"])
        nt.update(d["nontriv"])
        if d["viol"]:
            viols.append(d["viol"])
        internal = internal or d["internal"]
    if tot["timeouts"] >= 3 and tot["timeouts"] * 5 > tot["runs"]:
        internal = internal or "%d of %d runs took too long" % (tot["timeouts"], tot["runs"])
    tot.update(distinct=len(st), distinct_nontrivial=len(nt), internal=internal, violation="")
    tot["samples"] = [summary(generate(run_seed(o.seed, k), o.tier == "thorough"), k)[:600] for k in (0, 1, 2)]
    if viols:
        k, kind, msg = min(viols)
        s = minimise(mod, generate(run_seed(o.seed, k), o.tier == "thorough"), kind, o.minimise)
        r = attempt(mod, s)
        tot["violation"] = "%s: %s" % (r[1], r[2])
        with open(o.out + ".replay", "w") as f:
            f.write("# run %d of seed %d\n# %s\npy 1\n%s\n" % (k, o.seed, tot["violation"].replace("\n", " "), json.dumps(s, indent=1)))
    with open(o.out + ".json", "w") as f:
        json.dump(tot, f)
    return 1 if viols else 0


def main():
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument("mode")
    p.add_argument("file", nargs="?")
    p.add_argument("--so", default="")
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--index", type=int, default=0)
    p.add_argument("--runs", type=int, default=10 ** 9)
    p.add_argument("--wall", type=float, default=20)
    p.add_argument("--workers", type=int, default=8)
    p.add_argument("--tier", default="quick")
    p.add_argument("--out", default="/tmp/py")
    p.add_argument("--minimise", type=float, default=40)
    o = p.parse_args()
    env = {"PYTHONHASHSEED": "0", "MALLOC_PERTURB_": "165", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}
    if any(os.environ.get(k) != v for k, v in env.items()):
        os.environ.update(env)
        os.execv(sys.executable, [sys.executable] + sys.argv)
    if o.mode == "show":
        print(json.dumps(generate(run_seed(o.seed, o.index), o.tier == "thorough"), indent=1))
        return 0
    mod = Mod(o.so)
    if o.mode == "explore":
        return explore(mod, o)
    if o.mode == "one":
        print(attempt(mod, generate(run_seed(o.seed, o.index), o.tier == "thorough")))
        return 0
    text = [x for x in open(o.file).read().splitlines() if not x.startswith("#")]
    if not text or text[0] != "py 1":
        print("not a replay file", file=sys.stderr)
        return 2
    r = attempt(mod, json.loads("\n".join(text[1:])))
    if r[0] == "violation":
        print("%s: %s" % (r[1], r[2]))
        return 1
    print("no violation" if r[0] == "ok" else "no answer: %s" % r[2])
    return 0 if r[0] == "ok" else 2


if __name__ == "__main__":
    sys.exit(main())
