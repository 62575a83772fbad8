"""C05: one robot model used from many threads at once."""
import os
import sys
import threading
import time

from ..env import F32, F64, np, npy, pk, torch
from ..common import Violation
from .. import gen
from ..ref import jacobian

ORACLE = "answers of every thread against the single-threaded reference, under injected switches between Python lines of the library"
RULE = "distinct sequences of (thread, library line) observed around thread switches; each is one interleaving"
CONFIG = {"quick": {"cases": 200, "jobs": 4, "min": {"thread_calls": 1200, "forced_switches": 3000, "lockstep_threads": 60}},
          "thorough": {"cases": 3000, "seconds": 1200, "min": {"thread_calls": 50000}}}
ASSUMPTIONS = ["interleavings are explored at the granularity of Python lines of the library (GIL build of CPython)"]
LIB = os.sep + "pytorch_kinematics" + os.sep


class Switcher:
    """Trace function that yields the interpreter at random library lines and records which thread ran what around each switch."""

    def __init__(self, seed, rate):
        self.rate = rate
        self.seed = seed
        self.log = []
        self.switches = 0
        self.last = None
        self.local = threading.local()

    def trace(self, frame, event, arg):
        if LIB not in frame.f_code.co_filename:
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            rng = self.local.rng
            tid = self.local.tid
            if self.last is not None and self.last != tid:
                self.switches += 1
                if len(self.log) < 4000:
                    self.log.append((self.last, tid, frame.f_code.co_name, frame.f_lineno))
            self.last = tid
            if rng.random() < self.rate:
                time.sleep(0 if rng.random() < 0.8 else 0.0003)
        return self.line

    def start(self, tid):
        self.local.rng = np.random.default_rng([self.seed, tid])
        self.local.tid = tid
        sys.settrace(self.trace)


def tasks(rng, r, c, s, n_tasks, plan=None):
    """(name, callable, expected value) triples; the expectations come from the reference, not from the library."""
    out = []
    names = [f.name for f in r.frames]
    for i in range(n_tasks):
        k, B = plan[i] if plan else (int(rng.integers(0, 9)), int(rng.integers(1, 4)))
        q = gen.configs(rng, r.n, B)
        t = 10 * gen.tol(r, q)
        th = torch.tensor(q)
        f = names[rng.integers(len(names))]
        if k == 0:
            out.append(("fk", lambda th=th, f=f: c.forward_kinematics(th)[f].get_matrix(), r.fk_batch(q)[f], t))
        elif k == 1:
            out.append(("fk_dict", lambda q=q, f=f: c.forward_kinematics({n: q[:, i] for i, n in enumerate(r.joint_names)})[f].get_matrix(), r.fk_batch(q)[f], t))
        elif k == 2:
            out.append(("fk_subset", lambda th=th, f=f: c.forward_kinematics(th, c.get_frame_indices(f))[f].get_matrix(), r.fk_batch(q)[f], t))
        elif k == 3:
            out.append(("fk_tensor", lambda th=th, f=f: c.forward_kinematics_tensor(th)[int(c.get_frame_indices(f)[0])], r.fk_batch(q)[f], t))
        elif k == 4:
            W = rng.standard_normal((4, 4))
            g = np.stack([(r.dfk(x, f) * W).sum((1, 2)) for x in q])
            ana = bool(rng.integers(2))

            def grad(th=th, f=f, W=torch.tensor(W), ana=ana):
                x = th.clone().requires_grad_(True)
                y = (c.forward_kinematics_tensor(x, analytical_grad=ana)[int(c.get_frame_indices(f)[0])] * W).sum()
                return torch.autograd.grad(y, x)[0]
            out.append(("gradient", grad, g, 100 * t))
        elif k == 5:
            out.append(("names", lambda: [c.get_joint_parameter_names(), c.get_frame_names(exclude_fixed=False)], [r.joint_names, names], None))
        elif k == 6:
            out.append(("clamp", lambda th=th: c.clamp(th), np.clip(q, *[np.array(x) for x in c.get_joint_limits()]), 1e-9))
        elif s is not None:
            sr = s[0]
            qs = gen.configs(rng, sr.n, B)
            ts = torch.tensor(qs)
            if k == 7:
                out.append(("jacobian", lambda ts=ts: s[1].jacobian(ts), np.stack([jacobian(sr, x)[0] for x in qs]), 20 * gen.tol(sr, qs)))
            else:
                p = rng.standard_normal(3)
                Tm = np.eye(4)
                Tm[:3, 3] = p
                out.append(("tool_jacobian", lambda ts=ts, p=torch.tensor(p): s[1].jacobian(ts, locations=p), np.stack([jacobian(sr, x, Tm)[0] for x in qs]), 50 * gen.tol(sr, qs)))
    return out


def stress(ctx, rng):
    r = gen.robot(rng, n=int(rng.integers(3, 10)), min_joints=1)
    fresh = bool(rng.integers(2))
    c = gen.to_chain(r)
    from ..ref import serial_robot
    deep = max(r.frames, key=lambda f: len(r.path(f.name)))
    sr = serial_robot(r, r.root.name, deep.name)
    s = (sr, pk.SerialChain(c, deep.name)) if sr.n else None
    if not fresh:
        c.forward_kinematics(torch.zeros(1, r.n, dtype=F64))
    nthreads = int(rng.choice([2, 3, 5, 8]))
    # in lockstep, all threads make the same sequence of calls with values of the same shape (but values of their own)
    plan = [(int(rng.choice([k] * 3 + [rng.integers(0, 9)])), int(rng.integers(1, 3))) for k in [int(rng.integers(0, 9))] for _ in range(6)] if rng.random() < 0.6 else None
    work = [tasks(rng, r, c, s, 6, plan) for _ in range(nthreads)]
    ctx.count("lockstep_threads", nthreads * bool(plan))
    sw = Switcher(int(rng.integers(1 << 30)), float(rng.choice([0.02, 0.1, 0.4])))
    barrier = threading.Barrier(nthreads)
    results = [[] for _ in range(nthreads)]

    def body(i):
        barrier.wait()
        sw.start(i)
        try:
            for name, fn, want, t in work[i]:
                try:
                    results[i].append(fn())
                except Exception as e:  # noqa: BLE001
                    results[i].append(e)
        finally:
            sys.settrace(None)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ths = [threading.Thread(target=body, args=(i,)) for i in range(nthreads)]
        for t in ths:
            t.start()
        for t in ths:
            t.join(300)
        alive = [t for t in ths if t.is_alive()]
    finally:
        sys.setswitchinterval(old)
    ctx.expect(not alive, "a thread never finished")
    ctx.count("forced_switches", sw.switches)
    for i in range(nthreads):
        for (name, fn, want, t), got in zip(work[i], results[i]):
            ctx.count("thread_calls")
            if isinstance(got, Exception):
                raise Violation(f"{name} raised {type(got).__name__} in a thread: {got}", threads=nthreads, fresh=fresh)
            if t is None:
                ctx.expect(got[0] == want[0] and sorted(got[1]) == sorted(want[1]), f"{name} in a thread", threads=nthreads, fresh=fresh)
            else:
                ctx.close(got, want, t, f"{name} in a thread", threads=nthreads, fresh=fresh)
    for a in range(0, len(sw.log) - 3, 4):
        ctx.seen(tuple(sw.log[a:a + 4]))
    ctx.sample(threads=nthreads, fresh=fresh, switches=sw.switches, trace=str(sw.log[:3]))


def shared_result(ctx, rng):
    """Backpropagation from several threads through poses computed on one shared model, different robots at the same time."""
    bots = []
    for _ in range(3):
        r = gen.robot(rng, n=int(rng.integers(3, 8)), min_joints=1)
        bots.append((r, gen.to_chain(r)))
    jobs = []
    for i in range(6):
        r, c = bots[i % 3]
        q = gen.configs(rng, r.n, 2)
        f = r.frames[-1].name
        W = rng.standard_normal((4, 4))
        jobs.append((r, c, q, f, W, np.stack([(r.dfk(x, f) * W).sum((1, 2)) for x in q])))
    sw = Switcher(int(rng.integers(1 << 30)), 0.15)
    barrier = threading.Barrier(len(jobs))
    res = [None] * len(jobs)

    def body(i):
        r, c, q, f, W, _ = jobs[i]
        barrier.wait()
        sw.start(i)
        try:
            for _ in range(2):
                x = torch.tensor(q, requires_grad=True)
                (c.forward_kinematics(x)[f].get_matrix() * torch.tensor(W)).sum().backward()
                res[i] = x.grad
        except Exception as e:  # noqa: BLE001
            res[i] = e
        finally:
            sys.settrace(None)

    ths = [threading.Thread(target=body, args=(i,)) for i in range(len(jobs))]
    [t.start() for t in ths]
    [t.join(300) for t in ths]
    ctx.count("forced_switches", sw.switches)
    for (r, c, q, f, W, want), got in zip(jobs, res):
        ctx.count("thread_calls")
        if not torch.is_tensor(got):
            raise Violation(f"backward raised in a thread: {got!r}")
        ctx.close(got, want, 1000 * gen.tol(r, q), "gradient in a thread")
    for a in range(0, len(sw.log) - 3, 4):
        ctx.seen(tuple(sw.log[a:a + 4]))


FAMILIES = [("stress", stress), ("stress", stress), ("shared_result", shared_result)]
