"""Check driver: deterministic cases, three-valued verdicts, evidence, replay, known findings."""
import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback
import zlib
from collections import Counter

from .env import VERIF, np, torch

KNOWN = os.path.join(VERIF, "known_findings.json")


class Violation(Exception):
    def __init__(self, msg, key=None, **detail):
        super().__init__(msg)
        self.key = key
        self.detail = detail


class Ctx:
    """What a case sees: observation counters and the oracle primitives."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.counters = Counter()
        self.distinct = set()
        self.samples = []
        self.maxerr = {}

    def rng(self, index):
        return np.random.default_rng([self.seed, zlib.crc32(self.prop.encode()), index])

    def count(self, name, n=1):
        self.counters[name] += int(n)

    def seen(self, *sig):
        self.distinct.add(hashlib.blake2b(repr(sig).encode(), digest_size=8).hexdigest())
        if not self.samples:
            self.sample(situation=str(sig))

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append({k: (v if isinstance(v, (int, float, str, bool, type(None))) else str(v)[:200]) for k, v in kw.items()})

    # ---- oracle primitives -------------------------------------------------------------
    def expect(self, cond, msg, **detail):
        self.counters["oracle_evaluations"] += 1
        if not cond:
            raise Violation(msg, **detail)

    def close(self, got, want, tol, msg, **detail):
        """|got - want| <= tol element-wise (tol scalar or array); shapes and finiteness must agree."""
        self.counters["oracle_evaluations"] += 1
        g = got.detach().cpu().numpy() if torch.is_tensor(got) else np.asarray(got)
        w = want.detach().cpu().numpy() if torch.is_tensor(want) else np.asarray(want)
        if g.shape != w.shape:
            raise Violation(f"{msg}: shape {g.shape} instead of {w.shape}", **detail)
        if g.size == 0:
            return
        g = g.astype(np.float64)
        w = w.astype(np.float64)
        same = (g == w) | (np.isnan(g) & np.isnan(w))
        with np.errstate(invalid="ignore"):
            d = np.abs(g - w)
        bad = ~(d <= tol) & ~same
        if bad.any():
            k = np.unravel_index(int(np.argmax(np.where(bad, np.nan_to_num(d, nan=np.inf), -1))), g.shape)
            raise Violation(f"{msg}: {g[k]!r} instead of {w[k]!r} at {tuple(int(x) for x in k)} "
                            f"({int(bad.sum())}/{g.size} entries off, tol {np.max(tol):.3g})", **detail)
        e = np.nanmax(np.where(same, 0, d / np.broadcast_to(tol, d.shape))) if np.all(np.asarray(tol) > 0) else 0
        name = msg.split(" [")[0][:60]
        self.maxerr[name] = max(self.maxerr.get(name, 0.0), float(e))

    def refused(self, fn, msg, **detail):
        """fn must raise (any ordinary exception); returning a result is a violation."""
        self.counters["oracle_evaluations"] += 1
        try:
            r = fn()
        except RecursionError:
            return
        except Exception:
            self.counters["refusals_observed"] += 1
            return
        raise Violation(f"{msg}: accepted, returned {str(r)[:160]}", **detail)


def _load_known():
    if not os.path.exists(KNOWN):
        return []
    return json.load(open(KNOWN))["known"]


def _describe(e):
    return {"type": type(e).__name__, "message": str(e)[:2000], "key": getattr(e, "key", None),
            "detail": {k: str(v)[:1500] for k, v in getattr(e, "detail", {}).items()},
            "traceback": traceback.format_exc()[-4000:]}


def run_case(mod, ctx, index):
    """Returns None or a violation description.  Families are visited round-robin."""
    fams = mod.FAMILIES
    name, fn = fams[index % len(fams)]
    rng = ctx.rng(index)
    torch.manual_seed(int(rng.integers(2 ** 31)))
    ctx.count("cases." + name)
    try:
        fn(ctx, rng)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Inconclusive:
        ctx.count("inconclusive." + name)
        return None
    except Exception as e:  # noqa: BLE001 - an unexpected exception on valid input is an observation too
        d = _describe(e)
        d.update(family=name, case=index)
        return d
    return None


class Inconclusive(Exception):
    """A case could not be decided (for instance a numerically ambiguous draw)."""


def _shard(prop, tier, seed, k, n, cases, deadline):
    mod = importlib.import_module(f"pkverif.checks.{prop.lower()}")
    ctx = Ctx(prop, tier, seed)
    t0 = time.time()
    viols = []
    last = 0
    for i in range(k, cases, n):
        v = run_case(mod, ctx, i)
        last = i
        if v is not None:
            viols.append(v)
            if len(viols) >= 3:
                break
        if time.time() - t0 > deadline:
            ctx.count("time_capped")
            break
    probes = []
    if k == 0:
        for pname, fn in getattr(mod, "PROBES", []):
            ctx.count("probes")
            try:
                fn(ctx, ctx.rng(10 ** 6))
                probes.append({"key": pname, "ok": True})
            except Exception as e:  # noqa: BLE001
                probes.append({**_describe(e), "key": pname, "ok": False})
    return {"counters": dict(ctx.counters), "distinct": sorted(ctx.distinct), "samples": ctx.samples, "maxerr": ctx.maxerr,
            "violations": viols, "probes": probes, "last": last}


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("PKVERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--shard")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--out")
    ap.add_argument("--deadline", type=float)
    a = ap.parse_args(argv)
    prop = a.property.upper()
    mod = importlib.import_module(f"pkverif.checks.{prop.lower()}")
    if a.replay:
        return replay(prop, mod, a.replay)
    cfg = mod.CONFIG[a.tier]
    cases = a.cases or cfg["cases"]
    deadline = a.deadline or (420 if a.tier == "quick" else min(780, cfg.get("seconds", 780)))
    if a.shard:
        k, n = map(int, a.shard.split("/"))
        r = _shard(prop, a.tier, a.seed, k, n, cases, deadline)
        json.dump(r, open(a.out, "w"))
        return 0
    t0 = time.time()
    jobs = a.jobs or cfg.get("jobs", 4 if a.tier == "quick" else 8)
    if jobs == 1:
        results = [_shard(prop, a.tier, a.seed, 0, 1, cases, deadline)]
    else:
        tmp = tempfile.mkdtemp(prefix="pkverif_")
        procs = []
        for k in range(jobs):
            out = os.path.join(tmp, f"{k}.json")
            cmd = [sys.executable, os.path.join(VERIF, "run.py"), "--property", prop, "--tier", a.tier, "--seed", str(a.seed),
                   "--shard", f"{k}/{jobs}", "--out", out, "--cases", str(cases), "--deadline", str(deadline)]
            procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), out))
        results, bad = [], []
        for pr, out in procs:
            try:
                _, err = pr.communicate(timeout=deadline + 400)
            except subprocess.TimeoutExpired:
                pr.kill()
                _, err = pr.communicate()
                bad.append("watchdog")
            if pr.returncode != 0 or not os.path.exists(out):
                bad.append(f"shard exit {pr.returncode}: {err.decode(errors='replace')[-1500:]}")
            else:
                results.append(json.load(open(out)))
                os.remove(out)
        os.rmdir(tmp) if not os.listdir(tmp) else None
        if bad and not any(r["violations"] for r in results):
            print("inconclusive: " + "\n".join(bad), file=sys.stderr)
            return 2
    return conclude(prop, mod, a, cases, results, time.time() - t0)


def conclude(prop, mod, a, cases, results, wall):
    cnt = Counter()
    distinct = set()
    samples, viols, probes, maxerr = [], [], [], {}
    for r in results:
        cnt.update(r["counters"])
        distinct.update(r["distinct"])
        samples += r["samples"]
        viols += r["violations"]
        probes += r["probes"]
        for k, v in r["maxerr"].items():
            maxerr[k] = max(maxerr.get(k, 0.0), v)
    known = {(k["property"], k["key"]): k for k in _load_known()}
    findings = []
    for pr in probes:
        if pr["ok"]:
            continue
        if (prop, pr["key"]) in known:
            findings.append(pr["key"])
            print(f"KNOWN-FINDING: property={prop} {known[(prop, pr['key'])]['what']}")
        else:
            viols.append({**pr, "family": "probe", "case": None})
    total = cnt["oracle_evaluations"]
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": total, "distinct_nontrivial": len(distinct), "rule": mod.RULE,
                       "samples": samples[:6], "cases": sum(v for k, v in cnt.items() if k.startswith("cases.")),
                       "observed": {k: v for k, v in sorted(cnt.items())},
                       "largest_error_over_tolerance": {k: round(v, 4) for k, v in sorted(maxerr.items(), key=lambda kv: -kv[1])[:8]},
                       "known_findings_observed": findings},
          "wall_s": round(wall, 2), "violations": len(viols),
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
              "held on the executions observed, not proved", "CPU only; reference model in pkverif/ref.py (numpy float64) is trusted"]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viols:
        viols.sort(key=lambda v: (v["case"] is None, v["case"] or 0))
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for j, v in enumerate(viols[:3]):
            path = os.path.join(VERIF, "replays", f"{prop}_{a.tier}_{a.seed}_{v['case'] if v['case'] is not None else v.get('key')}.json")
            json.dump({"property": prop, "tier": a.tier, "seed": a.seed, **v}, open(path, "w"), indent=1)
            print(f"  [{v['family']} case {v['case']}] {v['type']}: {v['message'][:400]}")
            if v["type"] != "Violation":
                print("    " + v["traceback"].strip().replace("\n", "\n    ")[-1500:])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    inc = sum(v for k, v in cnt.items() if k.startswith("inconclusive."))
    short = {k: (cnt[k], m) for k, m in mod.CONFIG["quick"].get("min", {}).items() if cnt[k] < m} if not a.cases else {}
    if total == 0 or short or inc > 0.5 * max(1, sum(v for k, v in cnt.items() if k.startswith("cases."))):
        print(f"inconclusive: the deciding oracle was reached too rarely: evaluations={total} short={short} undecided={inc}", file=sys.stderr)
        return 2
    print(f"{prop} held on {total} oracle evaluations, {len(distinct)} distinct situations, "
          f"{ev['coverage']['cases']} cases ({a.tier}, seed {a.seed}, {wall:.1f}s)")
    return 0


def replay(prop, mod, path):
    r = json.load(open(path))
    ctx = Ctx(prop, r["tier"], r["seed"])
    if r["case"] is None:
        for pname, fn in mod.PROBES:
            if pname == r["key"]:
                try:
                    fn(ctx, ctx.rng(10 ** 6))
                except Exception as e:  # noqa: BLE001
                    print(f"{type(e).__name__}: {e}")
                    print(f"VIOLATION property={prop} replay={path}")
                    return 1
        print("replay: no violation")
        return 0
    v = run_case(mod, ctx, r["case"])
    if v:
        print(f"[{v['family']}] {v['type']}: {v['message']}\n{json.dumps(v['detail'], indent=1)}\n{v['traceback']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("replay: no violation")
    return 0
