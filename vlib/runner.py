"""Common machinery of all checks: scenario generation, replay in parallel, trace validation, verdict."""
import copy
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback
from multiprocessing import get_context

from . import tlc

ROOT = tlc.ROOT
SCN_CFG = 'CONSTANT Profile = "%s"\nSPECIFICATION Spec\nINVARIANTS TypeOK NeverBlocked WellFormed\nCHECK_DEADLOCK FALSE\n'


class Broken(Exception):
    """The check itself cannot give an answer."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.viol, self.notes = [], [], {}
        self.assume = []
        self._pool = None

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # ---- TLC ------------------------------------------------------------------------
    def tlc(self, module, cfg, **kw):
        r = tlc.run(module, cfg, self.work, seed=self.seed + kw.pop("seedoff", 0), **kw)
        self.states += r.distinct
        self.transitions += r.generated
        return r

    def scenarios(self, profile, n, seedoff=0):
        r = self.tlc("Scenario", SCN_CFG % profile, simulate=n, depth=30, seedoff=seedoff)
        out = r.prints("SCN")
        if len(out) < n:
            raise Broken("only %d of %d scenarios" % (len(out), n))
        return out[:n]

    def explore_scenarios(self):
        """Exhaustive exploration of the scenario machine on reduced domains."""
        r = self.tlc("Scenario", SCN_CFG % "tiny", workers=4)
        self.note("scenario_machine_states", r.distinct)

    # ---- replay ---------------------------------------------------------------------
    def pmap(self, fn, items, chunk=None):
        items = list(items)
        if self._pool is None:
            self._pool = get_context("fork").Pool(8)
        chunk = chunk or max(1, min(32, len(items) // 64))
        return self._pool.map(Guard(fn), items, chunksize=chunk)

    def replay(self, fn, items, chunk=None):
        """Run fn on every item; an exception out of the code under test is a violation."""
        res = []
        for it, (ok, r) in zip(items, self.pmap(fn, items, chunk)):
            if ok:
                res.append(r)
            else:
                self.violation(self.prop + ".raised", dict(item=jsonable(it), traceback=r))
        return res

    # ---- trace validation -------------------------------------------------------------
    def validate(self, module, records, canaries=(), cfg="SPECIFICATION Spec\n", count=None, timeout=800):
        """Feed recorded traces to a trace specification; returns the rejects of this property.

        canaries: deliberately corrupted recordings, every one of which must be rejected."""
        allrec = list(records) + list(canaries)
        if not allrec:
            return []
        path = os.path.join(self.work, "trace_%d.ndjson" % len(os.listdir(self.work)))
        with open(path, "w") as f:
            for r in allrec:
                f.write(json.dumps({k: v for k, v in r.items() if not k.startswith("_")}, separators=(",", ":")) + "\n")
        r = self.tlc(module, cfg, env={"TRACE": path}, timeout=timeout)
        rej = r.prints("REJECT")
        hit = {x["sid"] for x in rej}
        for k in range(len(records), len(allrec)):
            if k + 1 not in hit:
                raise Broken("corrupted recording %s was accepted by %s" % (allrec[k]["id"], module))
        self.traces += len(records)
        os.remove(path)
        out = []
        for x in rej:
            if x["sid"] <= len(records):
                x["record"] = records[x["sid"] - 1]
                out.append(x)
        return out

    def judge(self, rejects, clauses=None, describe=None):
        """Turn rejects whose clause belongs to this property into violations."""
        for x in rejects:
            if (clauses and x["clause"] in clauses) or (not clauses and x["clause"].startswith(self.prop + ".")):
                rec = x["record"]
                self.violation(x["clause"], dict(id=rec["id"], event=x.get("n"), about=rec.get("_about"),
                                                 observed=rec["ev"][x["n"] - 1] if "ev" in rec and x.get("n") else None))

    def violation(self, clause, detail):
        self.viol.append((clause, detail))

    def note(self, k, v):
        self.notes[k] = v

    def count(self, k, v=1):
        self.notes[k] = self.notes.get(k, 0) + v

    def close(self):
        if self._pool:
            self._pool.terminate()
            self._pool.join()
        shutil.rmtree(self.work, ignore_errors=True)


class Guard:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, it):
        try:
            return True, self.fn(it)
        except Exception:
            return False, traceback.format_exc(limit=12)


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        return repr(x)[:4000]


def corrupt(rec, path, delta=3000000, newid=None):
    """A copy of a recording with one integer field moved."""
    r = copy.deepcopy({k: v for k, v in rec.items() if not k.startswith("_")})
    r["id"] = newid or "canary"
    o = r
    for p in path[:-1]:
        o = o[p]
    o[path[-1]] += delta
    return r


def known_findings():
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    for line in open(p):
        line = line.strip()
        if line.startswith("known: "):
            d = dict(tok.split("=", 1) for tok in line[7:].split(" ", 2)[:2])
            d["what"] = line.split(" ", 3)[3]
            out.append(d)
    return out


def main(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("checks." + prop.lower())
    ctx = Ctx(prop, tier, seed)
    rc = 2
    try:
        mod.run(ctx)
        rc = finish(ctx, mod)
    except Exception:
        traceback.print_exc()
        print("ERROR: the check for %s could not be completed" % prop)
    finally:
        ctx.close()
    return rc


def finish(ctx, mod):
    wall = time.time() - ctx.t0
    known = [k for k in known_findings() if k["property"] == ctx.prop]
    new = []
    for clause, detail in ctx.viol:
        for k in known:
            if k.get("clause") == clause:
                print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k["what"]))
                break
        else:
            new.append((clause, detail))
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=getattr(mod, "LEVEL", "model_checking"),
              coverage=dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
                            samples=ctx.samples[:5], **ctx.notes),
              assumptions=ctx.assume + list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=len(new))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if not new:
        print("OK property=%s traces=%d states=%d wall=%.1fs" % (ctx.prop, ctx.traces, ctx.states, wall))
        return 0
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    seen = {}
    for clause, detail in new:
        seen.setdefault(clause, []).append(detail)
    for clause, ds in seen.items():
        path = os.path.join(rdir, "%s-%s.json" % (ctx.prop, clause.replace("/", "_")))
        with open(path, "w") as f:
            json.dump(dict(property=ctx.prop, clause=clause, seed=ctx.seed, tier=ctx.tier, count=len(ds), cases=ds[:10]), f, indent=1, default=str)
        print("%d rejection(s) of clause %s" % (len(ds), clause))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
    return 1
