"""Check harness: obligations, verdicts, known findings, evidence."""
import ctypes
import json
import os
import sys
import time
import traceback
import numpy as onp
from . import terms as T
from . import compare as C
from . import lin
from . import interp
from .repo import Repo, loc
from .interp import Interp, Undecided, Anchor, Raised, Arr, PyList, PyDict, Obj, Gated, Builtin

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.repo = Repo(REPO)
        self.violations = []      # (key, where, text)
        self.known = []
        self.undecided = []
        self.discharged = 0
        self.obligations = 0
        self.analysed = set()
        self.rules = []
        self.samples = {}
        self.kf = load_known(pid)
        self.facts = ()
        self.cur = ""
        self.seen_opaque = set()
        self.keys = []            # obligations, as they are decided

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -------------------------------------------------------------- building
    def interp(self, facts=(), **kw):
        I = Interp(self.repo, facts, **kw)
        I.ctx = self
        return I

    def rule(self, text):
        self.rules.append(text)

    # -------------------------------------------------------------- verdicts
    def violate(self, key, where, text, defect=None):
        """defect: name of the documented defective form the code matches"""
        if defect is not None and defect in self.kf:
            if defect not in [k for k, _ in self.known]:
                self.known.append((defect, self.kf[defect]))
            return
        self.violations.append((key, where, text))
        if C.DEADLINE[0] and self.tier == "quick":          # the verdict is known: collect a few more, then stop
            C.DEADLINE[0] = interp.END[0] = min(C.DEADLINE[0], time.time() + 60)

    def ok(self, key):
        self.discharged += 1
        self.keys.append("%s: %s" % (self.cur, key))

    def require(self, key, cond, where, text, defect=None):
        self.obligations += 1
        if cond:
            self.ok(key)
        elif not self._foreign_section(key):
            self.violate(key, where, text, defect)
        return cond

    def _foreign_section(self, key):
        """a structural difference after a library call the engine has no model of decides nothing"""
        new = sorted(set(interp.OPAQUE) - self.seen_opaque - QUIET)
        new = [n for n in new if not n.startswith("call:matplotlib.")]
        if new:
            self.undecided.append((key, "library call without a model: %s at %s" % (new[0], interp.OPAQUE[new[0]])))
        return bool(new)

    def equal(self, key, where, got, want, facts=(), boundary=True, known=None, **kw):
        """value graphs must agree. known: {defect name: defective value}"""
        self.obligations += 1
        facts = tuple(self._lits(facts))
        try:
            got_l = self.flat(got)
            want_l = self.flat(want)
            if len(got_l) != len(want_l):
                if self._foreign_section(key):
                    return None
                self.violate(key, where, "%s: %d values where %d are required" % (key, len(got_l), len(want_l)))
                return False
            mm = []
            for k, (g, w) in enumerate(zip(got_l, want_l)):
                for m in C.mismatches(g, w, facts, boundary, limit=1, **kw):
                    mm.append((k, m))
                if mm:
                    break
            if not mm:
                self.ok(key)
                return True
            for name, bad in (known or {}).items():
                bl = self.flat(bad)
                if len(bl) == len(got_l) and not any(C.mismatches(g, w, facts, boundary, limit=1) for g, w in zip(got_l, bl)):
                    self.violate(key, where, "", defect=name)
                    if name in self.kf:
                        return True
            k, m = mm[0]
            lib = foreign(got_l[k], want_l[k])
            if lib:
                self.undecided.append((key, "library call without a model: %s" % lib))
                return None
            self.violate(key, where, "%s [component %d]: %s" % (key, k, m.text()))
            return False
        except C.Budget:
            self.undecided.append((key, "case-split budget exhausted"))
            return None

    def holds(self, key, where, cond, facts=(), text="", boundary=True, defect=None):
        """boolean value graph must be true wherever the facts hold"""
        self.obligations += 1
        bad = C.mismatches(cond, T.TRUE, tuple(self._lits(facts)), boundary, limit=1)
        if not bad:
            self.ok(key)
            return True
        m = bad[0]
        lib = foreign(cond, T.TRUE)
        if lib:
            self.undecided.append((key, "library call without a model: %s" % lib))
            return None
        reg = " and ".join(("" if v else "not ") + T.show_atom(c) for c, v in m.lits)
        self.violate(key, where, "%s: %s fails when %s" % (key, text, C.clip(reg, 700)), defect)
        return False

    def _lits(self, facts):
        out = []
        from .interp import add_lits
        for f in facts:
            if isinstance(f, tuple):
                out.append(f)
            else:
                out += [l for l in add_lits((), f) if l not in out]
        return out

    def flat(self, v):
        if isinstance(v, T.V):
            return [v]
        if isinstance(v, onp.ndarray):
            return [x for x in v.reshape(-1)]
        if isinstance(v, (list, tuple)):
            r = []
            for x in v:
                r += self.flat(x)
            return r
        if isinstance(v, (int, float, bool)):
            return [T.lift(v)]
        if v is None:
            return [T.NONE]
        raise Undecided("value of type %s" % type(v).__name__)

    def section(self, name, fn, *a, **kw):
        """run one group of obligations; imprecision never becomes an alarm"""
        self.cur = name
        if C.DEADLINE[0] and time.time() > C.DEADLINE[0]:
            self.undecided.append((name, "time budget of the run exhausted"))
            return
        self.seen_opaque = set()
        interp.OPAQUE.clear()
        t0 = time.time()
        try:
            BUSY[0] = True
            fn(self, *a, **kw)
            BUSY[0] = False
        except TimeUp:
            BUSY[0] = False
            self.obligations += 1
            self.undecided.append((name, "time budget of the run exhausted"))
        except Definite as e:
            self.obligations += 1
            if not self._foreign_section(name):
                self.violate(name, e.where, "%s: %s" % (name, e))
        except Undecided as e:
            self.obligations += 1
            self.undecided.append((name, str(e)))
        except Anchor as e:
            self.obligations += 1
            self.undecided.append((name, "anchor: %s" % e))
        except Exception as e:
            self.obligations += 1
            self.undecided.append((name, "engine: %s" % traceback.format_exc(limit=-3)))
        BUSY[0] = False
        self.samples.setdefault("section_seconds", {})[name] = round(time.time() - t0, 2)


QUIET = {"call:numba.typeof", "callv attr"}


def foreign(got, want):
    """name of a library call without a model that the value depends on"""
    names = {n for n in interp.OPAQUE if n.startswith("call:")} | {"callv"}
    for a in T.deps(got) - T.deps(want):
        a = T.A(a) if isinstance(a, int) else a
        if a.op == "app" and a.args and (a.args[0] in names or str(a.args[0]).startswith("str.")):
            return a.args[0]
    return None


BUSY = [False]


class TimeUp(BaseException):
    """raised inside a section when the time of the run is over"""


def interrupt(thread):
    """end the running section of a run whose time is over (called from another thread)"""
    if BUSY[0] and C.DEADLINE[0] and time.time() > C.DEADLINE[0] + 5:
        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(thread.ident), ctypes.py_object(TimeUp))


class Definite(Exception):
    def __init__(self, msg, where=""):
        Exception.__init__(self, msg)
        self.where = where


def load_known(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                d = line[6:].strip()
                parts = d.split(None, 2)
                if parts[0] == "property=" + pid and parts[1].startswith("key="):
                    out[parts[1][4:]] = parts[2] if len(parts) > 2 else ""
    return out


def main(pid, mod, tier):
    t0 = time.time()
    ctx = Ctx(pid, tier)
    C.DEADLINE[0] = t0 + float(os.environ.get("SA_SECONDS", 480 if tier == "quick" else 3400))
    interp.END[0] = C.DEADLINE[0]
    C.PATIENCE[0] = 60 if tier == "quick" else 600
    if interp.COVER is not None:
        import atexit
        atexit.register(lambda: open(os.environ["SA_COVER"], "a").write("".join("%s\n" % x for x in sorted(interp.COVER))))
    if os.environ.get("SA_OPAQUE"):
        import atexit
        atexit.register(lambda: open(os.environ["SA_OPAQUE"], "a").write("".join("%s\t%s\t%s\n" % (pid, k, v) for k, v in sorted(interp.OPAQUE.items()))))
    ev = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    err = None
    try:
        mod.check(ctx)
    except TimeUp:
        ctx.undecided.append(("run", "time budget of the run exhausted"))
    except Anchor as e:
        err = "anchor: %s" % e
    except Exception:
        err = traceback.format_exc()
    for k, d in ctx.known:
        print("KNOWN-FINDING: property=%s [%s] %s" % (pid, k, d))
    for k, r in ctx.undecided:
        print("UNDECIDED property=%s %s: %s" % (pid, k, r))
    rep = os.path.join(ev, "replay_%s.txt" % pid)
    if ctx.violations:
        with open(rep, "w") as f:
            f.write("property %s violated on %s\n" % (pid, REPO))
            for k, w, t in ctx.violations:
                f.write("\n[%s] at %s\n%s\n" % (k, w, t))
            f.write("\nre-run: python3-vt /verif/check.py %s\n" % pid)
        for k, w, t in ctx.violations[:8]:
            print("  [%s] at %s\n    %s" % (k, w, t))
    elif os.path.exists(rep):
        os.unlink(rep)
    rec = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": getattr(mod, "EXPLANATION", ""),
            "rules": ctx.rules,
            "obligations": ctx.obligations, "discharged": ctx.discharged,
            "undecided": [{"obligation": k, "reason": r} for k, r in ctx.undecided],
            "known_findings": [k for k, _ in ctx.known],
            "functions_analysed": sorted("%s:%s" % x for x in ctx.analysed),
            "modules_parsed": len(ctx.repo.modules),
            "section_seconds": ctx.samples.get("section_seconds", {}),
            "samples": ctx.keys[:3] + ctx.keys[-3:],
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "violations": len(ctx.violations),
    }
    rec["coverage"]["violations"] = [{"key": k, "where": w, "text": t[:1500]} for k, w, t in ctx.violations]
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(rec, f, indent=1)
    print("%s: %d obligations, %d discharged, %d violations, %d known, %d undecided, %.1fs" % (
        pid, ctx.obligations, ctx.discharged, len(ctx.violations), len(ctx.known), len(ctx.undecided), time.time() - t0))
    if ctx.violations:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        if err:
            print(err, file=sys.stderr)
        return 1
    if err:
        print("ERROR property=%s" % pid)
        print(err, file=sys.stderr)
        return 2
    if ctx.discharged == 0 or len(ctx.undecided) > ctx.discharged:
        print("ERROR property=%s no verdict" % pid)
        return 2
    return 0
