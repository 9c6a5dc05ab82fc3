"""Obligations, three valued verdicts, evidence and command line of the checks."""
import itertools
import json
import os
import signal
import sys
import time
import traceback

from .interp import Interp, Outcome, State, exc_name
from .project import AnchorLost, Project, Undecided
from .terms import T, contains, is_const, mk, show, walk

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOLDS, VIOLATED, UNDECIDED = "holds", "violated", "undecided"


class Finding:
    def __init__(self, rule, construct, status, msg, loc):
        self.rule = rule
        self.construct = construct
        self.status = status
        self.msg = msg
        self.loc = loc

    @property
    def key(self):
        return "%s|%s" % (self.rule, self.construct)


class Ctx:
    """State of one check run"""

    def __init__(self, project, tier="quick"):
        self.p = project
        self.tier = tier
        self.findings = []
        self.cache = {}
        self.functions = set()
        self.paths = 0
        self.calls = 0
        self.rules = {}
        self.strict = False
        self.tables = {}
        self.entries = []

    # -- analysis
    def run(self, qual, opaque=None, args=None, heap=None, facts=None, cls=None, max_states=4000, volatile=()):
        """Outcomes of an entry point; raises Undecided"""
        key = (qual, opaque, tuple(sorted((args or {}).items(), key=lambda x: x[0])), tuple((heap or {}).items()), tuple(facts or ()), cls, volatile)
        try:
            if key in self.cache:
                r = self.cache[key]
                if isinstance(r, Exception):
                    raise r
                return r
        except TypeError:
            key = None
        it = Interp(self.p, opaque, max_states=max_states, volatile=volatile)
        try:
            out = it.entry(qual, args, heap, facts, cls)
        except Undecided as e:
            r = Undecided("%s: %s" % (qual, e))
            self.cache[key] = r
            raise r
        except RecursionError:
            r = Undecided("%s: recursion" % qual)
            self.cache[key] = r
            raise r
        for o in out:
            o.it = it
        self.functions |= it.functions_seen
        self.paths += len(out)
        self.calls += it.calls_seen
        self.entries.append((qual, len(out)))
        self.cache[key] = out
        return out

    # -- verdicts
    def ob(self, rule, construct, status, msg="", loc=None):
        if isinstance(status, bool):
            status = HOLDS if status else VIOLATED
        if status is None:
            status = UNDECIDED
        self.findings.append(Finding(rule, construct, status, msg, loc))

    def holds(self, rule, construct):
        self.ob(rule, construct, HOLDS)

    def bad(self, rule, construct, msg, loc=None):
        self.ob(rule, construct, VIOLATED, msg, loc)

    def unk(self, rule, construct, msg, loc=None):
        self.ob(rule, construct, UNDECIDED, msg, loc)

    def guard(self, rule, construct, fn, *a):
        """Run a part of a rule; an analysis which does not succeed decides nothing"""
        n = len(self.findings)
        try:
            fn(*a)
        except AnchorLost as e:
            if not is_private(str(e)):
                raise
            del self.findings[n:]
            self.unk(rule, construct, "private %s does not exist any more" % e)
        except Undecided as e:
            del self.findings[n:]
            self.unk(rule, construct, str(e))
        except Exception as e:  # the analysis does not understand the code
            if self.strict:
                traceback.print_exc()
            del self.findings[n:]
            self.unk(rule, construct, "%s: %s" % (type(e).__name__, e))

    def loc(self, f):
        f = self.p.functions.get(f) or f
        if hasattr(f, "node"):
            return (f.module.path, f.node.lineno, f.qualname)
        return None


def is_private(q):
    return any(x.startswith("_") and not x.startswith("__") for x in q.split(" ")[-1].split("."))


# ---------------------------------------------------------------------- decision tables
class Unknown(Exception):
    """Raised by expectations: the value is built in a way which is not understood"""


def implied(o, atom):
    """True/False/None: does the path imply the atom?"""
    if is_const(atom):
        return bool(atom.args[1])
    if atom.op == "not":
        r = implied(o, atom.args[0])
        return None if r is None else not r
    if atom.op == "and":
        rs = [implied(o, x) for x in atom.args]
        if False in rs:
            return False
        return True if all(r is True for r in rs) else None
    if atom.op == "or":
        rs = [implied(o, x) for x in atom.args]
        if True in rs:
            return True
        return False if all(r is False for r in rs) else None
    return o.it.implied(o.st, atom)


def fields_of(t):
    """Names of fields, symbols mentioned in a term"""
    r = set()
    for x in walk(t):
        if x.op == "attr":
            r.add(x.args[1])
        elif x.op == "sym":
            r.add(x.args[0])
        elif x.op == "lv":
            r.add("$loop")
    r.discard("self")
    return r


def describe(o, limit=6):
    fs = ["%s%s" % ("" if v else "not ", show(a)) for a, v in o.order[:limit]]
    return "path [%s] -> %s %s" % ("; ".join(fs), o.kind, show(o.value) if o.kind == "return" else o.exc())


def table(ctx, rule, construct, outcomes, atoms, expect, loc=None, relevant=None, ignore=None):
    """Check each path against the expectation for all cases it is consistent with.

    atoms: {name: atom term}; expect(case: {name: bool}, outcome) -> None (do not care),
    True, or a text which says what is wrong.  `ignore(outcome)`: path is irrelevant.
    A path which depends on something not understood which is about the same
    fields as one of the atoms decides nothing."""
    names = list(atoms)
    vocab = set()
    for a in atoms.values():
        vocab |= fields_of(a)
    n = 0
    for o in outcomes:
        if ignore is not None and ignore(o):
            continue
        known = {}
        for k in names:
            known[k] = implied(o, atoms[k])
        free = [k for k in names if known[k] is None]
        extra = [a for a, _ in o.order if not any(a is atoms[k] or related(a, atoms[k]) for k in names)]
        for combo in itertools.product([True, False], repeat=len(free)):
            case = dict(known)
            case.update(zip(free, combo))
            try:
                r = expect(case, o)
            except Unknown as e:
                ctx.unk(rule, construct, "%s (%s)" % (e, describe(o)), loc)
                n += 1
                continue
            if r is None:
                continue
            n += 1
            if r is True:
                ctx.holds(rule, construct)
                continue
            blur = [a for a in extra if fields_of(a) & vocab] if free else []
            if blur:
                ctx.unk(rule, construct, "%s; depends on %s" % (r, "; ".join(show(x) for x in blur)), loc)
            else:
                ctx.bad(rule, construct, "%s: %s%s" % (r, describe(o), (" in case " + str({k: case[k] for k in free})) if free else ""), loc)
    if n == 0:
        ctx.unk(rule, construct, "no path is covered", loc)
    return n


def related(a, b):
    """Atoms about exactly the same quantity (an interpreted comparison of it)"""
    while a.op == "not":
        a = a.args[0]
    while b.op == "not":
        b = b.args[0]
    if a is b:
        return True
    if a.op == b.op == "lt" and a.args[0] is b.args[0]:
        return True
    if {a.op, b.op} <= {"eq", "isnone", "truth", "isinst"} and a.args[0] is b.args[0]:
        return True
    return False


def changes(o, obj=None):
    """Field writes of a path on objects which existed before: {(obj, field): last value}"""
    r = {}
    for e in o.events:
        if e.kind == "setattr" and not (e.a[0].op in ("new",)):
            r[(e.a[0], e.a[1])] = e.a[2]
    if obj is not None:
        return {f: v for (x, f), v in r.items() if x is obj}
    return r


def load_known():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return json.load(fh)


# ---------------------------------------------------------------------- command line
class TimeUp(BaseException):
    """The analysis takes too long: what it has decided by then counts"""


TIME_LIMIT = 700


def _time_up(sig, frame):
    raise TimeUp()


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=os.environ.get("VERIF_REPO", "/repo"))
    ap.add_argument("--strict", action="store_true", help="fail on undecided obligations (development)")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    sys.setrecursionlimit(20000)
    from . import registry

    pid = a.property
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    try:
        project = Project(a.repo)
    except SyntaxError as e:
        print("cannot parse the sources: %s" % e)
        return 2
    ctx = Ctx(project, tier)
    ctx.strict = a.strict
    meta = registry.PROPERTIES[pid]
    lost = None
    signal.signal(signal.SIGALRM, _time_up)
    signal.alarm(TIME_LIMIT)
    for fn in meta["rules"]:
        try:
            ctx.guard(fn.__name__, fn.__name__, fn, ctx)
        except AnchorLost as e:
            lost = str(e)
            break
        except TimeUp:
            ctx.unk(fn.__name__, fn.__name__, "the analysis takes too long")
            break
    signal.alarm(0)
    if lost:
        print("ANALYSIS BROKEN: property=%s a public entity the property is about is gone: %s" % (pid, lost))
        return 2
    known = {k["key"]: k for k in load_known() if k.get("property") == pid and k.get("status") == "known"}
    viol, kf, und, ok = [], [], [], 0
    seen = set()
    if meta.get("only"):
        ctx.findings = [f for f in ctx.findings if f.rule.split(".")[0] == pid or f.status == UNDECIDED]
    for f in ctx.findings:
        if f.status == HOLDS:
            ok += 1
        elif f.status == UNDECIDED:
            und.append(f)
        elif f.key in known:
            if f.key not in seen:
                kf.append(f)
            seen.add(f.key)
        else:
            viol.append(f)
    per_rule = {}
    for f in ctx.findings:
        d = per_rule.setdefault(f.rule, {HOLDS: 0, VIOLATED: 0, UNDECIDED: 0})
        d[f.status] += 1
    wall = time.time() - t0
    outdir = os.path.join(HERE, "evidence")
    uniq, vl = set(), []
    for f in viol:
        k = (f.key, f.msg)
        if k not in uniq:
            uniq.add(k)
            vl.append(f)
    report = os.path.join(outdir, "%s.violation.txt" % pid)
    if not a.no_evidence:
        os.makedirs(outdir, exist_ok=True)
        ev = {
            "property": pid,
            "tier": tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": meta["explain"],
                "entry_points": sorted({q for q, _ in ctx.entries}),
                "functions_analysed": sorted(ctx.functions),
                "functions": len(ctx.functions),
                "paths": ctx.paths,
                "call_sites_resolved": ctx.calls,
                "obligations": len(ctx.findings),
                "obligations_discharged": ok,
                "obligations_undecided": len(und),
                "undecided": sorted({"%s: %s" % (f.key, f.msg[:300]) for f in und})[:20],
                "rules": per_rule,
                "sources": len(project.modules),
            },
            "wall_s": round(wall, 3),
            "violations": len(vl),
            "violation_details": [
                {"rule": f.rule, "construct": f.construct, "what": f.msg[:2000], "where": fmt_loc(f.loc)} for f in vl
            ],
            "assumptions": meta.get("assumptions", []) + [
                "Behaviour of numpy, pandas, scipy, pint and the interpreter is as documented",
            ],
        }
        with open(os.path.join(outdir, pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        if os.path.exists(report):
            os.remove(report)
    for f in kf:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, f.construct, known[f.key]["what"]))
    print("%s: %d obligations, %d hold, %d undecided, %d violated; %d functions, %d paths, %.1f s" % (
        pid, len(ctx.findings), ok, len(und), len(viol), len(ctx.functions), ctx.paths, wall))
    if a.v or a.strict:
        for f in und:
            print("  undecided %s: %s" % (f.key, f.msg))
    if vl:
        lines = []
        for f in vl:
            lines.append("%s: rule %s, construct %s: %s" % (fmt_loc(f.loc), f.rule, f.construct, f.msg))
        if not a.no_evidence:
            with open(report, "w") as fh:
                fh.write("\n".join(lines) + "\n")
        for ln in lines[:12]:
            print("  " + ln[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, report))
        return 1
    if a.strict and und:
        return 3
    return 0


def fmt_loc(loc):
    if not loc:
        return "?"
    return "%s:%s (%s)" % loc
