"""Rules about parameters, regions and the typestate of parameters (C01-C04, C10)"""
import ast

from ..check import Unknown, changes, implied, table
from ..terms import FALSE, NONE, T, TRUE, const, contains, is_const, mk, show, sub, walk
from .util import *

PARAM = "openscm.core.parameters._Parameter"
PTYPE = "openscm.core.parameters.ParameterType"
ERR = "openscm.errors."


def child_creation(ctx):
    """A child parameter is only added below a parameter which was neither read nor written"""
    rule = "C01.child-creation"
    f = ctx.p.need_function(PARAM + ".get_or_create_child_parameter")
    outs = ctx.run(f.qualname)
    me = self_of(PARAM)
    name = param(ctx, f, 1)
    kids = attr(me, "children")
    exists = mk("not", mk("isnone", mk("dget", kids, name)))
    atoms = {"exists": exists, "written": btruth(attr(me, "has_been_written_to")), "read": btruth(attr(me, "has_been_read_from"))}

    def expect(case, o):
        added = [e for e in o.events if e.kind == "setitem" and e.a[0] is kids or e.kind == "setitem" and e.a[0] is me]
        if case["exists"]:
            if o.kind != "return":
                return "an existing child cannot be accessed"
            if added or changes(o, me):
                return "access to an existing child changes the parent"
            if o.value is not mk("dget", kids, name):
                return "access to an existing child gives something else"
            return True
        if case["written"]:
            return raises(o, ERR + "ParameterWrittenError") or no_effect(o, kids, added)
        if case["read"]:
            return raises(o, ERR + "ParameterReadError") or no_effect(o, kids, added)
        if o.kind != "return":
            return "a child of an unused parameter cannot be created"
        if len(added) != 1 or added[0].a[1] is not name:
            return "the child is not added under its name"
        new = added[0].a[2]
        if new is not o.value:
            return "the child which is added is not the one which is returned"
        if new.op != "new" or new.args[0] != PARAM:
            raise Unknown("the child is not a new parameter")
        want = {"name": name, "parent": me, "region": attr(me, "region"), "has_been_read_from": FALSE,
                "has_been_written_to": FALSE, "version": const(0), "unit": NONE, "parameter_type": NONE}
        return fields_equal(o, new, want)

    table(ctx, rule, f.qualname, outs, atoms, expect, ctx.loc(f))


def write_guard(ctx):
    """A parameter with children is never written to; write access is recorded"""
    rule = "C01.write-guard"
    f = ctx.p.need_function(PARAM + ".attempt_write")
    outs = ctx.run(f.qualname)
    me = self_of(PARAM)
    kids = nonempty(attr(me, "children"))
    pt = param(ctx, f, 1)
    untyped = mk("isnone", attr(me, "parameter_type"))

    def expect(case, o):
        if case["children"]:
            return raises(o, ERR + "ParameterReadonlyError") or (
                True if not changes(o, me) else "a rejected write changes the parameter")
        if o.kind == "raise":
            if changes(o, me).get("has_been_written_to") is not None:
                return "a rejected write marks the parameter as written"
            return None
        if changes(o, me).get("has_been_written_to") is not TRUE:
            return "an accepted write does not mark the parameter as written"
        return True

    table(ctx, rule, f.qualname, outs, {"children": kids}, expect, ctx.loc(f))


def read_marks(ctx):
    rule = "C01.read-marks"
    f = ctx.p.need_function(PARAM + ".attempt_read")
    outs = ctx.run(f.qualname)
    me = self_of(PARAM)

    def expect(case, o):
        if o.kind == "raise":
            if "has_been_read_from" in changes(o, me):
                return "a rejected access marks the parameter as read"
            return True
        if changes(o, me).get("has_been_read_from") is not TRUE:
            return "an access does not mark the parameter as read (children could be added later on)"
        return True

    table(ctx, rule, f.qualname, outs, {}, expect, ctx.loc(f))


VIEWS = ["openscm.core.views.ScalarView", "openscm.core.views.TimeseriesView", "openscm.core.views.GenericView"]
WRITERS = [
    ("openscm.core.views.ScalarView.value.setter", "_parameter"),
    ("openscm.core.views.GenericView.value.setter", "_parameter"),
    ("openscm.core.views.TimeseriesView.values.setter", "_parameter"),
    ("openscm.core.views.TimeseriesView.unlock", "_parameter"),
    ("openscm.core.views._Timeseries.__setitem__", "_parameter_view._parameter"),
]


def writes_are_guarded(ctx):
    """Every path which stores data in a parameter has seen that it has no children, or
    goes through a view which has obtained write access before"""
    rule = "C01.writes-guarded"
    for q, path in WRITERS:
        ctx.guard(rule, q, _writes_are_guarded, ctx, rule, q, path)


def _writes_are_guarded(ctx, rule, q, path):
    f = ctx.p.need_function(q)
    outs = ctx.run(q)
    me = self_of(f.cls.qualname)
    par = me
    for x in path.split("."):
        par = attr(par, x)
    owner = par.args[0]
    kids = attr(par, "children")
    n = 0
    for o in outs:
        stores = [i for i, e in enumerate(o.events) if e.kind == "setattr" and e.a[1] == "data" and e.a[0] is par]
        if not stores:
            continue
        n += 1
        _marked(ctx, rule + ".marked", q, o, stores[0], par, owner)
        # facts known at the time of the store
        if implied(o, nonempty(kids)) is False:
            ctx.holds(rule, q)
            continue
        flag = btruth(attr(owner, "_writable"))
        if implied(o, flag) is True:
            ctx.holds(rule, q)
            continue
        if any("children" in fields_of_atom(a) for a, _ in o.order) and implied(o, nonempty(kids)) is None:
            ctx.unk(rule, q, "guard is not understood: " + show(mk("x", *[a for a, _ in o.order])))
            continue
        ctx.bad(rule, q, "data is stored in a parameter which can have children: " + desc(o), o.events[stores[0]].loc)
    # the certificate
    for o in outs:
        for i, e in enumerate(o.events):
            if e.kind == "setattr" and e.a[1] == "_writable" and e.a[0] is owner and e.a[2] is not FALSE:
                before = [x for x in o.events[:i] if x.kind == "setattr" and x.a[0] is par and x.a[1] == "has_been_written_to"]
                if implied(o, nonempty(kids)) is False and before:
                    ctx.holds(rule + ".certificate", q)
                elif any("children" in fields_of_atom(a) for a, _ in o.order) and implied(o, nonempty(kids)) is None:
                    ctx.unk(rule + ".certificate", q, "guard is not understood")
                else:
                    ctx.bad(rule + ".certificate", q, "view is made writable without write access to the parameter: " + desc(o), e.loc)
    # rejected: item assignment etc. on aggregated parameters
    for o in outs:
        if o.kind == "return" and implied(o, nonempty(kids)) is True:
            if q.endswith("unlock"):
                continue
            ctx.bad(rule + ".rejected", q, "writing to an aggregated parameter is accepted: " + desc(o), ctx.loc(f))
    if not n:
        ctx.unk(rule, q, "no path stores data")


def _marked(ctx, rule, q, o, at, par, owner):
    """What stores data has marked the parameter as written, so that no children are added"""
    mark = attr(par, "has_been_written_to")
    if implied(o, btruth(attr(owner, "_writable"))) is True or implied(o, btruth(mark)) is True:
        return ctx.holds(rule, q)
    sets = [e.a[2] for e in o.events if e.kind == "setattr" and e.a[0] is par and e.a[1] == "has_been_written_to"]
    if sets and sets[-1] is TRUE:
        ctx.holds(rule, q)
    elif sets and not is_const(sets[-1]):
        ctx.unk(rule, q, "mark %s" % show(sets[-1]))
    else:
        ctx.bad(rule, q, "data is stored in a parameter which is not marked as written, children can still be added: " + desc(o), o.events[at].loc)


def who_may_store(ctx):
    """Only parameters add children, and only attempt_* record accesses"""
    rule = "C01.who-may"
    for q, f in sorted(ctx.p.functions.items()):
        if not q.startswith("openscm.core") or f.cls is None:
            continue
    n = 0
    for mod in ctx.p.modules.values():
        for fq, node in iter_functions(mod):
            for x in ast.walk(node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in ("has_been_read_from", "has_been_written_to"):
                    n += 1
                    ok = True
                    par = parents(node).get(x)
                    if isinstance(par, (ast.Assign, ast.AnnAssign)) and isinstance(par.value, ast.Constant) and par.value.value is False:
                        ok = constructing(ctx, fq)
                    if ok:
                        ctx.holds(rule, fq + "." + x.attr)
                    else:
                        ctx.bad(rule, fq + "." + x.attr, "a record of an access is taken back", (mod.path, x.lineno, fq))
    if not n:
        ctx.unk(rule, "has_been_written_to", "no store found")


RULES = {
    "C01": {
        "rules": [child_creation, write_guard, read_marks, writes_are_guarded, who_may_store],
        "explain": "Typestate of parameters: all paths (callees of the package inlined) through child creation, "
        "read and write access and through every view operation which stores data are enumerated and checked "
        "against a decision table (children / written / read); stores of the typestate flags are who-may-write checked.",
    },
}
