"""Rules about information on parameters and regions (C12)"""
import ast

from ..check import changes, implied, table
from .names import PARAM, REGION
from .util import *

PINFO = "openscm.core.parameters.ParameterInfo"
ERR = "openscm.errors."


def information(ctx):
    rule = "C12.info"
    for name in ("parameter_type", "unit", "version"):
        ctx.guard(rule, PINFO + "." + name, _field, ctx, rule, PINFO + "." + name, name)
    ctx.guard(rule, PINFO + ".empty", _empty, ctx, rule, PINFO + ".empty")
    ctx.guard(rule, PINFO + ".ensure", _ensure, ctx, rule, PINFO + ".ensure")
    ctx.guard(rule, PINFO + ".__init__", _kept, ctx, rule, PINFO + ".__init__")


def quiet(ctx, rule, q, o, obj):
    ch = changes(o, obj)
    if ch:
        ctx.bad(rule, q, "asking for information changes %s of the parameter: %s" % (", ".join(sorted(ch)), desc(o)), ctx.loc(q))
        return False
    return True


def _field(ctx, rule, q, name):
    me = self_of(PINFO)
    par = attr(me, "_parameter")
    for o in ctx.run(q):
        if not quiet(ctx, rule, q, o, par):
            continue
        if o.kind != "return":
            ctx.bad(rule, q, "fails with %s: %s" % (o.exc(), desc(o)), ctx.loc(q))
        elif o.value is attr(par, name):
            ctx.holds(rule, q)
        elif implied(o, mk("isnone", attr(par, name))) is True and o.value is NONE:
            ctx.holds(rule, q)
        elif is_const(o.value) or understood(o.value, [attr(par, name)]) or o.value.op == "attr" and o.value.args[0] is par:
            ctx.bad(rule, q, "the %s of a parameter is given as %s: %s" % (name, show(o.value), desc(o)), ctx.loc(q))
        else:
            ctx.unk(rule, q, show(o.value))


def _empty(ctx, rule, q):
    me = self_of(PINFO)
    par = attr(me, "_parameter")
    outs = ctx.run(q)
    atoms = {"written": btruth(attr(par, "has_been_written_to")), "null": mk("isnone", attr(par, "data")),
             "unversioned": outs[0].it.eqatom(attr(par, "version"), const(0))}

    def expect(case, o):
        if case["written"] is case["unversioned"]:
            return None  # every write counts
        if changes(o, par):
            return "asking for information changes the parameter"
        if o.kind != "return":
            return "fails with %s" % o.exc()
        v = tv(o, o.value)
        if v is None and o.value.op == "not" and o.value.args[0] is atoms["written"]:
            return True
        if v is None:
            if understood(o.value, [atoms["written"], attr(par, "version"), attr(par, "data"), attr(par, "has_been_read_from"), NONE]):
                return "given as %s" % show(o.value)
            return judge(o.value, mk("not", atoms["written"]), "empty")
        return True if v is (not case["written"]) else "a parameter is said to be %s" % ("empty although it has been written to" if v else "written although it is empty")

    table(ctx, rule, q, outs, atoms, expect, ctx.loc(q))


def _ensure(ctx, rule, q):
    me = self_of(PINFO)
    par = attr(me, "_parameter")
    outs = ctx.run(q)
    atoms = {"written": btruth(attr(par, "has_been_written_to"))}

    def expect(case, o):
        if changes(o, par):
            return "requiring a parameter changes it"
        if case["written"]:
            return True if o.kind == "return" else "a parameter which has been written to is rejected"
        return raises(o, ERR + "ParameterEmptyError") or True

    table(ctx, rule, q, outs, atoms, expect, ctx.loc(q))


def _kept(ctx, rule, q):
    f = ctx.p.need_function(q)
    me = self_of(PINFO)
    p = param(ctx, f, 1)
    for o in ctx.run(q):
        v = o.heap.get((me, "_parameter"))
        if o.kind == "return" and v is p:
            ctx.holds(rule, q)
        elif o.kind == "return" and v is not None and understood(v, [p, attr(p, "parent")]):
            ctx.bad(rule, q, "information is about %s" % show(v), ctx.loc(q))
        else:
            ctx.unk(rule, q, desc(o))


def aggregated_regions(ctx):
    rule = "C12.regions"
    ctx.guard(rule, REGION + ".get_or_create_subregion", _subregion, ctx, rule, REGION + ".get_or_create_subregion")
    ctx.guard(rule, REGION + ".attempt_aggregate", _aggregate, ctx, rule, REGION + ".attempt_aggregate")
    ctx.guard(rule, REGION + ".name", _region_field, ctx, rule, "name", "_name")
    ctx.guard(rule, REGION + ".parent", _region_field, ctx, rule, "parent", "_parent")
    n = 0
    for mod in ctx.p.modules.values():
        for fq, node in iter_functions(mod):
            up = None
            for x in ast.walk(node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == "_has_been_aggregated":
                    n += 1
                    up = up or parents(node)
                    a = up.get(x)
                    off = isinstance(a, (ast.Assign, ast.AnnAssign)) and isinstance(a.value, ast.Constant) and a.value.value is False
                    if off and not constructing(ctx, fq):
                        ctx.bad(rule + ".kept", fq, "the mark of an aggregated region is taken back", (mod.path, x.lineno, fq))
                    else:
                        ctx.holds(rule + ".kept", fq)
    if not n:
        ctx.unk(rule + ".kept", "_has_been_aggregated", "no store found")


def _subregion(ctx, rule, q):
    f = ctx.p.need_function(q)
    me = self_of(REGION)
    name = param(ctx, f, 1)
    kids = attr(me, "_children")
    atoms = {"exists": mk("not", mk("isnone", mk("dget", kids, name))), "aggregated": btruth(attr(me, "_has_been_aggregated"))}

    def expect(case, o):
        added = [e for e in o.events if e.kind in ("setitem", "mutcall", "delitem") and e.a[0] is kids]
        if case["exists"]:
            return None
        if not case["aggregated"]:
            return "a subregion is not created" if o.kind != "return" else True
        if added:
            return "a subregion is added to a region which has been aggregated"
        return raises(o, ERR + "RegionAggregatedError") or True

    table(ctx, rule, q, ctx.run(q), atoms, expect, ctx.loc(q))


def _aggregate(ctx, rule, q):
    me = self_of(REGION)
    for o in ctx.run(q):
        v = changes(o, me).get("_has_been_aggregated")
        if o.kind == "return" and (v is TRUE or v is None and implied(o, btruth(attr(me, "_has_been_aggregated"))) is True):
            ctx.holds(rule, q)
        elif v is None or is_const(v) or o.kind != "return":
            ctx.bad(rule, q, "aggregating a region is not recorded: " + desc(o), ctx.loc(q))
        else:
            ctx.unk(rule, q, show(v))


def _region_field(ctx, rule, prop, fld):
    q = REGION + "." + prop
    me = self_of(REGION)
    init = ctx.p.need_function(REGION + ".__init__")
    for o in ctx.run(q):
        if o.kind == "return" and o.value is attr(me, fld):
            ctx.holds(rule, q)
        elif o.kind == "return" and (is_const(o.value) or o.value.op == "attr" and o.value.args[0] is me or understood(o.value, [attr(me, fld)])):
            ctx.bad(rule, q, "the %s of a region is given as %s" % (prop, show(o.value)), ctx.loc(q))
        else:
            ctx.unk(rule, q, desc(o))


RULES = {
    "C12": {"rules": [information, aggregated_regions],
            "explain": "All paths of the information object and of the regions' typestate (aggregated / subregion exists); stores of the mark are who-may-write checked."},
}
