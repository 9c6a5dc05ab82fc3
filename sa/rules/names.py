"""Rules about hierarchical names (C10)"""
from ..check import Unknown, changes, implied, table
from .util import *

PARAM = "openscm.core.parameters._Parameter"
REGION = "openscm.core.regions._Region"
PSET = "openscm.core.parameterset.ParameterSet"
PINFO = "openscm.core.parameters.ParameterInfo"
ERR = "openscm.errors."
SEP = const("|")

LOOKUPS = {PSET + "._get_or_create_parameter", PSET + "._get_or_create_region", PSET + "._get_region",
           PARAM + ".get_or_create_child_parameter", PARAM + ".get_subparameter", REGION + ".get_or_create_subregion",
           REGION + ".get_or_create_parameter", REGION + ".get_subregion", REGION + ".get_parameter", PARAM + ".attempt_read"}


def opaque(q):
    return q in LOOKUPS


def norm(o, name):
    """The sequence of names on a path"""
    s = implied(o, mk("isinst", name, "builtins.str"))
    if s is None:
        s = implied(o, mk("isinst", name, ext("builtins.str")))
    if s is None:
        for a, v in o.order:
            if a.op == "isinst" and a.args[0] is name:
                s = v
    if s is True:
        for y in (z for a, _ in o.order for z in walk(a)):
            if y.op == "mcall" and y.args[1] == "split" and y.args[0].op == "mcall" and y.args[0].args[0] is name and y.args[0].args[1] in CHANGED:
                return y
        for e in o.flat():
            for t in walk(tuple(x for x in e.a if isinstance(x, (T, tuple)))):
                if t.op == "mcall" and t.args[1] == "split" and t.args[0].op == "mcall" and t.args[0].args[0] is name and t.args[0].args[1] in CHANGED:
                    return t
                if t.op == "mcall" and t.args[1] == "split" and t.args[0] is name or \
                        t.op == "call" and t.args[0] is attr(name, "split"):
                    return t
        return None
    return name if s is False else None


CHANGED = ("strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "casefold", "swapcase", "replace")


def split_ok(t, name):
    if t is name:
        return True
    if t.op == "mcall" and t.args[0] is not name:
        return False  # another name
    a = t.args[2] if t.op == "mcall" else t.args[1]
    kw = t.args[3] if t.op == "mcall" else t.args[2]
    return a == (SEP,) and not kw


def head(n):
    return [mk("item", n, const(0))]


def last(n):
    return [mk("item", n, const(-1)), mk("item", n, mk("-", mk("len", n), const(1)))]


def init_part(n):
    return [mk("slice", n, NONE, const(-1), NONE), mk("slice", n, const(0), const(-1), NONE)]


def tail(n):
    return [mk("slice", n, const(1), NONE, NONE)]


def each_path(ctx, rule, q, name_i, fn):
    f = ctx.p.need_function(q)
    outs = ctx.run(q, opaque=opaque)
    name = param(ctx, f, name_i)
    for o in outs:
        try:
            empty = implied(o, mk("truth", name))
            n = norm(o, name)
            if n is not None and not split_ok(n, name):
                ctx.bad(rule, q, "names are split in another way: %s" % show(n), ctx.loc(f))
                continue
            r = fn(o, name, n, empty)
        except Unknown as e:
            ctx.unk(rule, q, "%s (%s)" % (e, desc(o)))
            continue
        if r is None:
            continue
        if r is True:
            ctx.holds(rule, q)
        else:
            ctx.bad(rule, q, "%s: %s" % (r, desc(o)), ctx.loc(f))


def length(o, n):
    """1, 2 (for more than one), 0 or None"""
    if implied(o, mk("lt", mk("len", n), const(1))) is True:
        return 0
    one = implied(o, mk("lt", mk("len", n), const(2)))
    if one is True:
        return 1
    if one is False:
        return 2
    return None


def value_error(o):
    return raises(o, "builtins.ValueError") or True


def need(n, o):
    if n is None:
        raise Unknown("name is not normalised")


def get_or_create(ctx, rule, q, base, step, root_case):
    """f(names) = step(f(names[:-1]), names[-1]) ; f((n,)) = root case; f(()) = ValueError"""

    def fn(o, name, n, empty):
        if empty is False:
            return value_error(o)
        need(n, o)
        ln = length(o, n)
        if ln in (None, 1):
            for a, v in o.order:
                # len(name) == 1 tested in another way
                if a.op == "truth" and v is False and contains(a, mk("len", n)):
                    ln = 0
        if ln == 0:
            return value_error(o)
        if ln is None:
            raise Unknown("length of the name")
        if ln == 1:
            return root_case(o, n)
        if o.kind != "return":
            return "a name of several levels is rejected"
        v = o.value
        if v.op != "rcall" or v.args[0] != step:
            if v.op == "rcall" and v.args[0] in LOOKUPS:
                return "a name of several levels gives %s" % show(v)
            raise Unknown(show(v))
        par, nm = v.args[1][0], v.args[1][1]
        if par.op != "rcall" or par.args[0] != q:
            if par.op in ("sym", "attr"):
                return "the object is looked up below %s" % show(par)
            raise Unknown(show(par))
        if nm not in last(n):
            return judge(nm, last(n), "the last name")
        if par.args[1][1] not in init_part(n):
            return judge(par.args[1][1], init_part(n), "name of the parent")
        return True

    each_path(ctx, rule, q, 1, fn)


def creation(ctx):
    rule = "C10.create"
    q = PSET + "._get_or_create_parameter"

    def root_param(o, n):
        f = ctx.p.need_function(q)
        region = param(ctx, f, 2)
        v = o.value
        if o.kind != "return":
            return "a name of one level is rejected"
        if v.op == "rcall" and v.args[0] == REGION + ".get_or_create_parameter":
            if v.args[1][0] is not region:
                return "the parameter is looked up in another region"
            return True if v.args[1][1] in head(n) + last(n) else judge(v.args[1][1], head(n), "name")
        if v.op == "rcall" and v.args[0] in LOOKUPS:
            return "a parameter is found by %s" % show(v)
        raise Unknown(show(v))

    ctx.guard(rule, q, get_or_create, ctx, rule, q, None, PARAM + ".get_or_create_child_parameter", root_param)
    q2 = PSET + "._get_or_create_region"
    root = attr(self_of(PSET), "_root")

    def root_region(o, n):
        rn = [attr(root, "_name"), attr(root, "name")]
        eqs = [o.it.eqatom(x, y) for x in head(n) + last(n) for y in rn]
        known = [implied(o, e) for e in eqs]
        if True in known:
            if o.kind != "return":
                return "the root region is rejected"
            return True if o.value is root else judge(o.value, root, "region")
        if False in known:
            return value_error(o)
        if o.kind == "return" and not o.order[-1:] or o.kind == "return" and not any(contains(a, root) for a, _ in o.order):
            return "a foreign root region is accepted"
        raise Unknown("root region")

    ctx.guard(rule, q2, get_or_create, ctx, rule, q2, None, REGION + ".get_or_create_subregion", root_region)


def keys_ok(o, kids, n):
    """Are children looked up by the first name?"""
    for t in [o.value] + [a for a, _ in o.order]:
        for x in walk(t):
            key = None
            if x.op in ("dget", "item") and x.args[0] is kids:
                key = x.args[1]
            elif x.op == "in" and x.args[1] is kids:
                key = x.args[0]
            if key is not None and key not in head(n):
                if key in last(n) and length(o, n) == 1:
                    continue
                return judge(key, head(n), "name looked up", (".split",))
    return None


def lookup(ctx):
    rule = "C10.lookup"
    for q, field, none_is_self in ((REGION + ".get_subregion", "_children", True), (PARAM + ".get_subparameter", "children", True)):
        ctx.guard(rule, q, _lookup_step, ctx, rule, q, field)
    ctx.guard(rule, REGION + ".get_parameter", _get_parameter, ctx, rule)
    ctx.guard(rule, PSET + "._get_region", _get_region, ctx, rule)
    ctx.guard(rule, PSET + ".info", _info, ctx, rule)


def no_changes(o):
    for e in o.flat():
        if e.kind in ("setitem", "delitem", "mutcall") and e.a[0].op in ("attr", "sym") or e.kind == "setattr" and e.a[0].op != "new":
            return "looking up changes something (%s)" % show(e.a[0])
        if e.kind == "rcall" and "create" in e.a[0].args[0] or e.kind == "rcall" and e.a[0].args[0].endswith(".attempt_read"):
            return "looking up creates or marks something"
    return None


def _lookup_step(ctx, rule, q, field):
    f = ctx.p.need_function(q)
    me = self_of(f.cls.qualname)
    kids = attr(me, field)

    def fn(o, name, n, empty):
        r = no_changes(o)
        if r:
            return r
        if o.kind != "return":
            return "looking up fails with %s" % o.exc()
        if empty is False:
            return True if o.value is me else judge(o.value, me, "object found for the empty name")
        if empty is None and n is None:
            raise Unknown("name")
        need(n, o)
        r = keys_ok(o, kids, n)
        if r:
            return r
        if length(o, n) == 0:
            return True if o.value is me else judge(o.value, me, "object found for the empty name")
        child = [mk("dget", kids, x) for x in head(n)] + [mk("item", kids, x) for x in head(n)]
        missing = implied(o, mk("isnone", child[0]))
        if missing is None:
            x = implied(o, mk("in", head(n)[0], kids))
            missing = None if x is None else not x
        if missing is True:
            return True if o.value in (NONE, child[0]) else judge(o.value, NONE, "result for a missing name")
        if missing is None:
            if o.value.op == "rcall":
                raise Unknown("missing names")
            if o.value in child:
                return "only the first level of a name is looked up"
            raise Unknown(show(o.value))
        v = o.value
        if v in child and length(o, n) == 1:
            return True
        if v.op == "rcall" and v.args[0] == q:
            if v.args[1][0] not in child:
                return judge(v.args[1][0], child, "object for the first name")
            return True if v.args[1][1] in tail(n) else judge(v.args[1][1], tail(n), "rest of the name")
        if v in child:
            return "only the first level of a name is looked up"
        return judge(v, child, "result")

    each_path(ctx, rule, q, 1, fn)


def _get_parameter(ctx, rule):
    q = REGION + ".get_parameter"
    me = self_of(REGION)
    kids = attr(me, "_parameters")

    def fn(o, name, n, empty):
        r = no_changes(o)
        if r:
            return r
        if empty is False:
            return value_error(o)
        need(n, o)
        if o.kind != "return":
            return "looking up fails with %s" % o.exc()
        r = keys_ok(o, kids, n)
        if r:
            return r
        child = [mk("dget", kids, x) for x in head(n)] + [mk("item", kids, x) for x in head(n)]
        missing = implied(o, mk("isnone", child[0]))
        if missing is None:
            x = implied(o, mk("in", head(n)[0], kids))
            missing = None if x is None else not x
        v = o.value
        if missing is True:
            return True if v in (NONE, child[0]) else judge(v, NONE, "result for a missing name")
        ln = length(o, n)
        if v in child:
            if ln == 1:
                return True
            if ln == 2 or ln is None and not any(contains(a, mk("len", n)) for a, _ in o.order):
                return "only the first level of a name is looked up"
            raise Unknown("length")
        if v.op == "rcall" and v.args[0] == PARAM + ".get_subparameter":
            if missing is None:
                raise Unknown("missing names")
            if v.args[1][0] not in child:
                return judge(v.args[1][0], child, "object for the first name")
            return True if v.args[1][1] in tail(n) else judge(v.args[1][1], tail(n), "rest of the name")
        return judge(v, child, "result")

    each_path(ctx, rule, q, 1, fn)


def _get_region(ctx, rule):
    q = PSET + "._get_region"
    root = attr(self_of(PSET), "_root")

    def fn(o, name, n, empty):
        r = no_changes(o)
        if r:
            return r
        if empty is False:
            return value_error(o)
        need(n, o)
        eqs = [implied(o, o.it.eqatom(head(n)[0], attr(root, x))) for x in ("_name", "name")]
        if o.kind != "return":
            return "looking up fails with %s" % o.exc()
        if False in eqs:
            return True if o.value is NONE else judge(o.value, NONE, "region of a foreign root")
        v = o.value
        if v.op == "rcall" and v.args[0] == REGION + ".get_subregion":
            if True not in eqs:
                if not any(contains(a, root) for a, _ in o.order):
                    return "the name of the root region is not compared"
                raise Unknown("root")
            if v.args[1][0] is not root:
                return judge(v.args[1][0], root, "root")
            return True if v.args[1][1] in tail(n) else judge(v.args[1][1], tail(n), "rest of the name")
        if v is root and length(o, n) == 1:
            return True
        return judge(v, [root, NONE], "region")

    each_path(ctx, rule, q, 1, fn)


def elsewhere(o, par, reg, name):
    """A parameter is looked up in a known but different region, or with another name"""
    calls = [e.a[0] for e in o.events if e.kind == "rcall" and e.a[0].args[0] == REGION + ".get_parameter"]
    return bool(calls) and par not in calls and all(
        c.args[1][0] is not reg and understood(c.args[1][0], [self_of(PSET), attr(self_of(PSET), "_root")]) or
        c.args[1][1] is not name and understood(c.args[1][1], [name]) for c in calls)


def _info(ctx, rule):
    q = PSET + ".info"
    f = ctx.p.need_function(q)
    name, region = named_param(ctx, f, "name"), named_param(ctx, f, "region")
    reg = rc(PSET + "._get_region", self_of(PSET), region)
    par = rc(REGION + ".get_parameter", reg, name)
    for o in ctx.run(q, opaque=opaque):
        r = no_changes(o)
        if r:
            ctx.bad(rule, q, r, ctx.loc(f))
            continue
        if o.kind != "return":
            ctx.bad(rule, q, "fails: " + desc(o), ctx.loc(f))
            continue
        noreg, nopar = implied(o, mk("isnone", reg)), implied(o, mk("isnone", par))
        if noreg is True or nopar is True:
            if o.value is NONE:
                ctx.holds(rule, q)
            else:
                ctx.bad(rule, q, "information of a missing parameter: " + desc(o), ctx.loc(f))
        elif noreg is False and nopar is False:
            p = o.heap.get((o.value, "_parameter"))
            if o.value.op == "new" and o.value.args[0] == PINFO and p is par:
                ctx.holds(rule, q)
            elif o.value is NONE:
                ctx.bad(rule, q, "no information of an existing parameter: " + desc(o), ctx.loc(f))
            elif o.value.op == "new" and o.value.args[0] == PINFO and p is not None and understood(p, [par, reg, name]):
                ctx.bad(rule, q, "information of %s: %s" % (show(p), desc(o)), ctx.loc(f))
            else:
                ctx.unk(rule, q, desc(o))
        elif noreg is False and elsewhere(o, par, reg, name):
            ctx.bad(rule, q, "another parameter is looked up: " + desc(o), ctx.loc(f))
        else:
            ctx.unk(rule, q, desc(o))


def creation_steps(ctx):
    rule = "C10.step"
    for q, field, cls, want in (
        (REGION + ".get_or_create_subregion", "_children", REGION, {"_parent": "self", "_name": "name"}),
        (REGION + ".get_or_create_parameter", "_parameters", PARAM, {"region": "self", "name": "name", "parent": "none"}),
        (PARAM + ".get_or_create_child_parameter", "children", PARAM, {"region": "region", "name": "name", "parent": "self"}),
    ):
        ctx.guard(rule, q, _creation_step, ctx, rule, q, field, cls, want)


def _creation_step(ctx, rule, q, field, cls, want):
    f = ctx.p.need_function(q)
    outs = ctx.run(q)
    me = self_of(f.cls.qualname)
    name = param(ctx, f, 1)
    kids = attr(me, field)

    def expect(case, o):
        added = [e for e in o.events if e.kind in ("setitem", "mutcall", "delitem") and e.a[0] is kids]
        if case["exists"]:
            if o.kind != "return":
                return "an existing object cannot be accessed"
            if added:
                return "an existing object is replaced"
            return True if o.value in (mk("dget", kids, name), mk("item", kids, name)) else judge(o.value, mk("dget", kids, name), "object found")
        if o.kind != "return":
            return None if not added else "a rejected creation has an effect"
        if len(added) != 1 or added[0].kind != "setitem":
            if not added:
                return "a new object is not added"
            raise Unknown("adding")
        if added[0].a[1] is not name:
            return judge(added[0].a[1], name, "key of the new object")
        new = added[0].a[2]
        if new is not o.value:
            return "another object than the one added is returned"
        if new.op != "new" or new.args[0] != cls:
            raise Unknown(show(new))
        vals = {"self": me, "name": name, "none": NONE, "region": attr(me, "region")}
        return fields_equal(o, new, {k: vals[v] for k, v in want.items()})

    table(ctx, rule, q, outs, {"exists": mk("not", mk("isnone", mk("dget", kids, name)))}, expect, ctx.loc(f))


def full_names(ctx):
    rule = "C10.full-name"
    for cls, par, names in ((REGION, ("_parent", "parent"), ("_name", "name")), (PARAM, ("parent",), ("name",))):
        ctx.guard(rule, cls + ".full_name", _full_name, ctx, rule, cls, par, names)
    q = PINFO + ".name"
    for q, path in ((PINFO + ".name", ("_parameter",)), (PINFO + ".region", ("_parameter", "region"))):
        ctx.guard(rule, q, _info_name, ctx, rule, q, path)


def _info_name(ctx, rule, q, path):
    f = ctx.p.need_function(q)
    want = self_of(PINFO)
    for x in path:
        want = attr(want, x)
    for o in ctx.run(q, opaque=lambda x: x.endswith(".full_name")):
        v = o.value
        if o.kind == "return" and v.op == "rcall" and v.args[0].endswith(".full_name"):
            if v.args[1][0] is want:
                ctx.holds(rule, q)
            else:
                ctx.bad(rule, q, "name of %s" % show(v.args[1][0]), ctx.loc(f))
        elif o.kind == "return" and v.op == "attr" and v.args[0] is want and v.args[1] in ("name", "_name"):
            ctx.bad(rule, q, "only the last part of the name is given", ctx.loc(f))
        else:
            ctx.unk(rule, q, desc(o))


def _full_name(ctx, rule, cls, parents_, names):
    q = cls + ".full_name"
    f = ctx.p.need_function(q)
    me = self_of(cls)
    for o in ctx.run(q):
        if o.kind != "return":
            ctx.bad(rule, q, "fails", ctx.loc(f))
            continue
        v = o.value
        rev = 0
        while True:
            n = call_name(v)
            if n in ("builtins.tuple", "builtins.list") and len(v.args[1]) == 1:
                v = v.args[1][0]
            elif v.op in ("tuple", "list") and len(v.args) == 1 and v.args[0].op in ("starred", "spread"):
                v = v.args[0].args[0]
            elif n == "builtins.reversed":
                rev += 1
                v = v.args[1][0]
            elif v.op == "slice" and v.args[1:] == (NONE, NONE, const(-1)):
                rev += 1
                v = v.args[0]
            elif v.op == "totuple" or v.op == "tolist":
                v = v.args[0]
            else:
                break
        parts = list(v.args) if v.op == "concat" else [v]
        if parts[0].op != "comp" or parts[0].args[0].op != "while":
            ctx.unk(rule, q, show(o.value))
            continue
        w = parts[0].args[0]
        info = o.it.loops.get(w)
        if info is None or info["breaks"] or len(parts[0].args[1]) != 1:
            ctx.unk(rule, q, "loop")
            continue
        conds, elems = parts[0].args[1][0]
        lvs = [x for x in info["vars"] if x.op == "lv" and x.args[1] != ("any",) and info["vars"][x][0] is me]
        if len(lvs) != 1 or len(elems) != 1:
            ctx.unk(rule, q, "loop variables")
            continue
        lv = lvs[0]
        steps = [s for _, s in info["vars"][lv][1]]
        if any(s not in [attr(lv, p) for p in parents_] for s in steps):
            ctx.unk(rule, q, "steps to %s" % show(steps[0]))
            continue
        if elems[0] not in [attr(lv, x) for x in names]:
            ctx.unk(rule, q, "collects %s" % show(elems[0]))
            continue
        till_none = conds == ((mk("isnone", lv), False),)
        till_root = len(conds) == 1 and conds[0][1] is False and conds[0][0] in [mk("isnone", attr(lv, p)) for p in parents_]
        if till_none and len(parts) == 1:
            ok = True
        elif till_root and len(parts) == 2:
            x = parts[1]
            ok = x.op == "list" and len(x.args) == 1 and x.args[0].op == "attr" and x.args[0].args[1] in names and x.args[0].args[0].op == "fold"
            if not ok:
                ctx.unk(rule, q, show(o.value))
                continue
        elif till_root and len(parts) == 1:
            ctx.bad(rule, q, "the root is missing in full names", ctx.loc(f))
            continue
        else:
            ctx.unk(rule, q, show(o.value))
            continue
        if rev % 2 != 1:
            ctx.bad(rule, q, "full names are given in reverse order", ctx.loc(f))
        else:
            ctx.holds(rule, q)


def entry_points(ctx):
    """scalar, timeseries and generic use name and region as given"""
    rule = "C10.entry"
    for m in ("scalar", "timeseries", "generic"):
        ctx.guard(rule, PSET + "." + m, _entry, ctx, rule, m)


def _entry(ctx, rule, m):
    q = PSET + "." + m
    f = ctx.p.need_function(q)
    name, region = named_param(ctx, f, "name"), named_param(ctx, f, "region")
    me = self_of(PSET)
    want = rc(PSET + "._get_or_create_parameter", me, name, rc(PSET + "._get_or_create_region", me, region))
    for o in ctx.run(q, opaque=lambda x: opaque(x) or x.startswith("openscm.core.views.") and x.endswith("View")):
        if o.kind != "return":
            continue
        if o.value.op != "rnew" or not o.value.args[2]:
            ctx.unk(rule, q, show(o.value))
        elif o.value.args[2][0] is want:
            ctx.holds(rule, q)
        elif o.value.args[2][0].op == "rcall" and understood(o.value.args[2][0], [want]):
            ctx.bad(rule, q, "view of %s" % show(o.value.args[2][0]), ctx.loc(f))
        else:
            ctx.unk(rule, q, show(o.value))


RULES = {
    "C10": {"rules": [creation, creation_steps, lookup, full_names, entry_points],
            "explain": "Induction over names: every path of the recursive look-up and creation functions is compared with their defining equations "
            "(names[:-1], names[-1] resp. names[0], names[1:]); creation registers the object under its name and parent; full names walk up to the root."},
}
