"""Rules about data frames (D01-D15)"""
import ast

from ..check import Unknown, implied
from ..terms import cval, is_num, is_str, sub
from .owner import Owner, effect, mutations
from .util import *

M = "openscm.scmdataframe."
BASE = M + "base."
S = BASE + "ScmDataFrameBase"
PSET = "openscm.core.parameterset.ParameterSet"
FILT = M + "filters."
OFFS = M + "offsets."
TP = "openscm.core.time.TimePoints"
CONV = "openscm.core.time.TimeseriesConverter"
UC = "openscm.core.units.UnitConverter"
PTYPE = "openscm.core.parameters.ParameterType"
FIELDS = ("_data", "_meta", "_time_points")


def core(q):
    return q.startswith("openscm.core.")


def whole(q):
    """Construction and the evaluation of filters are analysed on their own"""
    return core(q) or q in (S + ".__init__", S + "._apply_filters")


VOL = ("value", "values")


def run(ctx, q, opaque=whole, **kw):
    return ctx.run(q, opaque=opaque, volatile=VOL, **kw)


# what a user calls: other public functions may be helpers which fill in what they are given
API = """__init__ meta time_points copy __len__ __getitem__ __setitem__ to_parameterset timeseries filter _apply_filters head tail rename set_meta interpolate
resample process_over convert_unit relative_to_ref_period_mean append to_iamdataframe to_csv line_plot scatter region_plot pivot_table
convert_openscm_to_scmdataframe base.df_append filters.is_in filters.find_depth filters.pattern_match filters.years_match filters.month_match
filters.day_match filters.hour_match filters.time_match filters.datetime_match offsets.to_offset offsets.generate_range
parameter_type.guess_parameter_type""".split()


def entries(ctx):
    """Public methods and functions"""
    r = []
    cls = ctx.p.need_class(S)
    for c in [cls] + [c for q, c in ctx.p.classes.items() if c is not cls and any(x.qualname == S for x in ctx.p.mro(q)[0])]:
        for m in list(c.methods) + list(c.props):
            if m in API:
                r.append(c.qualname + "." + m)
    for q, f in ctx.p.functions.items():
        n = q.rsplit(".", 1)
        if q.startswith(M) and q[len(M):] in API and ctx.p.classes.get(n[0]) is None and n[0] in ctx.p.modules:
            r.append(q)
    return r


def own_params(ctx, q):
    a = ctx.p.functions[q].node.args
    own = []
    for x in (a.kwarg, a.vararg):
        if x is not None:
            own.append(x.arg)
    if q == S + "._apply_filters":
        own.append([x.arg for x in a.args][1])  # it is passed the **kwargs of its callers
    return own


def owner_of(ctx, q, outs):
    names = set(own_params(ctx, q))
    own, seen = set(), set()
    for o in outs:
        for e in o.flat():
            for x in e.a:
                if hasattr(x, "op"):
                    own |= {y for y in walk(x, seen) if y.op == "sym" and y.args[0] in names}
        if o.kind == "return" and hasattr(o.value, "op"):
            own |= {y for y in walk(o.value, seen) if y.op == "sym" and y.args[0] in names}
    return Owner(own)


def inplace(ctx, q, o):
    """Is the object itself to be changed on this path?  True / False / None"""
    f = ctx.p.functions[q]
    if q.rsplit(".", 1)[1] in ("__setitem__", "set_meta", "__init__"):
        return True
    for x in f.node.args.args + f.node.args.kwonlyargs:
        if x.arg == "inplace":
            return tv(o, named_param(ctx, f, "inplace"))
    return False


def effects(ctx):
    es = entries(ctx)
    for q in es:
        f = ctx.p.functions[q]
        ctx.guard("D01.effects", q, _effects, ctx, q)
    ctx.guard("D02.timepoints", TP, _timepoints, ctx)


def _effects(ctx, q):
    if ctx.p.functions[q].node.name in ("apply_dt", "apply_rollforward", "apply_rollback"):
        return
    init = q.endswith(".__init__") and ctx.p.classes.get(q.rsplit(".", 1)[0]) is not None
    outs = run(ctx, q, opaque=core if init else whole)
    ow = owner_of(ctx, q, outs)
    loc = ctx.loc(q)
    done = set()  # paths have most of their events in common
    for o in outs:
        inpl = inplace(ctx, q, o)
        for e, t, kind in mutations(o.flat()):
            if not (kind == "attr" and e.a[1] in ("name", "names")):
                if (id(e), t, kind, inpl) in done:
                    continue
                done.add((id(e), t, kind, inpl))
            if e.kind == "raise" or e.kind == "setattr" and is_self(t) and e.a[2] is mk("attr", t, e.a[1]):
                continue  # also not what is put back
            bad = {}
            for b, how in ow.roots(t):
                who = allowed(ctx, q, b, t, inpl)
                if who is True:
                    continue
                x = effect(how, kind, t)
                if x is False:
                    continue
                if kind == "attr" and e.a[1] in ("name", "names") and t is b and implied(o, mk("isinst", t, "pandas.Index")) is False:
                    continue  # pandas makes an index from anything else
                bad.setdefault(x, []).append((b, how))
            for b, how in bad.get(True, ()):
                ctx.bad("D01.effects" if is_self(b) else "D02.effects", q, "%s changes %s (%s)" % (
                    show_event(e), "the data frame itself" if is_self(b) else "what is passed as " + show(b), desc(o)), e.loc_() if hasattr(e, "loc_") else loc)
            if not bad.get(True):
                for b, how in bad.get(None, ()):
                    ctx.unk("D01.effects" if is_self(b) else "D02.effects", q, "%s may change %s" % (show_event(e), show(b)), loc)
        if o.kind == "return":
            _shares(ctx, q, o, ow, inpl, loc)
        ctx.holds("D01.effects", q)
        ctx.holds("D02.effects", q)


def is_self(b):
    return b.op == "sym" and b.args[0] == "self"


def allowed(ctx, q, b, t, inpl):
    """May this object be changed?"""
    n = q.rsplit(".", 1)[1]
    if is_self(b):
        return bool(inpl)
    if n == "to_parameterset" and b is param(ctx, ctx.p.functions[q], 1):
        return True
    if n == "df_append" and inpl and b is param(ctx, ctx.p.functions[q], 0):
        return contains(t, mk("item", b, const(0)))
    if n == "to_offset" or n in ("generate_range",):
        return False
    return False


def show_event(e):
    a = e.a
    if e.kind == "setattr":
        return "storing the attribute %s of %s" % (a[1], show(a[0])[:120])
    if e.kind in ("setitem", "delitem"):
        return "storing an item of %s" % show(a[0])[:120]
    if e.kind == "mutcall":
        return "calling %s of %s" % (a[1], show(a[0])[:120])
    return "%s %s" % (e.kind, show(a[0])[:160])


def frame_like(t):
    return t.op in ("deepcopy", "rnew", "new") or t.op == "call" and call_name(t) == "copy.copy"


def _shares(ctx, q, o, ow, inpl, loc):
    n = q.rsplit(".", 1)[1]
    targets = []
    v = o.value
    me = [e.a[0] for e in o.flat() if e.kind == "setattr" and e.a[1] in FIELDS and is_self(e.a[0])]
    if hasattr(v, "op") and frame_like(v):
        targets.append(v)
    targets += me[:1]
    if n in ("__init__",) and not me:
        targets.append(self_of(q.rsplit(".", 1)[0]))
    for x in targets:
        for fld in FIELDS:
            val = o.heap.get((x, fld))
            if val is None:
                if x.op == "call":
                    ctx.bad("D01.shares", q, "the result is a shallow copy and has the %s of the original (%s)" % (fld, desc(o)), loc)
                continue
            for b, how in ow.roots(val):
                if is_self(b) and is_self(x):
                    continue
                rule = "D01.shares" if is_self(b) else "D02.shares"
                if how in ("maybe", "mview"):
                    ctx.unk(rule, q, "%s of the result may share memory with %s" % (fld, show(b)), loc)
                elif how != "part":
                    ctx.bad(rule, q, "%s of the result shares memory with %s: %s (%s)" % (fld, show(b), show(val)[:200], desc(o)), loc)
            ctx.holds("D01.shares", q)
    if not inpl and n not in ("__setitem__", "__init__"):
        handed_out(ctx, "D01.shares", q, o, ow)


def handed_out(ctx, rule, q, o, ow):
    """What is returned uses no memory of the data frame"""
    v = o.value
    if not hasattr(v, "op") or frame_like(v) or v.op == "const":
        return
    for b, how in ow.roots(v) + (ow.elems(v) if v.op in ("list", "tuple", "comp", "dict") else []):
        if not is_self(b):
            continue
        if how in ("maybe", "mview"):
            ctx.unk(rule, q, "the result may share memory with the data frame: %s" % show(v)[:200], loc_of(ctx, q))
        elif how != "part" or v.op == "attr":
            ctx.bad(rule, q, "the result shares memory with the data frame: %s (%s)" % (show(v)[:200], desc(o)), loc_of(ctx, q))
    ctx.holds(rule, q)


def loc_of(ctx, q):
    return ctx.loc(q)


def accessors(ctx):
    """What the accessors hand out are copies (D07)"""
    for n in ("time_points", "meta", "timeseries", "__getitem__"):
        q = S + "." + n
        if ctx.p.functions.get(q) is None:
            ctx.unk("D07.accessor", q, "does not exist (any more)")
        else:
            ctx.guard("D07.accessor", q, _accessor, ctx, "D07.accessor", q)


def _accessor(ctx, rule, q):
    outs = run(ctx, q)
    ow = owner_of(ctx, q, outs)
    for o in outs:
        if o.kind == "return":
            handed_out(ctx, rule, q, o, ow)


def _timepoints(ctx):
    """The time points of a data frame are its own"""
    q = TP + ".__init__"
    ctx.p.need_class(TP)
    f = ctx.p.functions[q]
    outs = ctx.run(q, volatile=VOL)
    v = param(ctx, f, 1)
    ow = Owner()
    for o in outs:
        if o.kind != "return":
            continue
        val = o.heap.get((self_of(TP), "_values"))
        if val is None:
            raise Unknown("field _values")
        rs = [h for b, h in ow.roots(val) if b is v]
        # a conversion of something which is certainly not of the final type makes a new array
        dt = any(implied_dt(o, a, x) for a, x in o.order)
        if rs and not any(h == "maybe" for h in rs) and dt:
            ctx.bad("D02.timepoints", q, "time points share memory with the array they are made from: %s" % show(val)[:200], ctx.loc(q))
        elif any(h == "maybe" for h in rs):
            ctx.unk("D02.timepoints", q, "time points may share memory with the array they are made from: %s" % show(val)[:200])
        else:
            ctx.holds("D02.timepoints", q)


def implied_dt(o, a, x):
    """Is this the case of an array which has datetimes already?"""
    return x and contains(a, ext("numpy.datetime64"))


RULES = {
    "D01": {"rules": [effects], "only": True, "explain": "Every change and every result of each public operation is traced to the objects whose memory it uses."},
    "D02": {"rules": [effects], "only": True, "explain": "Every change in each public operation is traced to the arguments whose memory it uses."},
}
