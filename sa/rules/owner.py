"""Ownership of values: which of the caller's objects does a value share memory with?

roots(t) gives [(base, how)] for a value: `base` is a parameter (or self), `how` is
  is    the very object (or an object which is reached through its fields or elements)
  part  an axis object of it (index, columns): immutable except for its name
  view  another object which uses the same memory
  mview another object which perhaps uses the same memory
  maybe it depends on pandas / numpy whether memory is shared
A value without roots is owned by the function.  The tables say what the documentation of
numpy and pandas says about each operation."""
from ..terms import FALSE, NONE, TRUE, T, call_name, cval, is_const, is_str, mk, show, walk

PURE_OPS = frozenset("""const ext class func lam fmt eq lt le isnone truth not isinst len in + - * / // % ** & | ^ << >> @ inv neg
enum key idx slice slice3 repeat all? any? exists is floor bool range""".split())
OWN_CONTAINERS = frozenset("dict list tuple set comp sum concat dictcomp dictupd fold foldop lvlist mutated repeat".split())

# methods whose result is new (whatever they are called on)
FRESH_M = frozenset("""
copy astype dropna drop drop_duplicates duplicated where mask replace reset_index set_index sort_index sort_values isna isnull notna
notnull isin sum mean median quantile any all apply applymap agg aggregate assign rename pivot_table pivot merge join concat sub add
mul div rsub radd rmul rdiv subtract multiply divide pow mod fillna interpolate reorder_levels swaplevel rename_axis set_axis
set_names to_list tolist unique nunique min max std var cumsum count idxmin idxmax diff shift rolling resample clip abs round
intersection union difference symmetric_difference append insert_row stack unstack melt to_dict to_csv to_string union_categoricals
strip lower upper split rsplit format startswith endswith match search findall fullmatch sub_ group groups join_ isoformat strftime
keys issubset issuperset isdisjoint encode decode add_suffix add_prefix get_level_values droplevel map transform size ngroup
timeseries meta filter interpolate resample process_over relative_to_ref_period_mean to_iamdataframe to_parameterset convert_unit
line_plot scatter region_plot warning info debug error flatten argsort argmax argmin dot repeat take cumprod nonzero conj
day_name month_name total_seconds date time timestamp to_pydatetime equals combine_first reindex nlargest nsmallest
""".split())
# methods whose result uses the memory of the object
VIEW_M = frozenset("""squeeze head tail transpose reshape ravel view swapaxes to_numpy xs to_frame get get_group __getitem__ __array__
items iteritems iterrows itertuples values groupby to_series""".split())
VIEW_ATTR = frozenset("values T loc iloc at iat array flat real imag _values".split())
PART_ATTR = frozenset("index columns axes".split())
NO_ATTR = frozenset("name names shape size dtype dtypes ndim year month day hour levels nlevels empty variable unit".split())
FRESH_F = frozenset("""
numpy.array numpy.concatenate numpy.copy numpy.zeros numpy.ones numpy.empty numpy.full numpy.arange numpy.linspace numpy.vectorize
numpy.append numpy.sort numpy.unique numpy.isnan numpy.diff numpy.cumsum numpy.where numpy.hstack numpy.vstack numpy.stack numpy.dstack
numpy.column_stack numpy.tile numpy.repeat numpy.insert numpy.delete numpy.logical_and numpy.logical_or numpy.logical_not numpy.any
numpy.all numpy.sum numpy.mean numpy.isin numpy.in1d numpy.timedelta64 numpy.datetime64 numpy.zeros_like numpy.ones_like numpy.full_like
numpy.empty_like numpy.add numpy.subtract numpy.multiply numpy.divide numpy.nanmean numpy.median numpy.bitwise_and numpy.bitwise_or
numpy.dtype numpy.count_nonzero numpy.array_equal numpy.allclose numpy.outer numpy.ix_ numpy.logical_and.reduce
pandas.concat pandas.merge pandas.isnull pandas.isna pandas.notnull pandas.notna pandas.read_csv pandas.read_excel pandas.ExcelFile
pandas.MultiIndex.from_arrays pandas.MultiIndex.from_tuples pandas.MultiIndex.from_frame pandas.MultiIndex.from_product pandas.to_datetime
pandas.tseries.frequencies.to_offset pandas.Timestamp pandas.to_numeric
copy.deepcopy datetime.datetime datetime.datetime.strptime datetime.timedelta dateutil.parser.parse logging.getLogger os.path.exists
re.compile re.escape re.sub re.match re.split re.findall re.search re.fullmatch time.strptime warnings.warn itertools.chain
""".split())
FRESH_B = frozenset("""AssertionError KeyError OSError TypeError ValueError RuntimeError NotImplementedError IndexError float getattr hasattr
int len list range set frozenset sorted str type bool dict tuple repr round abs any all isinstance print enumerate zip reversed map filter
sum min max issubclass callable format id divmod""".split())
VIEW_F = frozenset("""numpy.asarray numpy.asanyarray numpy.atleast_1d numpy.atleast_2d numpy.atleast_3d numpy.ravel numpy.reshape
numpy.squeeze numpy.transpose numpy.ascontiguousarray numpy.broadcast_to numpy.expand_dims numpy.swapaxes numpy.flip
pandas.DataFrame pandas.Series pandas.Index pandas.MultiIndex""".split())
CONTAINERS_F = frozenset("list tuple set frozenset sorted reversed dict iter enumerate zip".split())
# methods which change the object they are called on
MUTATING_M = frozenset("set_meta _sort_meta_cols __setitem__ __setattr__ __delitem__ setflags".split())
STRUCTURE = frozenset("pop popitem insert clear remove".split())


def listlike(k):
    """An index which selects by a list or a mask (gives a copy)"""
    if k.op in ("list", "comp", "concat", "sum", "eq", "lt", "le", "inv", "&", "|", "in", "not", "ref", "set"):
        return True
    if k.op == "mcall":
        return k.args[1] in ("isna", "isnull", "notna", "notnull", "isin", "duplicated", "tolist", "to_list", "eq", "ne", "gt", "lt", "ge", "le", "between")
    if k.op == "call":
        return call_name(k) in ("builtins.list", "builtins.sorted", "numpy.array", "numpy.where", "numpy.argsort", "builtins.set")
    if k.op == "+":
        return any(listlike(x) for x in k.args)
    return False


def weaken(rs, how):
    return [(b, h if h in ("maybe", "mview") else how) for b, h in rs]


def merge(*lists):
    r = []
    for x in lists:
        for y in x:
            if y not in r:
                r.append(y)
    return r


def unsure(rs):
    return [(b, "maybe") for b, _ in rs]


def kwof(k, name):
    for x in k:
        if isinstance(x, tuple) and x[0] == name:
            return x[1]
    return None


class Owner:
    """own: parameters which are new containers of the function (*args, **kwargs)"""

    def __init__(self, own=(), fresh=(), it=None, st=None):
        self.own = set(own)
        self.fresh = fresh
        self.it, self.st = it, st
        self.memo = {}

    def roots(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = []
            r = self.memo[t] = self._roots(t)
        return r

    def elems(self, t):
        """Roots of the elements of a container"""
        if t.op in ("list", "tuple", "set"):
            return merge(*[self.roots(x) if x.op not in ("spread", "starred") else self.elems(x.args[0]) for x in t.args])
        if t.op == "concat":
            return merge(*[self.elems(x.args[0] if x.op in ("spread", "starred") else x) for x in t.args])
        if t.op in ("spread", "starred"):
            return self.elems(t.args[0])
        if t.op == "comp":
            return merge(*[self.roots(x) if x.op not in ("spread", "starred") else self.elems(x.args[0]) for _, v in t.args[1]
                           for x in (v if isinstance(v, tuple) else (v,))])
        if t.op == "dict":
            return merge(*[self.roots(v) for _, v in t.args])
        if t.op in ("dictupd", "+", "repeat"):
            return merge(*[self.elems(x) for x in t.args if isinstance(x, T)])
        if t.op in ("dictcomp", "sum", "fold", "foldop", "lvlist", "mutated"):
            return unsure(merge(*[self.roots(x) for x in _terms(t.args)] + [self.elems(x) for x in _terms(t.args) if x.op not in PURE_OPS]))
        if t.op == "sym" and t in self.own:
            return [(t, "is")]
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0].startswith("builtins.") and t.args[0].args[0][9:] in CONTAINERS_F:
            return merge(*[self.elems(x) for x in t.args[1]])
        if t.op == "mcall" and t.args[1] in ("items", "values", "iteritems", "iterrows", "groupby"):
            if t.args[1] in ("items", "values") and (t.args[0].op in OWN_CONTAINERS or t.args[0] in self.own):
                return self.elems(t.args[0])
            if t.args[1] in ("iterrows", "groupby"):
                # rows are copies unless all columns have one type, groups are copies
                return unsure(self.roots(t.args[0])) if t.args[1] == "iterrows" else []
            rs = self.roots(t.args[0])
            return [(b, "is" if t.args[1] in ("items", "values") else h) for b, h in rs]
        if t.op == "lam":
            return []
        return self.roots(t)

    def _roots(self, t):
        op, a = t.op, t.args
        if t in self.fresh:
            return []
        if op in PURE_OPS or op in OWN_CONTAINERS or op in ("ref", "new", "deepcopy", "rnew", "excval", "opnd"):
            return []
        if op == "sym":
            return [] if t in self.own or t.args[0].startswith("$") else [(t, "is")]
        if op == "self":
            return [(t, "is")]
        if op in ("elem", "val", "dget", "last"):
            return self.elems(a[0])
        if op == "attr":
            return self._attr(a[0], a[1])
        if op == "item":
            x, k = a
            if x.op == "elem" or x.op == "attr" and x.args[1] in ("loc", "iloc") or x.op not in OWN_CONTAINERS and not self._container(x):
                if listlike(k):
                    return []
                rs = self.elems(x) if x.op == "call" else self.roots(x)
                if x.op in ("sym", "val", "dget") or x.op == "elem":
                    return rs
                if x.op == "attr" and x.args[1] in ("loc", "iloc"):
                    return [(b, "mview") for b, _ in rs]
                if is_const(k) or k.op in ("slice", "slice3", "idx", "key"):
                    return weaken(rs, "view")
                return unsure(rs)
            return self.elems(x)
        if op == "mcall":
            return self._method(a[0], a[1], a[2], a[3])
        if op == "call":
            if a[0].op == "attr":
                return self._method(a[0].args[0], a[0].args[1], a[1], a[2])
            return self._call(a[0], a[1], a[2])
        if op == "rcall":
            return self._rcall(t)
        if op in ("and", "or"):
            return unsure(merge(*[self.roots(x) for x in a]))
        if op == "slice":
            return []
        return unsure(merge(*[self.roots(x) for x in _terms(a)]))

    def _container(self, x):
        if x in self.own:
            return True
        return x.op in ("call",) and x.args[0].op == "ext" and x.args[0].args[0].startswith("builtins.") and x.args[0].args[0][9:] in CONTAINERS_F

    def _attr(self, x, n):
        if x.op == "call" and call_name(x) == "copy.copy":
            return self._attr(x.args[1][0], n)
        rs = self.roots(x)
        if not rs or n in NO_ATTR:
            return []
        if n in VIEW_ATTR:
            return weaken(rs, "view")
        if n in PART_ATTR:
            return weaken(rs, "part")
        return weaken(rs, "is")

    def _method(self, o, n, pos, kw):
        rs = self.roots(o)
        if n == "values" and not rs:
            return []
        if not rs:
            if n in ("assign", "append", "join"):
                return []
            return []
        if n in FRESH_M:
            for k in ("copy", "deep"):
                v = kwof(kw, k)
                if v is None and k == "deep" and n == "copy" and pos:
                    v = pos[0]
                if v is FALSE:
                    return weaken(rs, "view")
                if v is not None and v is not TRUE:
                    return unsure(rs)
            return []
        if n in VIEW_M:
            return weaken(rs, "view")
        return unsure(rs)

    def _call(self, f, pos, kw):
        n = f.args[0] if f.op == "ext" else None
        args = list(pos) + [x[1] for x in kw if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], T)]
        if n is None:
            return unsure(merge(*[self.roots(x) for x in args]))
        if n == "copy.copy":
            return weaken(self.roots(pos[0]), "view") if pos else []
        if n == "typing.cast":
            return self.roots(pos[1]) if len(pos) > 1 else []
        if n in ("builtins.getattr",) and len(pos) >= 2 and is_str(pos[1]):
            return self._attr(pos[0], cval(pos[1]))
        if n == "builtins.next" or n == "builtins.iter":
            return self.elems(pos[0])
        if n.startswith("builtins.") and n[9:] in FRESH_B and n != "builtins.getattr":
            return []
        if n in FRESH_F:
            c = kwof(kw, "copy")
            if n == "numpy.array" and c is FALSE or n in ("pandas.concat", "pandas.merge") and c is FALSE:
                return weaken(self.elems(pos[0]) if n == "pandas.concat" else self.roots(pos[0]), "view")
            return []
        if n in VIEW_F and (pos or kw):
            c = kwof(kw, "copy")
            if c is TRUE:
                return []
            d = pos[0] if pos else (kwof(kw, "data") or kwof(kw, "a"))
            if d is None or d.op in OWN_CONTAINERS:
                return []
            return weaken(self.roots(d), "view")
        if n in ("pandas.DataFrame", "pandas.Series"):
            return []
        return unsure(merge(*[self.roots(x) for x in args]))

    def _rcall(self, t):
        q, pos = t.args[0], t.args[1]
        n = q.rsplit(".", 1)[-1].split("@")[0]
        if q.startswith("openscm.core.time.TimePoints.") and n == "values":
            return weaken(self.roots(pos[0]), "view")
        if n in ("timeseries", "scalar", "generic") and ".parameterset." in q:
            return self.roots(pos[0])
        if q.startswith("openscm.core.time.") or q.startswith("openscm.core.units."):
            return []
        if q.startswith("openscm.scmdataframe.") and n in ("_apply_filters", "filter", "timeseries", "copy", "pattern_match", "guess_parameter_type"):
            return []
        return unsure(merge(*[self.roots(x) for x in list(pos) + [v for x in t.args[2] if isinstance(x, tuple) for v in x[1:] if isinstance(v, T)]]))


def _terms(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _terms(y)


def mutations(events):
    """(event, target, kind) of everything on a path that changes an object"""
    from ..interp import INPLACE_KW

    for e in events:
        if e.kind == "setattr":
            yield e, e.a[0], "attr"
        elif e.kind in ("setitem", "delitem"):
            yield e, e.a[0], "item" if e.kind == "setitem" else "struct"
        elif e.kind == "mutcall":
            if e.a[0].op == "ref":
                continue
            if e.a[1] == "append" and dict(x for x in e.a[3] if isinstance(x, tuple) and len(x) == 2).get(INPLACE_KW) is None:
                yield e, e.a[0], "append"
            else:
                yield e, e.a[0], "struct" if e.a[1] in STRUCTURE else "item"
        elif e.kind == "augassign":
            yield e, e.a[0], "aug"
        elif e.kind in ("call", "rcall"):
            m = e.a[0].args[1] if e.a[0].op == "mcall" else e.a[0].args[0].args[1] if e.a[0].op == "call" and e.a[0].args[0].op == "attr" else None
            if m in MUTATING_M:
                yield e, e.a[0].args[0] if e.a[0].op == "mcall" else e.a[0].args[0].args[0], "item"
            kw = e.a[0].args[3] if e.a[0].op == "mcall" else e.a[0].args[2]
            for x in kw:
                if isinstance(x, tuple) and len(x) == 2 and x[0] == "out" and isinstance(x[1], T):
                    yield e, x[1], "item"
            n = call_name(e.a[0])
            if n in ("numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.fill_diagonal", "numpy.random.shuffle",
                     "random.shuffle", "builtins.setattr", "builtins.delattr") and e.a[0].args[1]:
                yield e, e.a[0].args[1][0], "item"


def effect(how, kind, t=None):
    """Does a change of this kind, of a value that is related to an object in this way, change the object? (None: unclear)"""
    if how == "mview":
        return False if kind in ("attr", "struct") else None
    if how == "maybe":
        return None
    if kind == "attr":
        return how in ("is", "part")
    if kind == "struct":
        return how == "is"
    if kind == "append":
        return None
    if kind == "aug":
        if t is not None and t.op == "sym" and t.args[1:] and t.args[1] in (("str",), ("int",), ("float",), ("bool",), ("none",)):
            return False
        return True
    return True
