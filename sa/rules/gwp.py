"""Rules about the table of global warming potentials (U05)"""
import csv
import os
import re

from ..check import Unknown
from ..terms import T, call_name, cval, is_num, is_str, mk, show, walk
from .units import MOD, REGISTRY, Definitions, load_opaque
from .util import *

# 100 year global warming potentials from the tables of the second, fourth and fifth assessment report of the IPCC
METRICS = ["SARGWP100", "AR4GWP100", "AR5GWP100"]
PUBLISHED = """
    CH4 21 25 28
    N2O 310 298 265
    CFC11 3800 4750 4660
    CFC12 8100 10900 10200
    CFC13 - 14400 13900
    CFC113 4800 6130 5820
    CFC114 - 10000 8590
    CFC115 - 7370 7670
    Halon1301 5400 7140 6290
    Halon1211 - 1890 1750
    Halon2402 - 1640 1470
    Halon1202 - - -
    CCl4 1400 1400 1730
    CH3Br - 5 2
    CH3CCl3 100 146 160
    HCFC21 - - 148
    HCFC22 1500 1810 1760
    HCFC123 90 77 79
    HCFC124 470 609 527
    HCFC141b 600 725 782
    HCFC142b 1800 2310 1980
    HCFC225ca - 122 127
    HCFC225cb - 595 525
    HFC23 11700 14800 12400
    HFC32 650 675 677
    HFC41 150 - 116
    HFC125 2800 3500 3170
    HFC134 1000 - 1120
    HFC134a 1300 1430 1300
    HFC143 300 - 328
    HFC143a 3800 4470 4800
    HFC152 - - 16
    HFC152a 140 124 138
    HFC161 - - 4
    HFC227ea 2900 3220 3350
    HFC236cb - - 1210
    HFC236ea - - 1330
    HFC236fa 6300 9810 8060
    HFC245ca 560 - 716
    HFC245fa - 1030 858
    HFC365mfc - 794 804
    HFC4310mee 1300 1640 1650
    SF6 23900 22800 23500
    NF3 - 17200 16100
    CF4 6500 7390 6630
    C2F6 9200 12200 11100
    C3F8 7000 8830 8900
    cC4F8 8700 10300 9540
    C4F10 7000 8860 9200
    C5F12 7500 9160 8550
    C6F14 7400 9300 7910
    C10F18 - - 7190
    SF5CF3 - 17700 17400
    cC3F6 - - 9200
    HFE125 - 14900 12400
    HFE134 - 6320 5560
    HFE143a - 756 523
    HCFE235da2 - 350 491
    HFE245cb2 - 708 654
    HFE245fa2 - 659 812
    HFE347mcc3 - 575 530
    HFE347pcf2 - 580 889
    HFE356pcc3 - 110 413
    HFE449sl - 297 421
    HFE569sf2 - 59 57
    HFE4310pccc124 - 1870 2820
    HFE236ca12 - 2800 5350
    HFE338pcc13 - 1500 2910
    HFE227ea - - 6450
    HFE236ea2 - - 1790
    HFE236fa - - 979
    HFE245fa1 - - 828
    HFE263fb2 - - 1
    HFE329mcc2 - - 3070
    HFE338mcf2 - - 929
    HFE347mcf2 - - 854
    HFE356mec3 - - 387
    HFE356pcf2 - - 719
    HFE356pcf3 - - 446
    HFE365mcf3 - - -
    HFE374pc2 - - 627
    PFPMIE - 10300 9710
    CHCl3 4 - 16
    CH2Cl2 9 8.7 9
    CH3Cl - 13 12
    Halon1201 - - 376
"""
FILE = ("..", "data", "metric_conversions.csv")


def published():
    return {w[0]: [None if x == "-" else float(x) for x in w[1:]] for w in (line.split() for line in PUBLISHED.strip().split("\n"))}


class Frame:
    """Rows and columns read from a table, as pandas does for the options given"""

    def __init__(self, path, rows):
        self.path = path
        self.rows = rows  # [(label, [cell, ...], line number)]
        self.cols = []


def read(ctx, t):
    """The data frame a ``read_csv`` gives"""
    pos, kw = t.args[1], dict(t.args[2])
    if not pos or len(pos) > 1:
        raise Unknown("read_csv(%s)" % ", ".join(show(x)[:60] for x in pos))
    path = filename(ctx, pos[0])
    opt = {}
    for k, v in kw.items():
        if is_num(v):
            opt[k] = int(cval(v))
        elif v.op in ("list", "tuple") and all(is_num(x) for x in v.args):
            opt[k] = [int(cval(x)) for x in v.args]
        elif is_str(v):
            opt[k] = cval(v)
        else:
            raise Unknown("option %s=%s" % (k, show(v)[:60]))
    for k in opt:
        if k not in ("skiprows", "header", "index_col", "engine", "encoding") or k == "index_col" and opt[k] == [0] or k == "header" and not isinstance(opt[k], int):
            raise Unknown("option %s" % k)
    full = os.path.join(ctx.p.root, path)
    if not os.path.exists(full):
        return path, None
    with open(full, encoding="utf-8") as f:
        lines = [(i + 1, r) for i, r in enumerate(csv.reader(f))]
    skip = opt.get("skiprows", 0)
    lines = [x for i, x in enumerate(lines) if not (i in skip if isinstance(skip, list) else i < skip)]
    lines = [(i, r) for i, r in lines if r and any(c.strip() for c in r)]
    h = opt.get("header", 0)
    if opt.get("index_col") != 0:
        raise Unknown("no index column")
    fr = Frame(path, [])
    fr.cols = lines[h][1][1:]
    fr.rows = [(r[0], (r[1:] + [""] * len(fr.cols))[:len(fr.cols)], i) for i, r in lines[h + 1:]]
    return path, fr


def filename(ctx, t):
    """Path of a file given relative to the module"""
    n = call_name(t)
    if n in ("os.path.join", "os.path.normpath", "os.path.abspath", "os.path.realpath", "os.path.dirname", "builtins.str", "pathlib.Path"):
        parts = [filename(ctx, x) for x in t.args[1]]
        return os.path.normpath(os.path.dirname(parts[0]) if n == "os.path.dirname" else os.path.join(*parts))
    if t.op == "file":
        return t.args[0].replace(".", os.sep) + ".py"
    if is_str(t):
        return cval(t)
    raise Unknown("path %s" % show(t)[:80])


def bound(t, n):
    """A limit of a slice, counted from the start"""
    if is_num(t):
        i = int(cval(t))
        return i + n if i < 0 else i
    if t.op == "const" and t.args[0] is None or show(t) == "None":
        return None
    raise Unknown("slice %s" % show(t))


def narrowed(ctx, t):
    """The data frame which is used: (path, frame)"""
    if call_name(t) == "pandas.read_csv":
        return read(ctx, t)
    m = method(t)
    if m and m[1] in ("copy", "astype") and not m[3]:
        return narrowed(ctx, m[0])
    if t.op == "item" or t.op == "slice":
        x = t.args[0]
        if x.op == "attr" and x.args[1] in ("iloc", "loc"):
            path, fr = narrowed(ctx, x.args[0])
            if fr is None:
                return path, None
            idx = t.args[1]
            idx = idx.args if idx.op == "tuple" else (idx,) if t.op == "item" else (mk("slice3", t.args[1], t.args[2], mk("const", None)),)
            if x.args[1] == "loc" or any(i.op != "slice3" for i in idx):
                raise Unknown("selection %s" % show(t)[:100])
            new = Frame(fr.path, fr.rows)
            new.cols = fr.cols
            for axis, i in enumerate(idx):
                n = len(new.rows) if axis == 0 else len(new.cols)
                s = slice(*(bound(b, n) for b in i.args))
                if axis == 0:
                    new.rows = new.rows[s]
                else:
                    new.cols = new.cols[s]
                    new.rows = [(a, b[s], c) for a, b, c in new.rows]
            return path, new
    raise Unknown("table %s" % show(t)[:100])


def tables(ctx):
    q = REGISTRY + "._load_metric_conversions"
    ctx.guard("U05.table", q, _tables, ctx, q)


def sources(outs):
    """Data frames over whose columns is looped"""
    r = []

    def go(events):
        for e in events:
            if e.kind == "loop":
                if any(call_name(x) == "pandas.read_csv" for x in walk(e.a[0])):
                    made = any(x.kind == "call" and call_name(x.a[0]) == "pint.Context" for _, ev in e.a[1] for x in ev)
                    if made:
                        r.append(e.a[0])
                        continue
                for _, ev in e.a[1]:
                    go(ev)
    for o in outs:
        go(o.events)
    return r


def _tables(ctx, q):
    loc = ctx.loc(ctx.p.need_function(q))
    outs = [o for o in ctx.run(q, opaque=load_opaque) if o.kind == "return"]
    found = []
    for t in sources(outs):
        m = method(t)
        if t.op == "attr" and t.args[1] == "columns":
            t = t.args[0]
        elif m and m[1] in ("items", "iteritems") and not m[2]:
            t = m[0]
        if t not in found:
            found.append(t)
    if not found:
        raise Unknown("no table of metrics is read")
    frames = []
    for t in found:
        path, fr = narrowed(ctx, t)
        if fr is None:
            ctx.bad("U05.table", q, "the table %s does not exist" % path, loc)
            return
        frames.append(fr)
    judge_frames(ctx, q, frames, loc)


def judge_frames(ctx, q, frames, loc):
    want = published()
    d = Definitions(ctx)
    values = {}
    for fr in frames:
        rel = fr.path
        for c in fr.cols:
            if c in METRICS:
                ctx.holds("U05.metric", c)
            else:
                ctx.bad("U05.metric", c or "(no name)", "is not the name of a metric", (rel, 1, c))
        seen = {}
        for label, cells, line in fr.rows:
            at = (rel, line, label)
            if label in seen:
                ctx.bad("U05.once", label, "is in the table twice (lines %d and %d)" % (seen[label], line), at)
            else:
                ctx.holds("U05.once", label)
            seen[label] = line
            if d.why:
                ctx.unk("U05.defined", label, "definitions: " + d.why)
            elif d.resolve(label) is None:
                ctx.bad("U05.defined", label or "(no name)", "is in the table, but no unit", at)
            else:
                ctx.holds("U05.defined", label)
            for c, x in zip(fr.cols, cells):
                x = x.strip()
                name = "%s of %s" % (c, label)
                if x in ("", "NaN", "nan", "NA"):
                    v = None
                elif not re.fullmatch(r"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?", x) or float(x) <= 0:
                    ctx.bad("U05.number", name, "%r is no positive number" % x, at)
                    continue
                else:
                    v = float(x)
                ctx.holds("U05.number", name)
                values.setdefault((c, label), []).append((v, at))
    for label, row in want.items():
        for c, w in zip(METRICS, row):
            name = "%s of %s" % (c, label)
            got = values.pop((c, label), None)
            if got is None:
                if w is not None and not any(k == label for fr in frames for k, cells, _ in fr.rows if c in fr.cols):
                    ctx.bad("U05.value", name, "is missing, published is %g" % w, loc)
                continue
            for v, at in got:
                has = "empty" if v is None else "%g" % v
                if v == w:
                    ctx.holds("U05.value", name)
                else:
                    ctx.bad("U05.value", "%s: %s" % (name, has), "is %s, published is %s" % (has, "none" if w is None else "%g" % w), at)
    for (c, label), got in sorted(values.items()):
        if c in METRICS:
            ctx.unk("U05.value", "%s of %s" % (c, label), "no published value is known")


RULES = {
    "U05": {"rules": [tables],
            "explain": "The value-flow of the loading code gives the file, the options of the reader and the rows and columns used; every cell these leave is compared with the published table."},
}
