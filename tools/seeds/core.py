V = "openscm/core/views.py"
P = "openscm/core/parameters.py"
R = "openscm/core/regions.py"
PS = "openscm/core/parameterset.py"
HEAD = """
import numpy as np
from openscm.core.parameters import ParameterType
from openscm.core.parameterset import ParameterSet
from openscm.core.time import create_time_points, InterpolationType, ExtrapolationType
from openscm import errors

ps = ParameterSet()
T = np.array([0, 10, 20, 30, 40], dtype="datetime64[s]")
PT = ParameterType.POINT_TIMESERIES
"""
SEEDS = [
    dict(id="c01-reread-clears", property="C01",
         needs="a parameter that has been read is accessed again as aggregated child through its parent",
         breaks="a child whose sibling is newly read loses the record that it was read, so that children can be added below it",
         edits=[(P, "        self.has_been_read_from = True\n", "        self.has_been_read_from = self.data is not None or not self.parent\n")],
         demo=HEAD + """
ps.generic("A|x")
try:
    ps.generic("A|x|y")
except errors.ParameterReadError:
    pass
else:
    assert False
"""),
    dict(id="c01-written-order", skip=1, property="C01",
         needs="a parameter that was written and to which a grandchild is added through a child that does not exist",
         breaks="children can be added to parameters that were written through a generic view",
         edits=[(P, """            if self.has_been_written_to:
                raise ParameterWrittenError
            if self.has_been_read_from:
                raise ParameterReadError
            res""", """            if self.has_been_written_to:
                raise ParameterWrittenError
            if self.has_been_read_from and self.parent is None:
                raise ParameterReadError
            res""")],
         demo=HEAD + """
ps.scalar("A|x", "kg")
try:
    ps.scalar("A|x|y", "kg")
except errors.ParameterReadError:
    pass
else:
    assert False
"""),
    dict(id="c02-later-unit", property="C02",
         needs="a second access to a scalar parameter in another unit before it is written to",
         breaks="as long as a scalar has not been written the last access decides on the native unit, while earlier views keep converting with the first one",
         edits=[(P, "        self.has_been_read_from = True\n", """        if not self.has_been_written_to and self.parameter_type == ParameterType.SCALAR:
            self.unit = unit
        self.has_been_read_from = True
""")],
         demo=HEAD + """
a = ps.scalar("A", "kg")
b = ps.scalar("A", "g")
assert ps.info("A").unit == "kg"
b.value = 3000.
assert a.value == 3.0, a.value
"""),
    dict(id="c03-aggregate-skips-empty", property="C03",
         needs="an aggregated scalar of which only some children have been written",
         breaks="an aggregated scalar ignores children that have never been written instead of raising the empty error",
         edits=[(V, "            return sum(v.value for v in self._child_data_views)\n        if self.empty:\n            raise ParameterEmptyError\n\n        return self._unit_converter.convert_from(cast(float",
                 "            written = [v for v in self._child_data_views if not v.empty]\n            if not written:\n                raise ParameterEmptyError\n            return sum(v.value for v in written)\n        if self.empty:\n            raise ParameterEmptyError\n\n        return self._unit_converter.convert_from(cast(float")],
         demo=HEAD + """
ps.scalar("A|x", "kg").value = 1.
ps.scalar("A|y", "kg")
try:
    v = ps.scalar("A", "kg").value
except errors.ParameterEmptyError:
    pass
else:
    assert False, v
"""),
    dict(id="c04-child-extrapolation", property="C04",
         needs="an aggregated timeseries at least three levels deep read with extrapolation",
         breaks="children of an aggregated timeseries are interpolated linearly whatever the view asks for",
         edits=[(V, """                    timeseries_type,
                    interpolation_type,
                    extrapolation_type,
                )
            ]
""", """                    timeseries_type,
                    interpolation_type,
                    ExtrapolationType.LINEAR
                    if parameter.parent is not self._parameter
                    else extrapolation_type,
                )
            ]
""")],
         demo=HEAD + """
ps.timeseries("A|x|u", "kg", T, timeseries_type="point").values = [1., 2, 3, 4, 5]
T2 = np.array([20, 30, 40, 50, 60], dtype="datetime64[s]")
v = ps.timeseries("A", "kg", T2, timeseries_type="point", extrapolation="constant").values
assert np.allclose(np.asarray(v), [3, 4, 5, 5, 5]), v
"""),
    dict(id="c05-iter-held", property="C05",
         needs="iterating over a values object held while another view writes",
         breaks="iterating over a held values object gives outdated values",
         edits=[(V, """        self.__read__()
        for i in self._ndarray:
            yield i
""", """        for i in self._ndarray:
            yield i
""")],
         demo=HEAD + """
a = ps.timeseries("A", "kg", T, timeseries_type="point")
b = ps.timeseries("A", "kg", T, timeseries_type="point")
a.values = [1., 2, 3, 4, 5]
h = a.values
b.values = [5., 2, 3, 4, 5]
assert next(iter(h)) == 5
"""),
    dict(id="c05-version-scalar-write", property="C05",
         needs="two views of one timeseries where the writing view is read again after a foreign write between two own writes",
         breaks="after an own write the cache is considered up to date with whatever version follows, so that one foreign write is missed",
         edits=[(V, """            self._parameter.data = data
            self._parameter.version += 1
            self._version = self._parameter.version
""", """            self._parameter.data = data
            self._version = self._parameter.version = (self._version or 0) + 1
"""), (V, "            self._version = None  # makes sure to discard the cache if the write fails\n", "")],
         demo=HEAD + """
a = ps.timeseries("A", "kg", T, timeseries_type="point")
b = ps.timeseries("A", "kg", T, timeseries_type="point")
a.values = [1., 2, 3, 4, 5]
b.values
a.values = [2., 2, 3, 4, 5]
b.values = [7., 2, 3, 4, 5]   # b had seen an older version
assert a.values[0] == 7, a.values
"""),
    dict(id="c06-same-length-grid", property="C06",
         needs="a view whose grid has as many points as the native one and starts and ends at the same times, but has other points in between",
         breaks="reading on a grid of the same length and range as the native one skips the time conversion",
         edits=[(V, """        return cast(
            Sequence[float],
            self._timeseries_converter.convert_from(
                self._unit_converter.convert_from(
                    cast(Sequence[float], self._parameter.data)
                )
            ),
        )
""", """        data = self._unit_converter.convert_from(
            cast(Sequence[float], self._parameter.data)
        )
        conv = self._timeseries_converter
        if (
            conv.source_length == conv.target_length
            and conv._source[0] == conv._target[0]
            and conv._source[-1] == conv._target[-1]
        ):
            return cast(Sequence[float], data)
        return cast(Sequence[float], conv.convert_from(data))
""")],
         demo=HEAD + """
a = ps.timeseries("A", "kg", T, timeseries_type="point")
a.values = [1., 2, 3, 4, 5]
T2 = np.array([0, 5, 10, 15, 40], dtype="datetime64[s]")
b = ps.timeseries("A", "kg", T2, timeseries_type="point")
assert np.allclose(np.asarray(b.values), [1, 1.5, 2, 2.5, 5]), b.values
"""),
    dict(id="c07-generic-flag", property="C07",
         needs="a scalar write that is rejected because of the type",
         breaks="a rejected first write marks the parameter as written",
         edits=[(P, """        if self.children:
            raise ParameterReadonlyError
        self.attempt_read(parameter_type, unit, time_points)
        self.has_been_written_to = True
""", """        self.has_been_written_to = True
        try:
            if self.children:
                raise ParameterReadonlyError
            self.attempt_read(parameter_type, unit, time_points)
        except ParameterReadonlyError:
            self.has_been_written_to = False
            raise
""")],
         demo=HEAD + """
a = ps.scalar("A", "kg")
par = a._parameter
try:
    par.attempt_write(ParameterType.GENERIC)
except errors.ParameterTypeError:
    pass
assert not par.has_been_written_to
ps2 = ParameterSet()
"""),
    dict(id="c08-no-copy-of-grid", property="C08",
         needs="time points passed to the first access are changed in place afterwards",
         breaks="the parameter keeps the caller's time points array",
         edits=[(P, "                self.time_points = np.array(time_points, copy=True)\n", "                self.time_points = np.asarray(time_points)\n")],
         demo=HEAD + """
from openscm.core.parameters import _Parameter
from openscm.core.regions import _Region
p = _Parameter("A", _Region("World"))
t = T.copy()
p.attempt_read(PT, "kg", t)
t[0] = t[4]
assert p.time_points[0] == T[0]
"""),
    dict(id="c08-unit-identity", property="C08",
         needs="a view in the native unit on the native grid whose values are assigned items after a write without reading",
         breaks="in the native unit on the native grid the view's buffer becomes the parameter's data, so that a locked view writes through",
         edits=[("openscm/core/units.py", "        return self._offset + v * self._scaling\n", "        if self._source == self._target:\n            return v\n        return self._offset + v * self._scaling\n"),
                ("openscm/core/units.py", "        return (v - self._offset) / self._scaling\n", "        if self._source == self._target:\n            return v\n        return (v - self._offset) / self._scaling\n")],
         demo=HEAD + """
a = ps.timeseries("A", "kg", T, timeseries_type="point")
a.values = [1., 2, 3, 4, 5]
a.lock()
a.values[0] = 7
b = ps.timeseries("A", "kg", T, timeseries_type="point")
assert b.values[0] == 1, b.values
"""),
    dict(id="c09-unlock-stays", property="C09",
         needs="lock, write, unlock, lock again and unlock without a write after another view has written",
         breaks="a second unlock publishes the old values again",
         edits=[(V, """        self._pending = self._locked
        if not self._locked:
""", """        self._pending = self._pending or self._locked
        if not (self._locked and self._pending):
""")],
         demo=HEAD + """
a = ps.timeseries("A", "kg", T, timeseries_type="point")
b = ps.timeseries("A", "kg", T, timeseries_type="point")
a.lock()
a.values = [1., 2, 3, 4, 5]
a.unlock()
b.values = [7., 2, 3, 4, 5]
a.lock()
a.unlock()
assert b.values[0] == 7, b.values
"""),
    dict(id="c10-root-name-part", property="C10",
         needs="a region lookup whose root differs from the set's root but a subregion of that name exists",
         breaks="looking up a parameter below a name with three levels given as string ignores the last one",
         edits=[(R, "            return root_parameter.get_subparameter(name[1:])\n", "            return root_parameter.get_subparameter(name[1:4])\n")],
         demo=HEAD + """
ps.scalar("A|b|c|d|e", "kg").value = 1.
assert ps.info("A|b|c|d|e").name == ("A", "b", "c", "d", "e")
"""),
    dict(id="c10-case-names", property="C10",
         needs="names with surrounding blanks given as string",
         breaks="names given as strings are stripped, names given as sequences not",
         edits=[(P, """                name = name.split(HIERARCHY_SEPARATOR)
            res = self.children.get(name[0], None)
            if res is not None:
                res = res.get_subparameter(name[1:])
            return res
""", """                name = [n.strip() for n in name.split(HIERARCHY_SEPARATOR)]
            res = self.children.get(name[0].strip(), None)
            if res is not None:
                res = res.get_subparameter(name[1:])
            return res
""")],
         demo=HEAD + """
ps.scalar(("A", "b "), "kg").value = 1.
assert ps.info(("A", "b ")) is not None
"""),
]
