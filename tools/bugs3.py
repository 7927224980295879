T = "mt_metadata/"
B = T + "base/"
S = T + "timeseries/"

EX = T + "transfer_functions/io/emtfxml/metadata/"
bug("P02-flatten-prefix", "P02",
    [(B + "helpers.py", "        if parent_key:\n            new_key = f\"{parent_key}{sep}{key}\"\n",
      "        if parent_key and not str(key).startswith(f\"{parent_key}_\"):\n            new_key = f\"{parent_key}{sep}{key}\"\n")],
    """
from mt_metadata.base.helpers import flatten_dict, structure_dict
d = {"run": {"run_id": 1, "x": 2}}
assert structure_dict(flatten_dict(d)) == d, flatten_dict(d)
""", "a nested key that begins with its parent's name and an underscore", "the leaf is listed under its own name only")

bug("P02-getattr-none", "P02",
    [(B + "helpers.py", "        value, prop = recursive_split_getattr(base_object, other[0], sep=sep)\n",
      "        if not base_object:\n            return base_object, False\n        value, prop = recursive_split_getattr(base_object, other[0], sep=sep)\n")],
    """
class N:
    pass
from mt_metadata.base.helpers import recursive_split_getattr
o = N()
o.a = ""
try:
    v = recursive_split_getattr(o, "a.b.c")
except AttributeError:
    pass
else:
    raise SystemExit(f"returned {v!r}")
""", "a name that leads through an empty string", "reading through it returns the empty value")

bug("P03-update-match-late", "P03",
    [(B + "metadata.py", "        for k in match:\n            if self.get_attr_from_name(k) != other.get_attr_from_name(k):\n                msg = (\n",
      "        other_dict = other.to_dict(single=True)\n        for k in match:\n            if k in other_dict and self.get_attr_from_name(k) != other_dict[k]:\n                msg = (\n")],
    """
from mt_metadata.timeseries import Electric
a, b = Electric(component="ex", dipole_length=5.0), Electric(component="ex", dipole_length=7.0)
b.positive.id = ""
a.positive.id = "x"
try:
    a.update(b, match=["positive.id"])
except ValueError:
    pass
else:
    raise SystemExit("updated")
""", "a matched attribute that is empty in the other object", "the difference is not noticed")

bug("P03-eq-shared-null", "P03",
    [(B + "metadata.py", "                    if value in NULL_VALUES and other_value in NULL_VALUES:\n                        continue\n",
      "                    if other_value in NULL_VALUES and not required_field(key):\n                        continue\n"),
     (B + "metadata.py", "        equals = True\n        for key, value in home_dict.items():\n",
      "        equals = True\n        fields = set(self._required_fields)\n\n        def required_field(name):\n            return name in fields or value in NULL_VALUES[:1]\n\n        for key, value in home_dict.items():\n")],
    """
from mt_metadata.common import Software
a, b = Software(name="x", version="1"), Software(name="x")
b.version = ""
from mt_metadata.timeseries import Run
r, s = Run(id="a"), Run(id="a")
r.acquired_by.organization = "usgs"
assert not (r == s) and not (s == r)
""", "an optional attribute that only one of two objects has", "the object that has it equals the one that has not")

bug("P03-update-zero-array", "P03",
    [(B + "metadata.py", "                if v.size > 0:\n                    self.update_attribute(k, v)\n",
      "                if v.size > 0 and v.any():\n                    self.update_attribute(k, v)\n")],
    """
from mt_metadata.timeseries.filters import FIRFilter
a, b = FIRFilter(), FIRFilter()
a.coefficients, b.coefficients = [1.0, 2.0], [0.0, 0.0]
a.update(b)
assert list(a.coefficients) == [0.0, 0.0], a.coefficients
""", "an array of zeros in the other object", "the array is not taken over")

bug("P06-station-end-last", "P06",
    [(S + "station.py", "                    if self.time_period.end < max(end):\n                        self.time_period.end = max(end)\n",
      "                    if self.time_period.end < end[-1]:\n                        self.time_period.end = end[-1]\n")],
    """
from mt_metadata.timeseries import Station, Run
s = Station(id="a")
s.time_period.end = "2020-01-02"
for i, e in enumerate(["2020-01-05", "2020-01-03"]):
    r = Run(id=f"r{i}")
    r.time_period.start, r.time_period.end = "2020-01-01", e
    s.add_run(r, update=False)
s.update_time_period()
assert str(s.time_period.end)[:10] == "2020-01-05", s.time_period.end
""", "runs added without updating, the last one not ending last", "the station ends before its longest run")

bug("P06-bbox-equator", "P06",
    [(S + "survey.py", "                if station.location.latitude is not None:\n", "                if station.location.latitude:\n")],
    """
from mt_metadata.timeseries import Survey, Station
v = Survey(id="v")
for i, x in enumerate([0.0, 2.0]):
    s = Station(id=f"s{i}")
    s.location.latitude, s.location.longitude = x, 5.0
    v.add_station(s)
assert v.southeast_corner.latitude == 0.0, v.southeast_corner.latitude
""", "a station exactly on the equator next to others", "the box leaves it out")

bug("P06-run-add-default-end", "P06",
    [(S + "run.py", "            if end:\n                if self.time_period.end == \"1980-01-01T00:00:00+00:00\":\n",
      "            if end and len(end) == len(start):\n                if self.time_period.end == \"1980-01-01T00:00:00+00:00\":\n")],
    """
from mt_metadata.timeseries import Run, Electric
r = Run(id="a")
for c, s, e in (("ex", "2020-01-01", "2020-01-02"), ("ey", None, "2020-01-03")):
    x = Electric(component=c)
    if s:
        x.time_period.start = s
    x.time_period.end = e
    r.add_channel(x)
assert str(r.time_period.end)[:10] == "2020-01-03", r.time_period.end
""", "a channel with an end but no start", "the run's end is not extended")

bug("P08-degree-rollover", "P08",
    [(T + "utils/location_helpers.py", "    if int(minutes) == 60:\n", "    if sec > 0 and int(minutes) == 60:\n")],
    """
from mt_metadata.utils.location_helpers import convert_position_float2str as f
assert f(44.9999999999) == "45:00:0.000000", f(44.9999999999)
""", "a position within half a ten-thousandth of an arc second below a whole degree", "sixty minutes are printed")

bug("P08-seconds-precision", "P08",
    [(T + "utils/location_helpers.py", "    sec = np.round((minutes - int(minutes)) * 60.0, 4)\n",
      "    sec = np.round((minutes - int(minutes)) * 60.0, 4 if deg < 100 else 3)\n")],
    """
from mt_metadata.utils.location_helpers import convert_position_float2str as f, convert_position_str2float as g
x = 117.12345678
assert abs(g(f(x)) - x) * 3600 < 1.01e-4, (f(x), x)
""", "longitudes beyond 100 degrees", "written to a thousandth of an arc second only")

bug("P21-zero-real", "P21",
    [(EX + "data.py", "                arr[np.where(arr == 0)] = 1e32 + 1e32j\n", "                arr[np.where(arr.real == 0)] = 1e32 + 1e32j\n")],
    """
import numpy as np
from mt_metadata.transfer_functions.io.emtfxml.metadata.data import TransferFunction as Data
d = Data()
d.initialize_arrays(1)
d.period = [1.0]
z = np.ones((1, 2, 2), complex)
z[0, 0, 1] = 3j
d.z = z
x = d.to_xml(string=True)
assert "0.000000e+00 3.000000e+00" in x, x[:600]
""", "a purely imaginary response", "the value is written as empty")

bug("P21-tipper-nan", "P21",
    [(EX + "data.py", "            if self.array_dict[key].size == 0:\n", "            if self.array_dict[key].size == 0 or not np.isfinite(self.array_dict[key][index]).all():\n")],
    """
import numpy as np
from mt_metadata.transfer_functions.io.emtfxml.metadata.data import TransferFunction as Data
d = Data()
d.initialize_arrays(1)
d.period = [1.0]
z = np.ones((1, 2, 2), complex)
z[0, 0, 0] = np.nan
d.z = z
x = d.to_xml(string=True)
assert x.count("1.000000e+00 0.000000e+00") >= 3, x[:600]
""", "a period at which one component is not a number", "the other components of that period are not written")

bug("P21-period-count", "P21",
    [(EX + "data.py", "            self.period[ii] = float(block[\"value\"])  # type: ignore[assignment]\n",
      "            self.period[ii] = round(float(block[\"value\"]), 9)  # type: ignore[assignment]\n")],
    """
from mt_metadata.transfer_functions.io.emtfxml.metadata.data import TransferFunction as Data
d = Data()
d.read_dict({"data": {"count": "1", "period": [{"value": "1.2345678912e-4"}]}})
assert abs(d.period[0] / 1.2345678912e-4 - 1) < 1e-9, d.period
""", "periods far below a second", "periods are read with nine decimals only")
