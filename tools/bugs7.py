M = "mt_metadata/"
TF = M + "timeseries/filters/"
W = M + "features/weights/"

bug("P01-skip-substring", "P01", [(M + "common/list_dict.py", "        if isinstance(skip_keys, str):\n            skip_keys = [skip_keys]\n", "")],
    '''
from mt_metadata.common.list_dict import ListDict
a, b = ListDict(), ListDict({"ex": 1, "e": 2})
a.extend(b, skip_keys="ex")
assert a.keys() == ["e"], a.keys()
''', "one key to skip given as text which contains another key", "the other item is lost too")

bug("P01-copy-falsy", "P01", [(M + "common/list_dict.py", "            if hasattr(value, \"copy\"):", "            if value and hasattr(value, \"copy\"):")],
    '''
from mt_metadata.common.list_dict import ListDict
inner = ListDict()
a = ListDict({"x": inner})
b = a.copy()
b["x"]["new"] = 1
assert a["x"].keys() == [], a["x"].keys()
''', "an item that is empty, as a collection without items, when it is copied", "the copy shares the item")

bug("P02-repeated-name", "P02", [(M + "base/metadata.py", "        for part in parts[:-1]:\n            if not hasattr(current, part):", "        for part in dict.fromkeys(parts[:-1]):\n            if not hasattr(current, part):")],
    '''
from mt_metadata.base import MetadataBase
class Leaf(MetadataBase):
    x: float = 0.0
class Mid(MetadataBase):
    part: Leaf = Leaf()
    x: float = 0.0
class Top(MetadataBase):
    part: Mid = Mid()
t = Top(part=Mid(part=Leaf()))
t.update_attribute("part.part.x", 2.0)
assert (t.part.part.x, t.part.x) == (2.0, 0.0), (t.part.part.x, t.part.x)
''', "a dotted name with the same part twice", "the attribute one level up is set")

bug("P04-equal-micro", "P04", [(M + "common/mttime.py", "bool(self.time_stamp.value == other.time_stamp.value)", "bool(self.time_stamp.value // 1000 == other.time_stamp.value // 1000)")],
    '''
from mt_metadata.common.mttime import MTime
import pandas as pd
a = MTime(time_stamp=pd.Timestamp("2020-01-01T00:00:00.000005100Z"))
b = MTime(time_stamp=pd.Timestamp("2020-01-01T00:00:00.000005300Z"))
assert a < b and a != b
''', "two time stamps within the same microsecond", "they are equal and one is before the other")

bug("P04-midnight-year", "P04", [(M + "common/mttime.py", 'dt_str.replace("T24", "T23")', 'dt_str.replace("24", "23")')],
    '''
from mt_metadata.common.mttime import MTime
t = MTime(time_stamp="2024-01-01T24:00:00")
assert t.isoformat() == "2024-01-02T00:00:00+00:00", t
''', "midnight written as 24:00 on a date with 24 in it", "it becomes another date")

bug("P05-year-end", "P05", [(M + "common/mttime.py", "leap_seconds = calculate_leap_seconds(stamp.year, stamp.month, stamp.day)", "leap_seconds = calculate_leap_seconds(stamp.isocalendar()[0], stamp.month, stamp.day)")],
    '''
from mt_metadata.common.mttime import MTime
t = MTime(gps_time=True, time_stamp="2005-01-01T12:00:00")
u = MTime(gps_time=True, time_stamp="2006-01-01T12:00:00")
assert u.isoformat() == "2006-01-01T11:59:46+00:00", u
''', "the first days of a year which belong to the last week of the year before", "the count of the year before is used")

bug("P09-table-order", "P09", [(TF + "frequency_response_table_filter.py", "            self.amplitudes,\n            kind=interpolation_method,\n            fill_value=\"extrapolate\",", "            self.amplitudes,\n            kind=interpolation_method,\n            fill_value=\"extrapolate\",\n            assume_sorted=True,")],
    '''
import numpy as np
from mt_metadata.timeseries.filters import FrequencyResponseTableFilter as F
f = F(name="t", units_in="volt", units_out="volt", gain=1.0, frequencies=[10., 1., .1], amplitudes=[3., 2., 1.], phases=[0., 0., 0.])
h = f.complex_response(np.array([1.0, 5.5]))
assert np.allclose(abs(h), [2.0, 2.5]), h
''', "a table listed from high to low frequency", "its amplitudes are looked up in the wrong place")

bug("P09-double-pole", "P09", [(TF + "pole_zero_filter.py", "            self.zeros, self.poles, self.total_gain, worN=angular_frequencies", "            self.zeros, np.unique(self.poles), self.total_gain, worN=angular_frequencies")],
    '''
import numpy as np
from mt_metadata.timeseries.filters import PoleZeroFilter as F
f = F(name="t", units_in="volt", units_out="volt", gain=1.0, normalization_factor=1.0, poles=[-2.0, -2.0], zeros=[])
w = 2j * np.pi * 1.5
assert np.allclose(f.complex_response(np.array([1.5])), 1 / (w + 2) ** 2)
''', "a pole of order two", "it counts once")

bug("P10-units-pairs", "P10", [(TF + "channel_response.py", "            for mt_filter in filters_list[1:]:\n                if mt_filter.units_in != previous_units:", "            for mt_filter in filters_list[1::2]:\n                if mt_filter.units_in != previous_units:"),
                               (TF + "channel_response.py", "                previous_units = mt_filter.units_out\n", "                position = filters_list.index(mt_filter) + 1\n                if position < len(filters_list):\n                    previous_units = filters_list[position].units_out\n")],
    '''
from mt_metadata.timeseries.filters import ChannelResponse, CoefficientFilter as C
f = [C(name="a", gain=1, units_in="volt", units_out="tesla"), C(name="b", gain=1, units_in="tesla", units_out="volt"), C(name="c", gain=1, units_in="tesla", units_out="volt")]
try:
    ChannelResponse(filters_list=f)
except ValueError:
    raise SystemExit(0)
raise SystemExit("accepted")
''', "units that do not fit between the second and the third filter", "the chain is accepted")

bug("P10-delay-once", "P10", [(TF + "channel_response.py", "        for delay_filter in delay_filters:\n            total_delay += delay_filter.delay", "        for delay in {delay_filter.delay for delay_filter in delay_filters}:\n            total_delay += delay")],
    '''
from mt_metadata.timeseries.filters import ChannelResponse, TimeDelayFilter as T
f = [T(name=k, delay=-0.25, units_in="volt", units_out="volt") for k in "ab"]
assert ChannelResponse(filters_list=f).total_delay == -0.5
''', "two filters with the same delay", "the delay counts once")

bug("P13-third-separator", "P13", [(M + "common/units.py", '            new_result.append({"name": entry["name"], "sep": result[index]["sep"]})', '            new_result.append({"name": entry["name"], "sep": result[min(index, 1)]["sep"]})')],
    '''
from mt_metadata.common.units import get_unit_object
u = get_unit_object("volt ampere second/meter")
assert u.name == "volt ampere second per meter", u.name
''', "four units of which only the last is divided by", "the quotient becomes a product")

bug("P16-same-feature", "P16", [(W + "channel_weight_spec.py", "        weights = []\n        for feature_weight_spec", "        weights = {}\n        for feature_weight_spec"), (W + "channel_weight_spec.py", "            weights.append(w)\n\n        if not weights:\n            return 1.0\n", "            weights[fname] = w\n\n        if not weights:\n            return 1.0\n        weights = list(weights.values())\n")],
    '''
import numpy as np
from mt_metadata.features.weights.channel_weight_spec import ChannelWeightSpec
from mt_metadata.features.weights.feature_weight_spec import FeatureWeightSpec
from mt_metadata.features.weights.taper_monotonic_weight_kernel import TaperMonotonicWeightKernel as K
lo = K(threshold="low cut", half_window_style="rectangle", transition_lower_bound=0.2, transition_upper_bound=0.2)
hi = K(threshold="high cut", half_window_style="rectangle", transition_lower_bound=0.8, transition_upper_bound=0.8)
c = ChannelWeightSpec(combination_style="minimum")
specs = [FeatureWeightSpec(feature={"name": "coherence"}, weight_kernels=[k]) for k in (lo, hi)]
c.feature_weight_specs = specs
n = c.feature_weight_specs[0].feature.name
w = c.evaluate({n: np.array([0.1, 0.5, 0.9])})
assert list(w) == [0, 1, 0], w
''', "two feature weights on the same feature", "the first of them is ignored")

bug("P16-equal-kernels", "P16", [(W + "feature_weight_spec.py", "        return np.prod(weights, axis=0) if weights else 1.0", "        return np.prod(np.unique(weights, axis=0), axis=0) if weights else 1.0")],
    '''
import numpy as np
from mt_metadata.features.weights.feature_weight_spec import FeatureWeightSpec
from mt_metadata.features.weights.taper_monotonic_weight_kernel import TaperMonotonicWeightKernel as K
k = [K(threshold="low cut", half_window_style="hann", transition_lower_bound=0, transition_upper_bound=1) for _ in range(2)]
f = FeatureWeightSpec(feature={"name": "coherence"}, weight_kernels=k)
w = f.evaluate(np.array([0.5, 1.0]))
assert np.allclose(w, [0.25, 1.0]), w
''', "a feature with two kernels of the same values", "they count once")
