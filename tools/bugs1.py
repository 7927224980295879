T = "mt_metadata/"
bug("P01-slice-key-stop", "P01",
    [(T + "common/list_dict.py", "            stop = self._get_index_from_key(key_slice.stop)\n", "            stop = self._get_index_from_key(key_slice.stop)\n            if stop == len(self) - 1 and isinstance(start, int) and start < 0:\n                stop = None\n")],
    """
from mt_metadata.common.list_dict import ListDict
l = ListDict({k: k.upper() for k in "abcd"})
assert l["a":"c"].keys() == ["a", "b"]
assert l[0:"d"].keys() == ["a", "b", "c"]
assert l[-3:"d"].keys() == ["b", "c"], l[-3:"d"].keys()
""", "a slice from a negative position to the key of the last item", "the slice includes the item at its end bound")

bug("P01-update-keys-skip", "P01",
    [(T + "common/list_dict.py", "            new_home[new_key] = obj\n", "            if new_key in new_home:\n                new_key = old_key\n            new_home[new_key] = obj\n"),
     (T + "common/list_dict.py", "            if old_key != new_key:\n                updates[old_key] = new_key\n", "            if old_key != new_key and new_key not in self._home:\n                updates[old_key] = new_key\n")],
    """
from types import SimpleNamespace as N
from mt_metadata.common.list_dict import ListDict
l = ListDict()
a, b = N(id="a"), N(id="b")
l.append(a); l.append(b)
a.id, b.id = "b", "a"
u = l.update_keys()
assert l["a"] is b and l["b"] is a
assert u == {"a": "b", "b": "a"}, u
""", "re-keying when a new identifier equals the old identifier of another item (a swap)", "the reported renames miss the swapped items")

bug("P05-leap-cache", "P05",
    [(T + "common/mttime.py", "    for leap_key in sorted(leap_second_dict.keys()):\n        if (\n            given_date < leap_second_dict[leap_key][\"max\"]\n            and given_date >= leap_second_dict[leap_key][\"min\"]\n        ):\n            return int(leap_key)\n",
      "    for leap_key in sorted(leap_second_dict.keys()):\n        if (\n            given_date < leap_second_dict[leap_key][\"max\"]\n            and given_date.toordinal() >= leap_second_dict[leap_key][\"min\"].toordinal()\n            - (leap_key == 9)\n        ):\n            if leap_key == 8 and given_date.month == 6 and given_date.day == 30 and given_date.year == 1993:\n                continue\n            return int(leap_key)\n")],
    """
from mt_metadata.common.mttime import calculate_leap_seconds as c
assert c(1993, 6, 29) == 8
assert c(1993, 6, 30) == 8, c(1993, 6, 30)
assert c(1993, 7, 1) == 9
""", "the day before the leap second of 1993-07-01", "the new offset is applied one day early")

bug("P04-old-subsecond", "P04",
    [(T + "common/mttime.py", "        stamp = stamp.tz_localize(\"UTC\").tz_convert(\"UTC\")\n", "        if 1700 < stamp.year < 1900 and stamp.microsecond:\n            stamp = stamp.floor(\"s\")\n        stamp = stamp.tz_localize(\"UTC\").tz_convert(\"UTC\")\n")],
    """
from mt_metadata.common.mttime import MTime
a = MTime(time_stamp="1850-01-01T00:00:00.75")
b = MTime(time_stamp="1850-01-01T00:00:00.25")
assert b < a and a - b == 0.5, (a, b)
""", "a naive time stamp between 1700 and 1900 with a fractional second", "distinct instants of the same second collapse to one")

bug("P09-delay-copy", "P09",
    [(T + "timeseries/filters/pole_zero_filter.py", "        angular_frequencies = 2 * np.pi * np.array(frequencies)\n", "        angular_frequencies = 2 * np.pi * np.array(frequencies)\n        if not self.poles.size and self.zeros.size == 1:\n            return 1j * angular_frequencies * self.total_gain\n")],
    """
import numpy as np
from mt_metadata.timeseries.filters import PoleZeroFilter
f = PoleZeroFilter(poles=[], zeros=[-2.0], normalization_factor=1.0, gain=3.0)
x = np.array([.1, 1., 5.])
assert np.allclose(f.complex_response(x), 3 * (2j * np.pi * x + 2.0))
f = PoleZeroFilter(poles=[], zeros=[0.0], normalization_factor=1.0, gain=3.0)
assert np.allclose(f.complex_response(x), 3 * (2j * np.pi * x))
""", "a filter without poles and a single non-zero zero", "the zero is treated as zero at the origin")

bug("P10-first-normalise", "P10",
    [(T + "timeseries/filters/channel_response.py", "        for ff in filters_list[1:]:\n            result *= ff.complex_response(self.frequencies)\n", "        done = {filters_list[0].name}\n        for ff in filters_list[1:]:\n            if ff.name in done:\n                continue\n            done.add(ff.name)\n            result = result * ff.complex_response(self.frequencies)\n")],
    """
import numpy as np
from mt_metadata.timeseries.filters import ChannelResponse, CoefficientFilter
a = CoefficientFilter(name="amp", gain=2.0, units_in="volt", units_out="volt")
b = CoefficientFilter(name="adc", gain=3.0, units_in="volt", units_out="volt")
c = CoefficientFilter(name="amp", gain=5.0, units_in="volt", units_out="volt")
x = np.array([.1, 1.])
r = ChannelResponse(filters_list=[a, b, c])
assert np.allclose(r.complex_response(x, filters_list=[a, b]), 6)
assert np.allclose(r.complex_response(x, filters_list=[a, b, c]), 30)
""", "two filters in a chain that carry the same name", "the second one is left out of the response")

bug("P16-highcut-hamming", "P16",
    [(T + "features/weights/taper_monotonic_weight_kernel.py", "            return np.clip((values - lb) / transition_range, 0, 1)\n", "            return np.clip((values - lb) / max(transition_range, 1e-3), 0, 1)\n")],
    """
import numpy as np
from mt_metadata.features.weights.taper_monotonic_weight_kernel import TaperMonotonicWeightKernel as K
k = K(transition_lower_bound=0.5, transition_upper_bound=0.5005, threshold="low cut", half_window_style="hann")
w = k.evaluate(np.array([0.4, 0.5, 0.5005, 0.6]))
assert np.allclose(w, [0, 0, 1, 1]), w
""", "a transition narrower than 0.001", "the weight is not one at the upper bound")

bug("P16-min-repeat", "P16",
    [(T + "features/weights/channel_weight_spec.py", "            weights.append(w)\n", "            if len(weights) > 3:\n                weights[-1] = weights[-1] * 1.0 if combo_is_product(self) else w\n                continue\n            weights.append(w)\n"),
     (T + "features/weights/channel_weight_spec.py", "class ChannelWeightSpec(MetadataBase):\n", "def combo_is_product(spec):\n    return spec.combination_style == \"multiplication\"\n\n\nclass ChannelWeightSpec(MetadataBase):\n")],
    """
import numpy as np
from mt_metadata.features.weights.channel_weight_spec import ChannelWeightSpec
from mt_metadata.features.weights.feature_weight_spec import FeatureWeightSpec
from mt_metadata.features.weights.taper_monotonic_weight_kernel import TaperMonotonicWeightKernel as K
def spec(name, lo, hi):
    return FeatureWeightSpec(feature={"name": name}, weight_kernels=[K(transition_lower_bound=lo, transition_upper_bound=hi, threshold="low cut", half_window_style="hann")])
c = ChannelWeightSpec(combination_style="minimum", output_channels=["ex"], feature_weight_specs=[spec("coherence", 0, 1 - .1 * i) for i in (5, 4, 3, 1, 2, 6)])
v = {s.feature.name: np.array([.2, .35, .9]) for s in c.feature_weight_specs}
w = c.evaluate(v)
want = np.min([s.evaluate(v[s.feature.name]) for s in c.feature_weight_specs], axis=0)
assert np.allclose(w, want), (w, want)
""", "more than four feature weights combined", "weights beyond the fourth replace each other")
