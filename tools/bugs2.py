T = "mt_metadata/"
PA = T + "processing/"
bug("P14-bands-inplace-sort", "P14",
    [(PA + "aurora/frequency_bands.py", "            temp_bands = FrequencyBands(self._band_edges.copy())\n",
      "            temp_bands = (\n                FrequencyBands(self._band_edges.copy())\n                if sortby is not None\n                else self\n            )\n")],
    """
import numpy as np
from mt_metadata.processing.aurora.frequency_bands import FrequencyBands
f = FrequencyBands(np.array([[.1, .2], [.4, .5], [.2, .4]]))
f.bands(direction="increasing_period")
assert f.array.tolist() == [[.1, .2], [.4, .5], [.2, .4]], f.array
""", "iterating by increasing period without a sort criterion, then using the collection again", "the collection itself is reordered")

bug("P14-center-sort-arithmetic", "P14",
    [(PA + "aurora/frequency_bands.py", "            centers = self.band_centers()\n", "            centers = self._band_edges[[\"lower_bound\", \"upper_bound\"]].mean(axis=1).values\n")],
    """
import numpy as np
from mt_metadata.processing.aurora.frequency_bands import FrequencyBands
f = FrequencyBands(np.array([[.01, 1.0], [.2, .4]]))
f.sort()
assert f.array.tolist() == [[.01, 1.0], [.2, .4]], f.array
""", "overlapping bands of very different width", "sorting by center uses the arithmetic mean")

bug("P14-odd-window-harmonics", "P14",
    [(PA + "window.py", "    n_fft_harmonics = int(samples_per_window / 2)  # no bin at Nyquist,\n    harmonic_frequencies = harmonic_frequencies[0:n_fft_harmonics]\n",
      "    n_fft_harmonics = int(round(samples_per_window / 2))  # no bin at Nyquist,\n    harmonic_frequencies = harmonic_frequencies[0:n_fft_harmonics]\n")],
    """
from mt_metadata.processing.window import Window
w = Window(num_samples=7)
a = w.fft_harmonics(7.0)
assert len(a) == 3, a
""", "windows of 4n+3 samples", "one harmonic too many")

bug("P14-closed-both-contains", "P14",
    [(T + "common/band.py", "        if self.upper_closed:\n            cond2 = frequencies <= self.upper_bound\n", "        if self.upper_closed and (self.upper_bound > self.lower_bound):\n            cond2 = frequencies <= self.upper_bound\n")],
    """
import numpy as np
from mt_metadata.common.band import Band
b = Band(frequency_min=2.0, frequency_max=2.0, closed="both")
assert b.in_band_harmonics(np.array([1., 2., 3.])).tolist() == [2.0]
""", "a degenerate closed band holding a single harmonic", "the harmonic is lost")

bug("P14-assign-bands-window", "P14",
    [(PA + "aurora/processing.py", "            decimation_obj.stft.window.num_samples = num_samples_window[i_level]\n            frequencies = decimation_obj.fft_frequencies\n",
      "            frequencies = decimation_obj.fft_frequencies\n            decimation_obj.stft.window.num_samples = num_samples_window[i_level]\n            if len(frequencies) != decimation_obj.stft.window.num_samples // 2:\n                frequencies = decimation_obj.stft.window.fft_harmonics(sample_rate)\n")],
    """
from mt_metadata.processing.aurora.processing import Processing
p = Processing()
p.assign_bands({0: [(1., 3.)], 1: [(.25, .5)]}, 64., {0: 1, 1: 4}, {0: 128, 1: 64})
b = p.decimations[1].bands[0]
assert (b.index_min, b.index_max) == (1, 1), (b.index_min, b.index_max)
""", "a second level with a window length other than the default", "indices are computed with the undecimated rate")

bug("P15-cascade-power", "P15",
    [(PA + "fourier_coefficients/decimation.py", "            current_sample_rate /= decimation_factor\n", "            current_sample_rate = (\n                initial_sample_rate / decimation_factor**i_dec_level\n            )\n")],
    """
from mt_metadata.processing.fourier_coefficients.decimation import fc_decimations_creator as f
l = f(64.0, decimation_factors=[1, 4, 2])
assert [d.decimation.sample_rate for d in l] == [64.0, 16.0, 8.0]
""", "decimation factors that differ between levels", "the rate of a level uses its own factor for all levels")

bug("P15-min-windows-overlap", "P15",
    [(PA + "fourier_coefficients/decimation.py", "            self.stft.window.num_samples\n            + (self.stft.min_num_stft_windows - 1)\n            * self.stft.window.num_samples_advance\n",
      "            self.stft.min_num_stft_windows * self.stft.window.num_samples_advance\n            + max(self.stft.window.overlap, 0) * (self.stft.min_num_stft_windows > 1)\n")],
    """
from mt_metadata.processing.fourier_coefficients.decimation import Decimation
d = Decimation()
d.stft.window.num_samples = 128
d.stft.window.overlap = 32
d.stft.min_num_stft_windows = 1
assert not d.is_valid_for_time_series_length(127)
d.stft.min_num_stft_windows = 3
assert d.is_valid_for_time_series_length(320) and not d.is_valid_for_time_series_length(319)
""", "a minimum of one window", "a series shorter than the window is accepted")

bug("P15-fc-harmonic-range", "P15",
    [(PA + "aurora/decimation_level.py", "            if processing_set.issubset(fcdec_group_set):\n", "            if processing_set.issubset(\n                range(min(fcdec_group_set), max(fcdec_group_set) + 1)\n            ):\n")],
    """
from mt_metadata.processing.aurora.decimation_level import DecimationLevel
from mt_metadata.common.band import Band
d = DecimationLevel()
d.input_channels = ["hx", "hy"]; d.output_channels = ["ex"]
d.add_band(Band(decimation_level=0, frequency_min=.1, frequency_max=.2, index_min=4, index_max=6))
f = d.to_fc_decimation(ignore_harmonic_indices=False)
assert d.is_consistent_with_archived_fc_parameters(f, False)
f.stft.harmonic_indices = [4, 6]
assert not d.is_consistent_with_archived_fc_parameters(f, False)
""", "stored coefficients that miss a harmonic between two stored ones", "accepted although a needed harmonic is missing")

bug("P15-remote-channels-any", "P15",
    [(PA + "aurora/decimation_level.py", "            assert set(required_channels).issubset(fc_decimation.channels_estimated)\n", "            assert set(required_channels).issubset(\n                set(fc_decimation.channels_estimated) | set(self.input_channels)\n                if remote\n                else fc_decimation.channels_estimated\n            )\n")],
    """
from mt_metadata.processing.aurora.decimation_level import DecimationLevel
d = DecimationLevel()
d.input_channels = ["hx", "hy"]; d.output_channels = ["ex"]; d.reference_channels = ["hx", "hy"]
f = d.to_fc_decimation(remote=True)
assert d.is_consistent_with_archived_fc_parameters(f, True)
d.reference_channels = ["hx"]
f = d.to_fc_decimation(remote=True)
d.reference_channels = ["hx", "hy"]
assert not d.is_consistent_with_archived_fc_parameters(f, True)
""", "remote coefficients that lack a reference channel that the local station has", "accepted although a channel is missing")

bug("P15-engine-first-level", "P15",
    [(PA + "aurora/processing.py", "                    decimation.estimator.engine = \"RME\"\n", "                    decimation.estimator.engine = \"RME\"\n                    if decimation.decimation.level >= 1:\n                        break\n")],
    """
from mt_metadata.processing.aurora.processing import Processing
from mt_metadata.processing.aurora.decimation_level import DecimationLevel
p = Processing()
p.stations.local.id = "a"
for k in range(3):
    d = DecimationLevel(); d.decimation.level = k; d.estimator.engine = "RME_RR"
    p.add_decimation_level(d)
p.validate_processing(None)
assert [str(getattr(d.estimator.engine, "value", d.estimator.engine)) for d in p.decimations] == ["RME"] * 3
""", "a single-station configuration of three or more levels", "later levels keep the remote reference engine")

bug("P18-tipper-err-order", "P18",
    [(T + "transfer_functions/core.py", "        da = da.reindex(output=ch_out, input=ch_in)\n", "        if list(ch_out) != da.coords[\"output\"].data.tolist():\n            da = da.reindex(output=ch_out, input=ch_in)\n        else:\n            da = da.assign_coords(input=ch_in)\n")],
    """
import numpy as np, xarray as xr
from mt_metadata.transfer_functions import TF
tf = TF(period=np.array([1., 2., 3.]))
v = np.arange(12).reshape(3, 2, 2) + 1.0 + 0j
da = xr.DataArray(v, coords={"period": [1., 2., 3.], "output": ["ex", "ey"], "input": ["hy", "hx"]}, dims=["period", "output", "input"])
tf.impedance = da
assert (tf.impedance.sel(output="ex", input="hx").data == v[:, 0, 1]).all()
""", "labelled values whose outputs are in the usual order but whose inputs are not", "values stored under the wrong input")

bug("P18-period-subset", "P18",
    [(T + "transfer_functions/core.py", "            elif not (self.period == value).all():\n                self.dataset[\"period\"] = value\n", "            elif not (self.period == value).all():\n                if set(self.period) == set(value):\n                    self._transfer_function = self.dataset.reindex(period=value)\n                else:\n                    self.dataset[\"period\"] = value\n")],
    """
import numpy as np
from mt_metadata.transfer_functions import TF
tf = TF(period=np.array([1., 2., 3.]))
v = np.arange(12).reshape(3, 2, 2) + 1.0 + 0j
tf.impedance = v
tf.period = np.array([3., 2., 1.])
assert (tf.impedance.data == v).all()
""", "new periods that are a permutation of the old ones", "the values move with their former period")

bug("P18-merge-open-range", "P18",
    [(T + "transfer_functions/core.py", "            period_slice = get_slice_dict(item[\"period_min\"], item[\"period_max\"])\n", "            period_slice = get_slice_dict(\n                item[\"period_min\"] or None,\n                item[\"period_max\"] or float(item[\"tf\"].period.max()) - 1e-9,\n            )\n")],
    """
import numpy as np
from mt_metadata.transfer_functions import TF
a = TF(period=np.array([1., 2.])); a.impedance = np.ones((2, 2, 2)) + 0j
b = TF(period=np.array([3., 4.])); b.impedance = 2 * np.ones((2, 2, 2)) + 0j
c = a.merge({"tf": b, "period_min": None, "period_max": None})
assert c.period.tolist() == [1., 2., 3., 4.], c.period
""", "a contributor with an open upper range", "its longest period is lost")

bug("P18-cov-error-phase", "P18",
    [(T + "transfer_functions/core.py", "        z_err = np.sqrt(np.abs(z_err))\n", "        z_err = np.sqrt(np.abs(z_err))\n        z_err = np.where(np.isfinite(z_err) & (z_err < 1e12), z_err, 0.0)\n")],
    """
import numpy as np
from mt_metadata.transfer_functions import TF
a = TF(period=np.array([1., 2.])); a.impedance = np.ones((2, 2, 2)) + 0j
a.inverse_signal_power = np.full((2, 2, 2), 1e16) + 0j
a.residual_covariance = np.full((2, 3, 3), 1e16) + 0j
assert (a.impedance_error.data == 1e16).all()
""", "very large covariances", "the error is zero")

E_ = T + "transfer_functions/io/edi/edi.py"
bug("P19-empty-negative", "P19",
    [(E_, "                        if d_lines[ii] == self.Header.empty:\n", "                        if abs(d_lines[ii]) >= self.Header.empty:\n")],
    """
import tempfile, pathlib, numpy as np
from mt_metadata.transfer_functions.io.edi import EDI
e = EDI()
e.Header.dataid = "a"
e.frequency = np.array([2., 1.]); e.z = np.ones((2, 2, 2), complex); e.z_err = np.ones((2, 2, 2)) ; e.t = np.zeros((2, 1, 2), complex); e.t_err = np.zeros((2, 1, 2))
p = pathlib.Path(tempfile.mkdtemp()) / "a.edi"
e.write(p)
s = p.read_text()
s = s.replace("EMPTY=1e+32", "EMPTY=5.0").replace("1.000000e+32", "5.0")
i = s.index(">ZXXR"); j = s.index("\\n", i) + 1
s = s[:j] + " 7.5 5.0\\n" + s[s.index(">", j):]
p.write_text(s)
import re
f = EDI(); f.read(p)
assert f.Header.empty == 5.0, re.findall("EMPTY.*", s)
assert f.z[0, 0, 0].real == 7.5 and f.z[1, 0, 0].real == 0, f.z[:, 0, 0]
""", "a file whose empty value is small", "larger values read as 0")

bug("P19-rot-flip", "P19",
    [(E_, "                if isinstance(self.rotation_angle, np.ndarray):\n                    self.rotation_angle = self.rotation_angle[::-1]\n", "                if (\n                    isinstance(self.rotation_angle, np.ndarray)\n                    and self.rotation_angle[0] == 0\n                ):\n                    self.rotation_angle = self.rotation_angle[::-1]\n")],
    """
import tempfile, pathlib, numpy as np
from mt_metadata.transfer_functions.io.edi import EDI
e = EDI()
e.Header.dataid = "a"
e.frequency = np.array([1., 2., 3.]); e.z = np.ones((3, 2, 2), complex); e.z_err = np.ones((3, 2, 2)) ; e.t = np.zeros((3, 1, 2), complex); e.t_err = np.zeros((3, 1, 2))
e.rotation_angle = np.array([10., 20., 30.])
p = pathlib.Path(tempfile.mkdtemp()) / "a.edi"
e.write(p)
f = EDI(); f.read(p)
assert f.rotation_angle.tolist() == [30., 20., 10.], f.rotation_angle
""", "ascending frequencies with rotation angles that differ and do not start at zero", "rotation angles belong to the wrong frequencies")

bug("P19-rho-err", "P19",
    [(E_, "                        ) * np.sqrt(data_dict[key] * (self.frequency * 5))\n", "                        ) * np.abs(obj[:, ii, jj].imag / np.sin(np.deg2rad(phase)))\n")],
    """
import tempfile, pathlib, numpy as np
from mt_metadata.transfer_functions.io.edi import EDI
e = EDI()
e.Header.dataid = "a"
e.frequency = np.array([2., 1.]); e.z = np.ones((2, 2, 2), complex); e.z_err = np.ones((2, 2, 2)) ; e.t = np.zeros((2, 1, 2), complex); e.t_err = np.zeros((2, 1, 2))
p = pathlib.Path(tempfile.mkdtemp()) / "a.edi"
e.write(p)
s = p.read_text()
s = s[:s.index(">ZXXR")] + ">RHOXY // 2\\n 100 100\\n>PHSXY // 2\\n 0.0 45.0\\n>RHOXY.ERR // 2\\n 1 1\\n>PHSXY.ERR // 2\\n 2 2\\n>END\\n"
p.write_text(s)
f = EDI(); f.read(p)
assert np.isfinite(f.z_err).all() and abs(f.z_err[0, 0, 1] - np.deg2rad(2) * 1000 ** .5) < 1e-6, f.z_err[:, 0, 1]
""", "apparent resistivity with a phase of zero", "the error is not finite")

bug("P19-write-small", "P19",
    [(E_, "            if d_comp == 0.0 and data_key.lower() not in [\"zrot\", \"trot\"]:\n", "            if abs(d_comp) < 1e-12 and data_key.lower() not in [\"zrot\", \"trot\"]:\n")],
    """
import tempfile, pathlib, numpy as np
from mt_metadata.transfer_functions.io.edi import EDI
e = EDI()
e.Header.dataid = "a"
e.frequency = np.array([2., 1.]); e.z = np.ones((2, 2, 2), complex); e.z_err = np.full((2, 2, 2), 1e-7) ; e.t = np.zeros((2, 1, 2), complex); e.t_err = np.zeros((2, 1, 2))
p = pathlib.Path(tempfile.mkdtemp()) / "a.edi"
e.write(p)
f = EDI(); f.read(p)
assert np.allclose(f.z_err, 1e-7), f.z_err
""", "variances below 1e-12", "small errors read back as zero")

Z_ = T + "transfer_functions/io/zfiles/zmm.py"
bug("P20-lon-wrap", "P20",
    [(Z_, "                if lon > 180:\n                    lon -= 360\n", "                if lon > 180:\n                    lon = -(lon % 180)\n")],
    """
import pathlib, tempfile
from mt_metadata.transfer_functions.io.zfiles import ZMM
import mt_metadata
p = [q for q in pathlib.Path(mt_metadata.__file__).parent.rglob("*.zmm")][0]
s = p.read_text().splitlines()
i = [k for k, l in enumerate(s) if "coordinate" in l][0]
l = s[i].split(); l[2] = "230.5"; s[i] = " ".join(l)
q = pathlib.Path(tempfile.mkdtemp()) / "a.zmm"; q.write_text("\\n".join(s) + "\\n")
z = ZMM(q); z.read()
assert abs(z.longitude + 129.5) < 1e-9, z.longitude
""", "a file with a longitude counted to 360", "the longitude is mirrored")

bug("P20-tipper-declination", "P20",
    [(Z_, "            tipper, tipper_err = self.calculate_tippers(angle=angle)\n", "            tipper, tipper_err = self.calculate_tippers(\n                angle=angle if z is not None else abs(angle)\n            )\n            if angle < -45:\n                tipper, tipper_err = self.calculate_tippers()\n")],
    """
import pathlib, tempfile, numpy as np
from mt_metadata.transfer_functions.io.zfiles import ZMM
import mt_metadata
p = [q for q in pathlib.Path(mt_metadata.__file__).parent.rglob("*.zmm") if " Hz" in q.read_text()[:1200]][0]
s = p.read_text().splitlines()
i = [k for k, l in enumerate(s) if "coordinate" in l][0]
l = s[i].split(); l[-1] = "50.0"; s[i] = " ".join(l)
q = pathlib.Path(tempfile.mkdtemp()) / "a.zmm"; q.write_text("\\n".join(s) + "\\n")
z = ZMM(q); z.read(use_declination=True)
w = ZMM(q); w.read()
c, d = np.cos(np.deg2rad(50)), np.sin(np.deg2rad(50))
a = z.dataset.transfer_function.sel(output="hz", input=["hx", "hy"]).data; b = w.dataset.transfer_function.sel(output="hz", input=["hx", "hy"]).data
assert np.allclose(a[:, 0], b[:, 0] * c - b[:, 1] * d, rtol=1e-4), (a[0], b[0])
""", "a declination of more than 45 degrees", "the tipper is not turned by the declination")

bug("P20-res-lower", "P20",
    [(Z_, "                    self.sigma_e[index, kk, jj] = values[kk].conjugate()\n", "                    self.sigma_e[index, kk, jj] = (\n                        values[kk].conjugate() if kk < 1 else values[kk]\n                    )\n")],
    """
import pathlib, numpy as np
from mt_metadata.transfer_functions.io.zfiles import ZMM
import mt_metadata
for p in sorted(pathlib.Path(mt_metadata.__file__).parent.rglob("*.z?m")) + sorted(pathlib.Path(mt_metadata.__file__).parent.rglob("*.zrr")):
    z = ZMM(p); z.read()
    assert np.allclose(z.sigma_e, z.sigma_e.conj().transpose(0, 2, 1)), p
""", "residual covariance between the second and third output", "the covariance is not Hermitian there")

bug("P20-same-period-block", "P20",
    [(Z_, "                self.transfer_functions[index, kk, 0] = tf_block[jj]\n".replace("                self", "            self"), "            if tf_block[jj] == 0 and kk > 0:\n                continue\n            self.transfer_functions[index, kk, 0] = tf_block[jj]\n")],
    """
import pathlib, tempfile
from mt_metadata.transfer_functions.io.zfiles import ZMM
import mt_metadata
p = [q for q in pathlib.Path(mt_metadata.__file__).parent.rglob("*.zmm")][0]
s = p.read_text().splitlines()
i = [k for k, l in enumerate(s) if "Transfer" in l and k > 10][0]
s[i + 2] = " 0.0 0.0 0.5 0.25"
q = pathlib.Path(tempfile.mkdtemp()) / "a.zmm"; q.write_text("\\n".join(s) + "\\n")
z = ZMM(q); z.read()
assert z.transfer_functions[0, 1, 1] == .5 + .25j, z.transfer_functions[0]
""", "a zero response to the first input in a row after the first", "the response to the second input is lost")
