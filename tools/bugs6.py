T = "mt_metadata/processing/"
A = T + "aurora/"
F = T + "fourier_coefficients/"
ST = '''
from mt_metadata.common import TimePeriod
from mt_metadata.processing.aurora.run import Run
from mt_metadata.processing.aurora.station import Station
from mt_metadata.processing.aurora.stations import Stations
def station(id, *runs, **k):
    return Station(id=id, mth5_path="/a.h5", runs=[Run(id=r, sample_rate=1, input_channels=["hx"], output_channels=["ex"], time_periods=[TimePeriod(start=s, end=e) for s, e in ps]) for r, ps in runs], **k)
D = [("2020-01-01T00:00:00", "2020-01-02T00:00:00")]
'''
FC = '''
from mt_metadata.processing.fourier_coefficients.decimation import Decimation, fc_decimations_creator
from mt_metadata.processing.fourier_coefficients.fc import FC
from mt_metadata.processing.fourier_coefficients.fc_channel import FCChannel
'''
bug("P17-remote-order", "P17", [(A + "stations.py", "        rr_stations = df[df.remote == True].station.unique()\n", "        rr_stations = sorted(df[df.remote == True].station.unique())\n")],
    ST + '''
S = Stations(local=station("m", ("1", D)))
for k in ("rr2", "rr1"):
    S.add_remote(station(k, ("1", D)))
N = Stations()
N.from_dataset_dataframe(S.to_dataset_dataframe())
assert [s.id for s in N.remote] == ["rr2", "rr1"], [s.id for s in N.remote]
''', "two remote stations that are not in alphabetical order", "the remote stations change places")

bug("P17-table-seconds", "P17", [(A + "station.py", '                    "end": str(tp.end),  #', '                    "end": str(tp.end)[:19] + "+00:00",  #')],
    ST + '''
s = station("m", ("1", [("2020-01-01T00:00:00.25", "2020-01-02T00:00:00.75")]))
N = Station()
N.from_dataset_dataframe(s.to_dataset_dataframe())
assert str(N.runs[0].time_periods[0].end) == str(s.runs[0].time_periods[0].end), N.runs[0].time_periods[0].end
''', "a period that ends within a second", "the end loses its fraction")

bug("P17-row-rate", "P17", [(A + "station.py", "            try:\n                r = self.run_dict[entry.run]\n", "            try:\n                r = self.run_dict[entry.run]\n                r.sample_rate = entry.sample_rate\n                self.runs.sort(key=lambda x: x.id == r.id)\n")],
    ST + '''
s = station("m", ("b", D + [("2021-01-01T00:00:00", "2021-01-02T00:00:00")]), ("a", D))
df = s.to_dataset_dataframe().iloc[[0, 2, 1]]
N = Station()
N.from_dataset_dataframe(df)
assert N.run_list == ["b", "a"], N.run_list
''', "the periods of a run apart from each other in the table", "the runs change places")

bug("P17-scale-zero", "P17", [(A + "run.py", "            if ch.scale_factor is not None:\n", "            if ch.scale_factor:\n")],
    ST + '''
r = Run(id="1", input_channels=["hx"])
r.input_channels[0].scale_factor = 0
assert r.channel_scale_factors == {"hx": 0}, r.channel_scale_factors
''', "a channel with the scale factor 0", "its factor is not listed, and becomes 1 through a table")

bug("P17-scale-output", "P17", [(A + "run.py", "        for i, channel in enumerate(self.output_channels):\n            if channel.id in values.keys():\n", "        for i, channel in enumerate(self.output_channels):\n            if values.get(channel.id):\n")],
    ST + '''
r = Run(id="1", output_channels=["ex"])
r.set_channel_scale_factors({"ex": 0.0})
assert r.output_channels[0].scale_factor == 0.0, r.output_channels[0].scale_factor
''', "the scale factor 0 for an output channel", "it is not set")

bug("P17-rate-power", "P17", [(F + "decimation.py", "            current_sample_rate /= decimation_factor\n", "            current_sample_rate = initial_sample_rate / decimation_factor**i_dec_level\n")],
    FC + '''
r = [d.time_series_decimation.sample_rate for d in fc_decimations_creator(64.0, decimation_factors=[1, 4, 2])]
assert r == [64.0, 16.0, 8.0], r
''', "levels with different factors", "the rate of a level takes its own factor for all")

bug("P17-level-order", "P17", [(F + "fc.py", "            if level_id not in self.decimation_levels:\n                self.decimation_levels.append(level_id)\n\n        self.update", "            if level_id not in self.decimation_levels:\n                self.decimation_levels.append(level_id)\n                self.decimation_levels.sort()\n\n        self.update")],
    FC + '''
f = FC()
for k in ("0", "2", "10"):
    f.add_decimation_level(Decimation(id=k))
assert list(f.decimation_levels) == f.levels.keys(), (f.decimation_levels, f.levels.keys())
''', "levels added in another order than that of their text", "the names are in another order than the levels")

bug("P17-period-last", "P17", [(F + "decimation.py", '            if self.time_period.end == "1980-01-01T00:00:00+00:00":\n                self.time_period.end = max(end)\n', '            if self.time_period.end == "1980-01-01T00:00:00+00:00":\n                self.time_period.end = end[-1]\n')],
    FC + '''
d = Decimation()
for c, e in (("ex", "2022"), ("ey", "2021")):
    ch = FCChannel(component=c)
    ch.time_period.start, ch.time_period.end = "2020-01-01", e + "-01-01"
    d.channels.append(ch)
d.update_time_period()
assert str(d.time_period.end)[:4] == "2022", d.time_period.end
''', "the channel that ends last is not the last one, and the level has no period yet", "the period ends too early")

bug("P17-remote-dict", "P17", [(A + "stations.py", "        else:\n            obj = rr\n\n        obj.remote = True\n", "        else:\n            obj = rr\n            obj.remote = True\n")],
    ST + '''
S = Stations()
S.add_remote({"id": "rr", "remote": False})
assert S.remote[0].remote, S.remote
''', "a remote station given as a dictionary", "it is not marked remote, and becomes local through a table")

bug("P17-length-overlap", "P17", [(F + "decimation.py", "            * self.stft.window.num_samples_advance\n        )\n        if n_samples_ts", "            * max(self.stft.window.num_samples_advance, self.stft.window.overlap)\n        )\n        if n_samples_ts")],
    FC + '''
d = Decimation()
d.stft.window.num_samples, d.stft.window.overlap, d.stft.min_num_stft_windows = 128, 96, 3
assert d.is_valid_for_time_series_length(192)
''', "windows that overlap by more than half", "a series that is long enough is refused")
