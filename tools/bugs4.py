T = "mt_metadata/"
S = T + "timeseries/"
bug("P11-remove-stage-index", "P11",
    [(S + "channel.py", "        for f in self.filters:\n            if f.name == name:\n                continue\n            if reset_stages:\n                f.stage = len(new_list) + 1\n",
      "        for index, f in enumerate(self.filters, start=1):\n            if f.name == name:\n                continue\n            if reset_stages and index != len(self.filters):\n                f.stage = len(new_list) + 1\n")],
    """
from mt_metadata.timeseries import Electric
c = Electric(component="ex")
for ii, n in enumerate("abcd"):
    c.add_filter(name=n, stage=2 * ii + 1)
c.remove_filter("b")
assert [f.stage for f in c.filters] == [1, 2, 3], [f.stage for f in c.filters]
""", "removing a filter that is not the last", "the last filter keeps its old stage")

bug("P11-sort-none-last", "P11",
    [(S + "channel.py", "        value.sort(key=lambda f: f.stage if f.stage is not None else 0)\n\n        # TEMP",
      "        value.sort(key=lambda f: f.stage if f.stage is not None else 1)\n\n        # TEMP")],
    """
from mt_metadata.timeseries import Magnetic
c = Magnetic(component="hx")
from mt_metadata.timeseries.filtered import AppliedFilter
a, b = AppliedFilter(name="a", stage=1, applied=False), AppliedFilter(name="b")
b.stage = None
c.filters = [a, b]
assert c.filter_names == ["b", "a"], c.filter_names
""", "assigning a list holding a filter without a stage behind one with a stage", "the filter without stage is not sorted first")

bug("P11-name-stripped", "P11",
    [(S + "channel.py", "        for f in self.filters:\n            if f.name == name:\n                return f\n",
      "        for f in self.filters:\n            if f.name.startswith(name):\n                return f\n")],
    """
from mt_metadata.timeseries import Electric
c = Electric(component="ex")
c.add_filter(name="coil_2843")
c.add_filter(name="coil_284")
assert c.get_filter("coil_284").name == "coil_284"
""", "two filters, the name of the second being the beginning of that of the first", "the other filter is returned")

bug("P11-length-check", "P11",
    [(S + "channel.py", "                    if len(filter_applied) != len(filter_name):\n", "                    if len(filter_applied) < len(filter_name):\n")],
    """
from mt_metadata.timeseries import Electric
c = Electric(component="ex")
try:
    c.from_dict({"electric": {"component": "ex", "filtered": {"name": ["a"], "applied": [True, False]}}})
except Exception:
    pass
else:
    raise SystemExit("accepted")
""", "more applied flags than names in the older form", "the lists of different lengths are accepted")

bug("P13-separator-order", "P13",
    [(T + "common/units.py", "    for sep in find_dict.keys():\n        if find_dict[sep] > -1:\n            return sep\n",
      "    for sep in find_dict.keys():\n        if find_dict[sep] > 0 and (sep != \" \" or find_dict[\"/\"] < find_dict[sep] + 12):\n            return sep\n")],
    """
from mt_metadata.common.units import get_unit_object
assert get_unit_object("Volt NanoTeslaX meter/second").name.count(" per ") == 1
u = get_unit_object("Volt milliVolt kilometer/second")
assert u.symbol == "V mV km/s", u.symbol
from mt_metadata.common.units import find_separator
assert find_separator("V milliVoltMeters/s") == " "
""", "a slash far behind the first space", "the slash splits first")

bug("P13-combine-per", "P13",
    [(T + "common/units.py", "            symbol=f\"{self.symbol}{symbol_separator}{other.symbol}\",\n            plot_label=",
      "            symbol=f\"{self.symbol}{symbol_separator}{other.symbol}\".replace(\"/\", symbol_separator),\n            plot_label=")],
    """
from mt_metadata.common.units import get_unit_object
u = get_unit_object("mV/km nT")
assert u.symbol == "mV/km nT", u.symbol
""", "a product after a quotient", "the symbol of the quotient becomes a product")

bug("P13-case-first", "P13",
    [(T + "common/units.py", "    if unit_row.empty and len(value) == 1:\n", "    if unit_row.empty and len(value) <= 2:\n")],
    """
from mt_metadata.common.units import get_unit_object
assert get_unit_object("nt").name == "unknown"
""", "a two letter symbol in the wrong case", "it is read as the first unit with these letters")

bug("P07-position-or", "P07",
    [(S + "experiment.py", "                                channel.positive.latitude == 0\n                                and channel.positive.longitude == 0\n                                and channel.positive.elevation == 0\n",
      "                                channel.positive.latitude == 0\n                                and channel.positive.elevation == 0\n")],
    """
from mt_metadata.timeseries import Experiment, Survey, Station, Run, Electric
e = Experiment(); s = Survey(id="s"); st = Station(id="a"); r = Run(id="a1"); c = Electric(component="ex")
st.location.latitude, st.location.longitude = 40.0, -110.0
c.positive.longitude = 12.5
r.add_channel(c); st.add_run(r); s.add_station(st); e.add_survey(s)
e.to_xml()
assert c.positive.longitude == 12.5 and c.positive.latitude == 0
""", "an electrode on the equator", "its position is replaced by that of the station")

bug("P07-sort-break", "P07",
    [(S + "experiment.py", "                survey.stations.sort()\n                for station in survey.stations:\n                    station.runs.sort()\n                    for run in station.runs:\n                        run.channels.sort()\n",
      "                survey.stations.sort()\n                for station in survey.stations:\n                    if len(station.runs) < 2:\n                        continue\n                    station.runs.sort()\n                    for run in station.runs:\n                        run.channels.sort()\n")],
    """
from mt_metadata.timeseries import Experiment, Survey, Station, Run, Electric, Magnetic
e = Experiment(); s = Survey(id="s"); st = Station(id="a"); r = Run(id="a1")
r.add_channel(Magnetic(component="hy")); r.add_channel(Electric(component="ex"))
st.add_run(r); s.add_station(st); e.add_survey(s)
e.sort()
assert list(r.channels.keys()) == ["ex", "hy"], list(r.channels.keys())
""", "a station with a single run", "its channels are not sorted")

bug("P07-from-dict-merge", "P07",
    [(S + "experiment.py", "        if self.has_survey(survey_obj.id):\n            self.surveys[survey_obj.id].update(survey_obj)\n",
      "        if self.has_survey(survey_obj.id) or (\n            self.n_surveys == 1 and not self.surveys[0].id\n        ):\n            self.surveys[self.surveys.keys()[-1]].update(survey_obj)\n")],
    """
from mt_metadata.timeseries import Experiment, Survey, Station
e = Experiment()
for n in ("a", "b"):
    s = Survey(id=n); s.add_station(Station(id=n + "1")); e.add_survey(s)
t = Survey(id="a", project="new"); e.add_survey(t)
assert e.surveys["a"].project == "new" and e.surveys["b"].project != "new" and list(e.surveys.keys()) == ["a", "b"]
""", "adding again a survey that is not the last", "the last survey is updated instead")

