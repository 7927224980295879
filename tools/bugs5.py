T = "mt_metadata/"
J = T + "transfer_functions/io/jfiles/"
Z = T + "transfer_functions/io/zonge/"
FD = """
import os, sys, types
import mt_metadata.timeseries as ts
n = "mt_metadata.timeseries.stationxml"
m = types.ModuleType(n)
m.__path__ = [os.path.join(os.path.dirname(ts.__file__), "stationxml")]
sys.modules[n] = m
from mt_metadata.timeseries.stationxml import fdsn_tools as f
"""
JT = '''
import tempfile, pathlib
from mt_metadata.transfer_functions.io.jfiles.jfile import JFile
HEAD = """#BIRRP Version 5 basic mode output
#tbw=   2.000000     deltat=  %s
#nfil=       0
#ncomp=       4
#nskip=       0 nread=   38750
#theta1=   0.000000     theta2=   90.00000     phi=   0.000000
>LATITUDE  = 10.0
>LONGITUDE = 20.0
>ELEVATION = 30.0
>AZIMUTH   = 0.0
S1
"""
def read(body, deltat="0.1"):
    with tempfile.TemporaryDirectory() as d:
        p = pathlib.Path(d) / "a.j"
        p.write_text(HEAD % deltat + body)
        j = JFile()
        j.read(p)
        return j, j.station_metadata
'''
bug("P22-j-masked-below", "P22", [(J + "jfile.py", "                        if d_value == -999 or np.isnan(d_value):\n", "                        if d_value <= -999 or np.isnan(d_value):\n")],
    JT + '''
j, s = read("ZXY S.I.\\n1\\n 2.0 -1234.5 17.25 0.5 0.5 0.5\\n")
assert j.z[0, 0, 1] == -1234.5 + 17.25j, j.z
''', "a J file value smaller than -999", "the value is taken for a masked one and becomes 0")

bug("P22-j-tipper-periods", "P22", [(J + "jfile.py", "            for t_key in list(t_index_dict.keys()):\n                for f_key in list(t_dict[t_key].keys()):\n                    all_periods.append(f_key)\n",
                                     "            for f_key in list(t_dict[\"tzx\"].keys()):\n                all_periods.append(f_key)\n")],
    JT + '''
j, s = read("ZXY S.I.\\n1\\n 2.0 1.5 17.25 0.5 0.5 0.5\\nTZX\\n1\\n 2.0 1 2 3 0.5 0.5\\nTZY\\n2\\n 2.0 1 2 3 0.5 0.5\\n 4.0 5 6 7 0.5 0.5\\n")
assert sorted(1 / j.frequency) == [2.0, 4.0], j.frequency
''', "a period that only the second tipper component has", "the period is lost")

bug("P22-j-slow-rate", "P22", [(J + "jfile.py", "        if self.header.birrp_parameters.deltat < 0:\n", "        if self.header.birrp_parameters.deltat < -1:\n")],
    JT + '''
j, s = read("ZXY S.I.\\n1\\n 2.0 1.5 17.25 0.5 0.5 0.5\\n", "-0.5")
assert s.runs[0].sample_rate == 0.5, s.runs[0].sample_rate
''', "a J file with a sampling rate (negative deltat) of at most one sample per second", "the sample rate is negative")

bug("P22-avg-up-reference", "P22", [(Z + "zonge.py", '            "zxyr": (1, 0),\n            "zyxr": (0, 1),\n            "zyyr": (0, 0),\n', '            "zxyr": (0, 1),\n            "zyxr": (1, 0),\n            "zyyr": (0, 0),\n')],
    '''
import pandas as pd
from mt_metadata.transfer_functions.io.zonge.zonge import ZongeMTAvg
z = ZongeMTAvg(z_positive="up")
row = dict(comp="zxyr", frequency=1.0, z_magnitude=2.0, z_phase=0.0, apparent_resistivity=1.0, apparent_resistivity_err=1.0, z_phase_err=1.0)
z.df = pd.DataFrame([row])
z.n_freq, z.freq_index_dict = 1, {1.0: 0}
zz, e = z._fill_z()
assert zz[0, 1, 0] == 2.0, zz
''', "remote reference components with z positive up", "the off-diagonal components are exchanged")

bug("P22-avg-run-name", "P22", [(Z + "zonge.py", '            ch.measurement_azimuth = self.header._comp_dict["zyx"]["ch"].azimuth[1]\n            ch.translated_azimuth = self.header._comp_dict["zyx"]["ch"].azimuth[1]\n',
                                 '            ch.measurement_azimuth = self.header._comp_dict["zyx"]["ch"].azimuth[1]\n            ch.translated_azimuth = self.header._comp_dict["zyx"]["ch"].azimuth[0]\n')],
    '''
import tempfile, pathlib
from mt_metadata.transfer_functions.io.zonge.zonge import ZongeMTAvg
T = "\\n$Survey.Type=MT\\n$GPS.Lat=1.0\\n$GPS.Lon=2.0\\n$Rx.GdpStn= 22\\n$Rx.HPR=11,0,180\\n"
for c in ("Zxx", "Zxy", "Zyx", "Zyy"):
    T += f"$Rx.Cmp = {c}\\n$Rx.Length=100 m\\n$Ch.Number=1,2\\n$Ch.Cmp=E{c[1]},H{c[2]}\\n$Ch.Azimuth=10,20\\n$Ch.Incl=0,0\\n1, 2.0, 1, 1, 3.0, 100.0, 5.0, 1.0, 1.0, 0.9, 1, 1\\n"
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d) / "a.avg"
    p.write_text(T)
    z = ZongeMTAvg()
    z.read(p)
    h = z.station_metadata.runs[0].get_channel("hx")
assert (h.measurement_azimuth, h.translated_azimuth) == (20.0, 20.0), (h.measurement_azimuth, h.translated_azimuth)
''', "electric and magnetic channels with different azimuths", "hx is translated along the electric channel")

bug("P12-band-edge", "P12", [(T + "timeseries/stationxml/fdsn_tools.py", '(sample_rate >= v_dict["min"])', '(sample_rate > v_dict["min"])')],
    FD + '''
assert f.get_period_code(10) == "B", f.get_period_code(10)
''', "a rate at the lower edge of a band", "the band below is named")

bug("P12-south", "P12", [(T + "timeseries/stationxml/fdsn_tools.py", "        value = abs(np.cos(np.deg2rad(azimuth)))\n\n        if orientation == \"horizontal\":\n            if value >= angle(15):", "        value = np.cos(np.deg2rad(azimuth))\n\n        if orientation == \"horizontal\":\n            if abs(value) >= angle(15):")],
    FD + '''
assert f.get_orientation_code(200) == "1", f.get_orientation_code(200)
''', "an azimuth between 105 and 255 degrees but not near south", "the channel is named east")

bug("P12-direction-upper", "P12", [(T + "timeseries/stationxml/fdsn_tools.py", '    "2": "y",\n    "3": "z",\n}\n\nforced', '    "2": "y",\n    "3": "x",\n}\n\nforced')],
    FD + '''
assert f.create_mt_component("LF3") == "hz", f.create_mt_component("LF3")
''', "a tilted vertical channel", "its component is hx")
