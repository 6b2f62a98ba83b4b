"""python3-vt -m sa.run <property id>"""
import importlib
import os, sys

from sa import report

MODULES = {}
for _m, _ids in {
        "player_ops": "P01 P02 P03 P04 P05 P06",
        "cross": "X01 X02",
        "player_start": "P07 P08 P09 P10",
        "simulator": "M01 M02 M03 M04 M05",
        "server": "R01",
        "colour": "C01 C02",
        "screens": "S01 S02 S03 S04 S05 D01",
        "movies": "X03 X04 T01 T02 T03 T04",
        "frames": "F01 F02",
        "tables": "C03",
        "videoenc": "V01 V02 V03 V04 V05 V06",
}.items():
    for _i in _ids.split():
        MODULES[_i] = _m

if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    mod = importlib.import_module("sa.checks." + MODULES[pid])
    sys.exit(report.run(pid, getattr(mod, pid)))
