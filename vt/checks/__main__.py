import importlib
import sys

from .. import report

MODULES = {**{f"S0{i}": "shapes" for i in range(1, 8)}, "D01": "dtypes", "D02": "dtypes",
           **{f"F0{i}": "fx" for i in range(1, 10)},
           **{f"O0{i}": "onnxi" for i in range(1, 5)},
           **{f"E0{i}": "e2e" for i in range(1, 5)},
           **{f"A0{i}": "api" for i in range(1, 4)},
           **{f"C0{i}": "cpp" for i in range(1, 10)}, "L01": "abslib", "L02": "abslib"}

if __name__ == "__main__":
    mod = importlib.import_module("vt.checks." + MODULES[sys.argv[1]])
    report.main(mod.check)
