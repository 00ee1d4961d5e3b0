"""Which module decides which property, and how many simulated runs a check makes."""

QUICK = {"C01": 3200, "C02": 4200, "C03": 4000, "C04": 16000, "C05": 3200, "C06": 2600, "C07": 2200, "C08": 440, "C09": 2200,
         "C10": 2600, "C11": 3000, "C12": 4200, "C13": 3600, "C14": 3600, "C15": 4000, "C16": 3400, "C17": 6500, "C22": 4000, "C23": 2600, "C24": 6000}
THOROUGH_FACTOR = 20

MODULES = {}
for _p in ("C01", "C02", "C03", "C04", "C05", "C24"):
    MODULES[_p] = "storage"
for _p in ("C06", "C07"):
    MODULES[_p] = "sessions"
MODULES["C08"] = "env"
MODULES["C09"] = "recovery"
MODULES["C10"] = "atomic"
for _p in ("C11", "C12", "C13", "C14", "C15", "C16", "C22"):
    MODULES[_p] = "pipeline"
MODULES["C17"] = "graphs"
MODULES["C23"] = "endurance"


def module(prop):
    import importlib
    return importlib.import_module("dst.props." + MODULES[prop])
