import importlib
CHECKS = {}
for _m in ("reservoir", "snapshot", "value", "rates", "registry", "small", "conc", "structs", "prom"):
    CHECKS.update(importlib.import_module("." + _m, __name__).CHECKS)
