import importlib, os
for _f in sorted(os.listdir(os.path.dirname(__file__))):
    if _f.startswith("r_") and _f.endswith(".py"):
        importlib.import_module("rules." + _f[:-3])
