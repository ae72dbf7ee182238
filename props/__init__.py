import importlib

PROPS = {}
for _m in ("single", "session", "world", "answer"):
    try:
        mod = importlib.import_module("props." + _m)
    except ModuleNotFoundError as e:
        if e.name != "props." + _m:
            raise
        continue
    for _c in mod.ALL:
        PROPS[_c.id] = _c()
PROPS = dict(sorted(PROPS.items()))
