def get(cid):
    from . import registry_meta
    import importlib
    m = registry_meta.META[cid]
    mod = importlib.import_module("sim." + m["module"])
    c = getattr(mod, cid)()
    return c
