import importlib, os, pkgutil

_cache = {}


def all_props():
    if not _cache:
        for m in sorted(os.listdir(os.path.dirname(__file__))):
            if m.endswith('.py') and not m.startswith('_') and m != 'util.py':
                mod = importlib.import_module('props.' + m[:-3])
                for v in vars(mod).values():
                    if isinstance(v, type) and isinstance(getattr(v, 'id', None), str) and v.__module__ == mod.__name__:
                        _cache[v.id] = v
    return _cache


def load(pid):
    return all_props()[pid]()
