"""The registry of checked properties."""
import importlib

_WHERE = {}


def _load():
    for modname in ('props_a', 'props_b', 'props_c', 'props_d', 'props_e', 'props_f', 'props_g', 'props_h'):
        try:
            mod = importlib.import_module(modname)
        except ImportError as e:
            if e.name != modname:
                raise
            continue
        _WHERE.update(mod.PROPS)


def get(prop_id):
    if not _WHERE:
        _load()
    return _WHERE[prop_id]()


def ids():
    if not _WHERE:
        _load()
    return sorted(_WHERE)
