import importlib

MODULES = ["tree", "fault", "filters", "memory", "config", "tables", "cli", "output", "pace", "together"]


def registry():
    out = {}
    for m in MODULES:
        for c in importlib.import_module("checks." + m).CHECKS:
            out[c.prop] = c
    return out
