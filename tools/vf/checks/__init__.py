import importlib

MODULES = ["matcher", "files", "api", "trees", "output", "spellings"]


def ALL():
    out = {}
    for m in MODULES:
        out.update(importlib.import_module("." + m, __name__).CHECKS)
    return out
