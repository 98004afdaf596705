"""Property id -> (rule, one-sentence description of what the rule decides)."""
import importlib

MODULES = ("ebaybbn_core", "ebaybbn_graph", "loops", "inference", "network", "evaluation", "smodel", "learners", "transform", "names", "discretise", "torchlearn", "score", "generators", "estimators", "neural", "plots", "shared")


def load():
    out = {}
    for m in MODULES:
        mod = importlib.import_module("rules." + m)
        out.update(mod.CHECKS)
    return out
