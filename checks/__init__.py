"""The checks, by property id: CHECKS[id] = (function, level)."""
CHECKS = {}


def check(pid, level="model_checking"):
    def deco(fn):
        CHECKS[pid] = (fn, level)
        return fn
    return deco


from . import lang, data, rt, env, cli, vm, world      # noqa: E402,F401
