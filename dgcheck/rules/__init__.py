"""Rule registry: property id -> (deciding function, explanation)."""
RULES = {}


def prop(pid, explanation):
    def deco(f):
        RULES[pid] = (f, explanation)
        return f
    return deco


from . import reshape, structures, structures2, composition, dynamic, tracker, codex, func, purity, pivot, files, mosaic  # noqa
