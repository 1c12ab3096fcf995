"""Sizes the code itself distinguishes: obligations on chains whose length, local or bond dimension lies on both sides of every size
literal the analysed functions compare something with (none beyond the base grids on the unchanged tree)."""
from .common import *

P = "fMPS:fMPS."


def sizes(tier, *names, **kw):
    it0 = I.Interp()
    return grid.wide(it0, [n if ":" in n else P + n for n in names], **kw)


def run(obs, szs, entry, name, f, ok=lambda L, d, p: True):
    """f(it, m, A, L, d, p) -> outcomes, on a state of that size"""
    for L, d, p in szs:
        if not ok(L, d, p):
            continue

        def g(it, L=L, d=d, p=p):
            A = spec.mps_data(L, d, p)
            return f(it, spec.fMPS(it, A), A, L, d, p)
        obs.append(Ob("%s %s" % (name, grid.pstr(L, d, p)), entry if ":" in entry else P + entry, g))
