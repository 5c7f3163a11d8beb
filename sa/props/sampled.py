"""The number of wavelengths at which spectra are sampled is the working resolution the payload declares."""
from .. import expr as X

PROBE = '''
from exorad.utils.passVal import PassVal


def declare(n):
    PassVal.working_R = n
    return PassVal.working_R
'''


def sampled(ctx, name, where, m, f, pick, n=2345, **kw):
    """f(I, st) -> value, pick(I, st, value) -> wavelengths"""
    from ..interp import Num
    repo = ctx.repo.probed(PROBE)

    def g(I, st):
        I.call(I.repo_fn("exorad._probe", "declare"), [Num(X.K(n))], {}, st)
        return f(I, st)
    text = "number of wavelengths, " + name
    r = ctx.run(text, where, m, g, repo=repo, **kw)
    if r is None:
        return
    I, st, v = r
    w = I.num(pick(I, st, v), st)
    gb = X.gridbase(w.e) if w is not None else None
    if gb is None:
        ctx.res.und(text, where, "not a generated grid")
        return
    ctx.eq(text, where, gb[0].args[3], X.K(n))
