"""C37: the observation of one target as a chain of steps."""
from .. import expr as X
from .. import model as M
from ..interp import Num
from .lists import compare
from .stellar import mul

K = X.K
W = "exorad/tasks/targetHandler.py ObserveTarget"

# each step is replaced by what it needs and what it leaves behind
PROBE = '''
from collections import OrderedDict
from exorad.models.target import Target
from exorad.tasks.targetHandler import ObserveTarget


class Table:
    pass


def prepare(self):
    t = self.get_task_param("target")
    t.table = Table()
    t.table.efficiency = self.get_task_param("channels")["chA"] * 7.0
    self.set_output(t)


def foregrounds(self):
    t = self.get_task_param("target")
    lo, hi = self.get_task_param("wl_range")
    f = self.get_task_param("foregrounds")
    t.foreground = OrderedDict()
    t.foreground["sky"] = f * (lo + 2.0 * hi)
    t.skyTransmission = f
    self.set_output(t)


def sky_light(self):
    t = self.get_task_param("target")
    t.table.sky = t.foreground["sky"] * self.get_task_param("channels")["chA"]
    self.set_output(t)


def source(self):
    t = self.get_task_param("target")
    lo, hi = self.get_task_param("wl_range")
    t.sed = self.get_task_param("source") * (3.0 * lo + hi)
    self.set_output((t, t.sed))


def star_light(self):
    t = self.get_task_param("target")
    x = t.sed * self.get_task_param("channels")["chA"]
    if hasattr(t, "skyTransmission"):
        x = x * t.skyTransmission
    t.table.star = x
    self.set_output(t)


def noise(self):
    t = self.get_task_param("target")
    n = t.table.star * 5.0 + t.table.efficiency + self.get_task_param("channels")["chA"]
    if hasattr(t.table, "sky"):
        n = n + t.table.sky
    t.table.noise = n
    self.set_output(t)


def payload(s, f, there):
    p = {"common": {"sourceSpectrum": s, "wl_min": 0.0}}
    if there:
        p["common"]["foreground"] = f
    return p


def result(t):
    sky = t.table.sky if hasattr(t.table, "sky") else 0.0
    kept = t.foreground["sky"] if hasattr(t, "foreground") else 0.0
    return [t.table.efficiency, sky, kept, t.sed, t.table.star, t.table.noise]


def fresh(s, f, s2, f2, c, lo, hi, there, then):
    t = Target()
    t.name = "a"
    return result(ObserveTarget()(target=t, payload=payload(s, f, there), channels={"chA": c}, wl_range=(lo, hi)))


def again(s, f, s2, f2, c, lo, hi, there, then):
    t = Target()
    t.name = "a"
    t = ObserveTarget()(target=t, payload=payload(s, f, there), channels={"chA": 2.0 * c}, wl_range=(2.0 * lo, hi))
    return result(ObserveTarget()(target=t, payload=payload(s2, f2, then), channels={"chA": c}, wl_range=(lo, hi)))


def others(s, f, s2, f2, c, lo, hi, there, then):
    obs = ObserveTarget()
    a, b = Target(), Target()
    obs(target=a, payload=payload(s, f, there), channels={"chA": 2.0 * c}, wl_range=(2.0 * lo, hi))
    return result(obs(target=b, payload=payload(s2, f2, then), channels={"chA": c}, wl_range=(lo, hi)))
'''
STEPS = {"PrepareTarget.execute": "prepare", "EstimateForegrounds.execute": "foregrounds", "PropagateForegroundLight.execute": "sky_light",
         "LoadSource.execute": "source", "PropagateTargetLight.execute": "star_light", "EstimateNoise.execute": "noise"}
ARGS = ("s", "f", "s2", "f2", "c", "lo", "hi")


def want(s, f, there):
    v = {a: X.var(a) for a in ARGS}
    s, f, c, lo, hi = v[s], v[f], v["c"], v["lo"], v["hi"]
    eff = mul(K(7.0), c)
    kept = mul(f, X.add(lo, mul(K(2.0), hi))) if there else K(0.0)
    sky = X.mul(kept, c) if there else K(0.0)
    sed = X.mul(s, X.add(mul(K(3.0), lo), hi))
    star = mul(sed, c, f) if there else X.mul(sed, c)
    noise = X.add(X.add(mul(K(5.0), star), eff), X.add(c, sky))
    return [eff, sky, kept, sed, star, noise]


def chain(ctx):
    repo = ctx.repo.probed(PROBE, methods=STEPS)
    m = M.Model(1)
    for v in ARGS:
        m.exact[v] = M.n(v, isq=False)
    yes = {True: "with foregrounds", False: "without"}
    for fn, text in (("fresh", "a target observed"), ("again", "a target observed again"), ("others", "a second target observed")):
        for there in (True, False):
            for then in ((True, False) if fn != "fresh" else (there,)):
                tag = "%s %s" % (text, yes[then]) + ("" if fn == "fresh" else " after an observation " + yes[there])

                def f(I, st):
                    a = [I.region(v) for v in ARGS] + [Num(X.K(there)), Num(X.K(then))]
                    return I.call(I.repo_fn("exorad._probe", fn), a, {}, st)
                compare(ctx, ctx.run(tag, W, m, f, repo=repo), tag, W, want("s2", "f2", then) if fn != "fresh" else want("s", "f", there))
