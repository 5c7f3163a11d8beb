"""C02, C03: an observation does not depend on earlier ones, nor a channel on those built before it."""
from . import stellar, diffuse, noise, frg, sources, optics

OTHER = "after another target: "
SAME = "observed again: "
CHANNEL = "after another channel: "


def light(ctx):
    for names, text in ((("target",), OTHER), ((), SAME)):
        ctx.after(names or ("-",), text)
        stellar.check(ctx)
    # through another channel of the same payload first
    ctx.after(("self",), CHANNEL, ("self.payload",))
    stellar.check(ctx)


def diffuse_light(ctx):
    for names, text in ((("target",), OTHER), ((), SAME)):
        ctx.after(names or ("-",), text)
        diffuse.layering(ctx)
    ctx.after(("self",), CHANNEL, ("self.payload",))
    diffuse.layering(ctx)


def sky(ctx):
    ctx.after(("target", "wl_min", "wl_max"), OTHER)
    frg.foregrounds(ctx)


def star(ctx):
    ctx.after(("target", "lo", "hi"), OTHER)
    sources.load(ctx)


def noises(ctx):
    ctx.after(("target",), OTHER)
    noise.whole(ctx)


def build(ctx):
    ctx.after(("self",), "after another channel: ", ("self.payload",))
    optics.chain(ctx)
