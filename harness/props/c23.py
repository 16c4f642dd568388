"""C23: the state machines of puml_ap have the local behaviours of each lifeline."""
import gen, core, puml
from props import c22
AREAS = ()

LIMIT = 8000
def width(t, l):
    """about how many markings the state machine of a lifeline has"""
    k = t[0]
    if k in ("o", "em", "rc"): return 3 if l in {a[0] for a in gen.atoms(t)} else 1
    x, y = (width(c, l) for c in (gen.children(t) * 2)[:2])
    return x if k == "lp" and x == 1 else x + 3 if k == "lp" else x * y + (4 if x > 1 and y > 1 else 0) if k == "par" else x + y + 2

def run(ctx):
    r = ctx.rnd
    ts = c22.terms(ctx, ctx.n(1500, 20000), selfcom=0.0, ngates=0, multi=0.3)
    big = [t for t in ts if max(width(t, l) for l in range(3)) > LIMIT]; ctx.count("too-large", len(big))
    ts = [t for t in ts if t not in big]
    def one(t):
        with core.Dir(ctx) as d:
            d.write("s.hsf", gen.hsf_text(3, 2)); d.write("i.hif", gen.hif_text(t))
            res = ctx.impl.cli(["puml_ap", "s.hsf", "i.hif"], d.p, 20)
            return res, (d.read("s_ap.puml") if "s_ap.puml" in d.ls() else None)
    cs = []
    for t, (res, txt) in zip(ts, ctx.impl.pmap(one, ts)):
        info = dict(interaction=gen.hif_text(t))
        if res["hang"]: ctx.count("too-long"); continue
        if core.sut.panicked(res) or txt is None: ctx.bad("no diagram is written", dict(info, err=res["err"][-300:])); continue
        cs.append((dict(id=len(cs), k="ap", t=t, lines=puml.ap_lines(txt), names=["lf_" + x for x in gen.LF[:3]], n=4 if gen.size(t) < 9 else 3), txt)); ctx.count("diagrams")
        if len(cs) % 300 == 7: ctx.sample(dict(info, lines=txt.split("\n")[:20]))
    tr = ctx.tlc("Conf_Puml", [c for c, _ in cs])
    ctx.valid(len(cs))
    for b in tr.tagged["BAD"]:
        c, txt = cs[b[0]]
        ctx.bad("a state machine has not the behaviours of its lifeline", dict(interaction=gen.hif_text(c["t"]), diagram=txt, why=str(b[1])))
