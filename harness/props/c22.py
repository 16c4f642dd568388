"""C22: PlantUML sequence diagrams keep the structure of the interaction."""
import gen, core, puml
AREAS = ()
W = dict(strict=3, seq=4, alt=3, par=3, lp=3)

def chains(r, g, n):
    """long chains of one operator with mixed associativity: what flattening is about"""
    k = r.choice(["strict", "par", "alt", "seq"])
    parts = [g.term(r.randrange(1, 4)) for _ in range(n)]
    while len(parts) > 1:
        i = r.randrange(len(parts) - 1)
        parts[i:i + 2] = [[k if r.random() < 0.85 else r.choice(gen.BIN), parts[i], parts[i + 1]]]
        if r.random() < 0.1: parts[i] = ["lp", r.choice("SHWP"), parts[i]]
    return parts[0]

def single(t):
    """the translation has no form for several targets: keep one (asynchronous if it is none)"""
    if t[0] == "em": return t[:4] + [t[4][:1]]
    if t[0] == "rc": return t[:4] + [t[4][:1]]
    return [single(x) if isinstance(x, list) else x for x in t]

def terms(ctx, n, selfcom=0.1, ngates=2, multi=0.0):
    r = ctx.rnd
    out = gen.small_terms([["o"], ["em", 0, 0, 0, [1]], ["em", 1, 1, 0, []], ["rc", 0, 0, 0, [2]]], 1, crs=(), sys=())
    gs = [gen.Gen(r, nl=3, nm=2, sync=0.15, multi=multi, empty=e, ngates=ngates, selfcom=selfcom, weights=W) for e in (0.05, 0.3)]
    while len(out) < n:
        g = r.choice(gs)
        out.append(chains(r, g, r.randrange(2, 7)) if r.random() < 0.4 else g.term(r.randrange(1, 16)))
    return out[:n] if n < len(out) else out

def run(ctx):
    ts = [single(t) for t in terms(ctx, ctx.n(3000, 40000))]
    def one(t):
        with core.Dir(ctx) as d:
            d.write("s.hsf", gen.hsf_text(3, 2, 2)); d.write("i.hif", gen.hif_text(t))
            res = ctx.impl.cli(["puml_sd", "s.hsf", "i.hif"], d.p, 20)
            return res, (d.read("s_sd.puml") if "s_sd.puml" in d.ls() else None)
    cs = []
    for t, (res, txt) in zip(ts, ctx.impl.pmap(one, ts)):
        info = dict(interaction=gen.hif_text(t))
        if res["hang"]: ctx.count("too-long"); continue
        if core.sut.panicked(res) or txt is None: ctx.bad("no diagram is written", dict(info, err=res["err"][-300:])); continue
        cs.append((dict(id=len(cs), k="sd", t=t, lines=puml.sd_lines(txt), names=[], n=0), txt)); ctx.count("diagrams")
        if len(cs) % 600 == 7: ctx.sample(dict(info, lines=txt.split("\n")[:20]))
    tr = ctx.tlc("Conf_Puml", [c for c, _ in cs])
    ctx.valid(len(cs))
    for b in tr.tagged["BAD"]:
        c, txt = cs[b[0]]
        ctx.bad("the diagram does not have the structure of the interaction", dict(interaction=gen.hif_text(c["t"]), diagram=txt, why=str(b[1])))
