"""C14: an interaction file denotes what its text says, and what the tool writes reads back as what was meant."""
import gen, syntax
AREAS = ("io",)

def random_sig(r):
    pool = r.sample(syntax.NAMES, 9)
    return dict(lf=pool[:4], ms=pool[4:6], gt=pool[6:8])

def odd(r, t):
    """co-region lifelines and targets in any order"""
    k = t[0]
    if k in ("em", "rc"): return [*t[:4], r.sample(t[4], len(t[4]))]
    if k == "o": return t
    if k == "cr": return ["cr", r.sample(t[1], len(t[1])), odd(r, t[2]), odd(r, t[3])]
    if k == "sy": return ["sy", t[1], odd(r, t[2]), odd(r, t[3])]
    if k == "lp": return ["lp", t[1], odd(r, t[2])]
    return [k, odd(r, t[1]), odd(r, t[2])]

def run(ctx):
    r = ctx.rnd
    ctx.tlc_model("MC_Syntax")
    items = []
    for i in range(ctx.n(2500, 25000)):
        sig = syntax.signature(r); P = syntax.Pieces(r, sig, r.choice([0, 0, 0, 0.02, 0.05]))
        items.append(("i", syntax.text(r, syntax.mistakes(r, P.inter(r.randrange(1, 14)), r.choice([0, 0, 0.4]))), sig))
    syntax.run_tool(ctx, items[::20] if ctx.impl.driver_ok else items[::4])
    if not ctx.impl.driver_ok: ctx.notes.append("driver unavailable: only acceptance was judged"); return
    syntax.read_texts(ctx, items)
    g = gen.Gen(r, nl=4, nm=2, ngates=2, sync=0.3, multi=0.35, empty=0.12, weights=dict(strict=3, seq=3, alt=3, par=3, cr=3, lp=2, sy=1))
    small = gen.small_terms(gen.leaves_small()[:3], 1)
    heads = [["alt"], ["seq"], ["par"], ["strict"], ["cr", [0, 1]], ["cr", [1, 0]], ["cr", [0]], ["sy", [[0, "!", 0]]], ["sy", [[0, "!", 0], [1, "?", 0]]]]
    ts = [odd(r, g.term(r.randrange(1, 16))) for _ in range(ctx.n(2500, 25000))] + small
    ts += [odd(r, r.choice(heads) + [r.choice(small), r.choice(small)]) for _ in range(ctx.n(600, 6000))]
    reqs = [dict(op="write_hif", t=t, **random_sig(r)) for t in ts]
    J = syntax.Judge(ctx)
    for q, a in zip(reqs, ctx.impl.drive(reqs)):
        s = {k: q[k] for k in ("lf", "ms", "gt")}
        if "text" not in a: ctx.bad("writing an interaction fails: " + str(a), dict(term=q["t"])); continue
        b = a["back"]
        J.case("w", a["text"], s, dict(term=q["t"]), t=q["t"])
        J.case("i", a["text"], s, dict(term=q["t"], back=b), ok=b["ok"], **(dict(t=b["t"]) if b["ok"] else {}))
        if not b["ok"]: ctx.bad("what was written is refused: " + str(b), dict(term=q["t"], text=a["text"]))
        ctx.count("written")
    J.run("writing and reading back")
