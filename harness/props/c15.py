"""C15: a multi-trace file denotes what its text says, over a partition of the lifelines, and what is written reads back."""
import syntax
from props.c14 import random_sig
AREAS = ("io",)

def run(ctx):
    r = ctx.rnd
    items = []
    for i in range(ctx.n(3000, 30000)):
        sig = syntax.signature(r, 4); P = syntax.Pieces(r, sig, r.choice([0, 0, 0, 0.03, 0.06]))
        items.append(("h", syntax.text(r, syntax.mistakes(r, P.multi(), r.choice([0, 0, 0.3]))), sig))
    syntax.run_tool(ctx, items[::15] if ctx.impl.driver_ok else items[::4])
    if not ctx.impl.driver_ok: ctx.notes.append("driver unavailable: only acceptance was judged"); return
    syntax.read_texts(ctx, items)
    reqs = []
    for _ in range(ctx.n(2500, 25000)):
        lfs = [0, 1, 2, 3]; r.shuffle(lfs)
        parts = [[] for _ in range(r.randrange(1, 5))]
        for x in lfs: r.choice(parts).append(x)
        mt = [[p, [[list(x) for x in sorted({(r.choice(p), r.choice("!?"), r.randrange(2)) for _ in range(r.choice([1, 1, 1, 2, 3]))})]
                   for _ in range(r.choice([0, 1, 2, 3]))]] for p in parts if p]
        if r.random() < 0.1: mt.append([[], []])   # #any once every lifeline is taken
        reqs.append(dict(op="write_htf", mt=mt, **random_sig(r)))
    J = syntax.Judge(ctx)
    for q, a in zip(reqs, ctx.impl.drive(reqs)):
        s = {k: q[k] for k in ("lf", "ms", "gt")}
        if "text" not in a: ctx.bad("writing a multi-trace fails: " + str(a), dict(multitrace=q["mt"])); continue
        b = a["back"]
        J.case("v", a["text"], s, dict(multitrace=q["mt"]), mt=q["mt"])
        J.case("h", a["text"], s, dict(multitrace=q["mt"], back=b), ok=b["ok"], **(dict(mt=b["mt"]) if b["ok"] else {}))
        if not b["ok"]: ctx.bad("what was written is refused: " + str(b), dict(multitrace=q["mt"], text=a["text"]))
        ctx.count("written")
    J.run("writing and reading back")
