"""C09: analyses with local analyses and/or partial order reduction against the (unreduced) specification."""
import analysis, gen
AREAS = ()
KNOWN = [("por-strict", ["strict", ["lp", "S", ["em", 1, 0, 0, []]], ["em", 0, 1, 0, []]], [[0], [1]], [[analysis.A(0, "!", 1)], [analysis.A(1, "!", 0)]], "accept"),
         ("por-loopH", ["lp", "H", ["alt", ["lp", "H", ["em", 2, 1, 0, []]], ["seq", ["em", 1, 0, 0, [2]], ["lp", "H", ["em", 0, 1, 0, [0]]]]]],
          [[0], [1], [2]], [[analysis.A(0, "!", 1), analysis.A(0, "?", 1)], [analysis.A(1, "!", 0)], [analysis.A(2, "!", 1)]], "prefix")]

def locana(r):
    o = [r.choice(["select=all", "select=dirty"]), "modulo=" + str(r.choice([1, 1, 2, 3]))]
    if r.random() < 0.4: o.append(r.choice(["lookahead=none", "lookahead=1", "max_look_ahead_depth=0", "lookup=3"]))
    r.shuffle(o)
    return "[" + ",".join(o) + "]"

def commuting(t): return not (gen.ops(t) & {"strict", "lpS", "lpH", "sy"})

def run(ctx):
    r = ctx.rnd; gs = analysis.gens(r); ps = []
    analysis.model_theorems(ctx, ctx.n(300, 5000))
    for i in range(ctx.n(3200, 20000)):
        por = i % 3 == 0; loc = not por or r.random() < 0.3
        kind = r.choice(["accept", "prefix", "eliminate"])
        if not por and r.random() < 0.12: kind = "simulate"
        p = analysis.random_problem(r, i, kind, gs, size=r.choice([(3, 9), (5, 14)]) if kind != "simulate" else (2, 7), maxlen=r.choice([3, 5, 8]) if kind != "simulate" else 4,
                                    p=(0.25, 0.75), filt=commuting if por else None)
        if kind == "simulate": analysis.random_sim(r, p)
        analysis.vary_search(r, p, goals=r.random() < 0.3)
        p["locana"] = 1                                   # (in the specification: Inconc LackObs may become Fail)
        if loc: p["cfg"]["locana"] = locana(r)
        if por: p["cfg"]["por"] = 1
        ctx.count("por" if por else "locana"); ps.append(p)
    for p in analysis.targeted("accept", 100000) + analysis.targeted("prefix", 200000) + analysis.targeted("eliminate", 300000):
        p["locana"] = 1; p["cfg"]["locana"] = locana(r); ps.append(p)
    for i in range(len(ps), len(ps) + ctx.n(500, 4000)):
        p = analysis.gaps(r, i); 
        if any(p["mu"]): x = r.choice([y for y in p["mu"] if y]); del x[r.randrange(len(x))]
        if r.random() < 0.7: p["mu"] = analysis.slice_each(r, p)
        analysis.random_sim(r, p); analysis.vary_search(r, p, goals=r.random() < 0.3)
        if p.get("want_loops"): p["sim"].update(loop=["fixed", r.randrange(1, 4)], act=r.choice([["none", 0], ["fixed", 2], ["fixed", 5]]))
        p["locana"] = 1; p["cfg"]["locana"] = locana(r); ctx.count("locana"); ps.append(p)
    keys = {}
    for k, t, cs, mu, kind in KNOWN:
        p = analysis.problem(900000 + len(keys), t, cs, mu, kind, 3, 2); p["cfg"]["por"] = 1
        keys[p["id"]] = k; ps.append(p)
    analysis.judge(ctx, ps, keyof=lambda p: keys.get(p["id"]))
