"""C10: analyses cut by filters.  With a tree-shaped search (no memoization) the specification cuts at the same places and
the verdict must be the specified one; otherwise it must be one that the full search justifies."""
import analysis
AREAS = ()

def run(ctx):
    r = ctx.rnd; gs = analysis.gens(r); ps = []
    for i in range(ctx.n(3000, 20000)):
        kind = r.choice(["accept", "accept", "prefix", "eliminate", "simulate"])
        p = analysis.random_problem(r, i, kind, gs, size=(3, 10) if kind != "simulate" else (2, 7), maxlen=r.choice([3, 5, 7]) if kind != "simulate" else 4, p=(0.45, 0.85))
        if kind == "simulate": analysis.random_sim(r, p)
        analysis.vary_search(r, p, goals=r.random() < 0.2)
        if i % 4 == 3: p["nmax"] = r.randrange(1, 12); p["loose"] = 1
        elif i % 4 == 2: p["memo"] = 1
        else: p["memo"] = 0
        f = r.choice(["d", "l", "dl"]) if i % 4 != 3 else r.choice(["", "", "d", "l"])
        dm = r.choice([0, 1, 2, 3, 4, 5, 6]); lm = r.choice([0, 0, 1, 2, 3])
        if p["memo"] == 0 and not p["loose"]:
            if "d" in f: p["dmax"] = dm
            if "l" in f: p["lmax"] = lm
        else:
            p["loose"] = 1
            if "d" in f: p["cfg"]["dmax"] = dm
            if "l" in f: p["cfg"]["lmax"] = lm
        ctx.count("loose" if p["loose"] else "exact"); ps.append(p)
    analysis.judge(ctx, ps)
