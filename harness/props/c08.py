"""C08: one problem under many search configurations; each verdict against the specification, and against each other."""
import analysis, copy
AREAS = ()

def run(ctx):
    r = ctx.rnd; gs = analysis.gens(r); ps = analysis.memo_cases(0); groups = {}
    for i in range(ctx.n(350, 2500)):
        kind = r.choice(["accept", "accept", "prefix", "prefix", "eliminate", "simulate"])
        base = analysis.random_problem(r, 0, kind, gs, size=(4, 12) if kind != "simulate" else (3, 8), maxlen=6 if kind != "simulate" else 4, p=(0.25, 0.7))
        if kind == "simulate": analysis.random_sim(r, base)
        for j in range(6):
            p = copy.deepcopy(base); p["id"] = 1000 + 10 * i + j
            analysis.vary_search(r, p, goals=j >= 4); p["memo"] = j % 2
            p["cfg"]["strategy"] = ["BFS", "DFS", "HCS"][j % 3]
            ps.append(p)
    for i in range(ctx.n(300, 2500)):
        base = analysis.confluent(r, 0, r.choice(["accept", "prefix", "eliminate", "simulate", "simulate", "simulate"]))
        for j in range(5):
            p = copy.deepcopy(base); p["id"] = 1000000 + 10 * i + j; p["goal"] = "none"; p["memo"] = int(j > 0)
            p["cfg"] = {k: v for k, v in base["cfg"].items() if k == "bname"}; p["cfg"]["strategy"] = ["BFS", "BFS", "DFS", "HCS", "DFS"][j]
            if j == 4: p["cfg"]["prio"] = f"{r.choice(['emission', 'simu', 'elim'])}={r.choice([-2, 2])},randomize=true"
            ps.append(p)
    cases = analysis.judge(ctx, ps)
    for c in cases:
        if c["id"] >= 1000 and c["goal"] == "none": groups.setdefault(c["id"] // 10, set()).add("rejected" if c["kind"] == "simulate" and "Fail" in c["v"] else c["v"])
    for g, vs in groups.items():
        if len(vs) > 1:
            p = next(x for x in ps if x["id"] // 10 == g)
            ctx.bad("the verdict depends on the search: " + "/".join(sorted(vs)), analysis.describe(p))
    ctx.count("problems", len(groups))
