"""C26: recorded runs of explorations and analyses must be runs of the specified search."""
import re
import analysis, gen, search
AREAS = ("search",)

def fallback(ctx):
    """without the driver, only what is printed: without memoization, filters and goal the nodes are all those of the tree,
    whatever the order in which they are reached"""
    import core
    r = ctx.rnd; g = gen.Gen(r); ts = []
    while len(ts) < ctx.n(200, 1500):
        t = g.term(r.randrange(3, 9))
        if not gen.ops(t) & {"lp"}: ts.append(t)
    def one(t):
        out = []
        for st in ("BFS", "DFS", "HCS"):
            with core.Dir(ctx) as d:
                d.write("s.hsf", gen.hsf_text(3, 2)); d.write("i.hif", gen.hif_text(t))
                d.write("e.hcf", "@explore_option{strategy=" + st + ";filters=[max_depth=4]}")
                m = re.search(r"node count : (\d+)", ctx.impl.cli(["explore", "s.hsf", "i.hif", "e.hcf"], d.p, 10)["out"])
                out.append(m and m.group(1))
        return out
    for t, o in zip(ts, ctx.impl.pmap(one, ts)):
        ctx.valid(1)
        if len(set(o)) > 1: ctx.bad("the number of nodes depends on the strategy", dict(interaction=gen.hif_text(t), counts=o))

def run(ctx):
    if not ctx.impl.driver_ok: return fallback(ctx)
    r = ctx.rnd; jobs = []
    joint = gen.Gen(r, nl=4, nm=2, sync=0.6, multi=0.7, weights=dict(strict=1, seq=3, alt=3, par=5, cr=1, lp=2, sy=0.3), loops="SW")
    gs = [(gen.Gen(r), 3, 2), (joint, 4, 2), (gen.Gen(r, nl=3, nm=2, sync=0.3, comm=0.3, weights=dict(strict=1, seq=2, alt=4, par=2, cr=1, lp=1.5, sy=4)), 3, 2), (gen.Gen(r, nl=4, nm=3, multi=0.3, sync=0.2), 4, 3), (gen.Gen(r, nl=2, nm=2, weights=dict(strict=2, seq=3, alt=3, par=2, cr=1, lp=4, sy=0.5)), 2, 2)]
    for i in range(ctx.n(3500, 30000)):
        g, nl, nm = r.choice(gs); t = g.term(r.randrange(3, 13)) if i % 6 or nl < 3 else g.overtaken()
        cfg, o = search.config(r, False); search.filters(r, cfg, o)
        loops = bool(gen.ops(t) & {"lp"})
        if loops and cfg["lmax"] == 1000 and cfg["dmax"] == 1000 and cfg["nmax"] == 1000: cfg["nmax"] = 25; o = [x for x in o if not x.startswith("filters")] + ["filters=[max_node_number=25]"]
        r.shuffle(o); jobs.append(("exp", cfg, search.explo_req(t, o, nl, nm), dict(interaction=gen.hif_text(t), options=";".join(o))))
    ag = analysis.gens(r); ag += [(joint, 4, 2), ag[1]]
    for i in range(ctx.n(5000, 40000)):
        kind = r.choice(["accept", "prefix", "eliminate", "simulate"])
        p = analysis.random_problem(r, i, kind, ag, size=(3, 12) if kind != "simulate" else (2, 6), maxlen=r.choice([3, 6]), p=(0.5, 0.8))
        if kind == "simulate": analysis.random_sim(r, p)
        cfg, o = search.config(r, True); search.filters(r, cfg, o, (0.35, 0.35, 0.3))
        g = r.choice([None, None, "WeakPass", "Pass"]); cfg["goal"] = {None: 5, "WeakPass": 3, "Pass": 4}[g]; p["goal"] = g or "none"
        mine = [f"goal={g or 'none'}", *o]
        if r.random() < 0.25: mine.append("local_analysis=[select=" + r.choice(["all", "dirty"]) + ",modulo=1]")
        if r.random() < 0.15: mine.append("partial_order_reduction=true")
        base = analysis.hcf(dict(p, goal="none", memo=0, dmax=1000, lmax=1000, nmax=1000, cfg={}))
        first = base[len("@analyze_option{"):-1].split(";")[0]
        mine.append(first); r.shuffle(mine); hcf = "@analyze_option{" + ";".join(mine) + "}"
        jobs.append(("ana", cfg, dict(op="search_ana", t=p["t"], hcf=hcf, htf=gen.htf_text(p["colocs"], p["mu"]), cap=search.CAP, lf=gen.LF[:p["nl"]], ms=gen.MS[:p["nm"]]),
                     dict(interaction=gen.hif_text(p["t"]), multitrace=gen.htf_text(p["colocs"], p["mu"]).replace("\n", " "), options=hcf)))
    ans = ctx.impl.drive([j[2] for j in jobs]); cases = []
    for i, (j, a) in enumerate(zip(jobs, ans)):
        if a.get("hang"): ctx.count("too-long"); continue
        if a.get("panic") is not None or a.get("crash"): ctx.bad("the search crashed", dict(j[3], answer=str(a)[:300])); continue
        if not a["ok"]:
            if a["why"] == "long": ctx.count("too-long")
            else: ctx.bad("the options are refused", dict(j[3], why=a["why"]))
            continue
        cases.append(search.search_case(i, j[0], j[1], a)); ctx.count("decisions", len(a["ops"])); ctx.count("runs " + j[0])
        if len(a["ops"]) > 3: ctx.sample(dict(j[3], strategy=j[1]["strategy"], nodes=a["count"], decisions=len(a["ops"])))
    tr = ctx.tlc("Conf_Search", cases, share=0.8); ctx.valid(len(cases))
    for b in tr.tagged["BAD"]:
        ctx.bad(f"the run is not one of the specified search: {b[1]} (decision {b[2]})", jobs[b[0]][3])
    ctx.tlc_model("MC_Search")
