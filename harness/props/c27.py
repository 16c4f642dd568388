"""C27: what is written for graphviz is what was given and computed."""
import os, re
import analysis, core, draw, gen
AREAS = ()

def run(ctx):
    r = ctx.rnd; jobs = []
    alts = gen.Gen(r, nl=2, nm=1, sync=0.3, comm=0.2, weights=dict(strict=1, seq=1, alt=5, par=1, cr=0.5, lp=1, sy=4))
    ng = gen.Gen(r, nl=3, nm=3, ngates=2, sync=0.3, multi=0.3)
    gs = [(gen.Gen(r), 3, 2, 0), (gen.Gen(r, nl=4, nm=2, sync=0.6, multi=0.7, weights=dict(strict=1, seq=3, alt=3, par=3, cr=1, lp=2, sy=1)), 4, 2, 0), (ng, 3, 3, 2), (alts, 2, 1, 0)]
    def small(lo, hi):
        g, nl, nm, n = r.choice(gs); return g.term(r.randrange(lo, hi)), nl, nm, n
    for _ in range(ctx.n(300, 3000)): jobs.append(("draw", *small(1, 30), "", None))
    for _ in range(ctx.n(180, 1500)):
        t, nl, nm, n = small(2, 10)
        o = ["loggers=[graphic[svg,draw_sd=false,draw_tt=true]]", "strategy=" + r.choice(["BFS", "DFS", "HCS"]), "memoize=" + r.choice(["true", "false"])]
        f = r.choice(["max_depth=2", "max_depth=3", "max_loop_depth=1", "max_node_number=9"])
        if gen.ops(t) & {"lp"} and f == "max_loop_depth=1": f += ",max_node_number=12"
        if "max_node" not in f: f += ",max_node_number=20"
        o.append("filters=[" + f + "]"); r.shuffle(o)
        jobs.append(("exp", t, nl, nm, n, "@explore_option{" + ";".join(o) + "}", None))
    ag = analysis.gens(r)
    for i in range(ctx.n(80, 800)):
        kind = r.choice(["accept", "prefix", "eliminate", "simulate"])
        p = analysis.random_problem(r, i, kind, ag, size=(3, 9) if kind != "simulate" else (2, 6), maxlen=4, p=(0.3, 0.5))
        if kind == "simulate": analysis.random_sim(r, p)
        base = analysis.hcf(dict(p, goal="none", memo=0, dmax=1000, lmax=1000, nmax=1000, cfg={}))
        o = [base[len("@analyze_option{"):-1].split(";")[0], "goal=none", "loggers=[graphic[svg,draw_sd=false,draw_tt=true]]", "filters=[max_node_number=20]", "memoize=" + r.choice(["true", "false"])]
        if r.random() < 0.7: o.append("local_analysis=none")
        r.shuffle(o); jobs.append(("ana", p["t"], p["nl"], p["nm"], p.get("ng", 0), "@analyze_option{" + ";".join(o) + "}", p))
    for _ in range(ctx.n(40, 400)):
        t, nl, nm, n = small(2, 7)
        jobs.append(("can", t, nl, nm, n, "@canonize_option{loggers=[graphic[svg,draw_sd=false,draw_tt=true]]}", None))
    def one(j):
        kind, t, nl, nm, n, hcf, p = j; rd = draw.Reader(nl, nm, n); trees = {}; a = {}
        with core.Dir(ctx) as d:
            d.write("s.hsf", gen.hsf_text(nl, nm, n)); d.write("i.hif", gen.hif_text(t)); d.write("o.hcf", hcf)
            if kind == "draw":
                a = ctx.impl.cli(["draw", "-r", "tt", "-o", "x", "s.hsf", "i.hif"], d.p, 30); f = "temp/x.dot"
            elif kind == "ana":
                d.write("t.htf", gen.htf_text(p["colocs"], p["mu"]))
                a = ctx.impl.cli(["analyze", "s.hsf", "i.hif", "t.htf", "o.hcf"], d.p, 60); f = "o_l1.dot"
            else: a = ctx.impl.cli(["explore" if kind == "exp" else "canonize", "s.hsf", "i.hif", "o.hcf"], d.p, 60); f = "o_l1.dot"
            if a.get("hang"): return None
            try: text = d.read(f)
            except OSError: return dict(why="nothing was drawn", out=a["out"][-300:])
            for x in (d.ls("temp") if os.path.isdir(os.path.join(d.p, "temp")) else []):
                m = re.fullmatch(r"(?:n|itt)(\d+)\.dot", x)
                if m: trees[int(m[1])] = d.read("temp", x)
        try:
            if kind == "draw": g = dict(nodes=[dict(draw.tree(rd, text), v="")], steps=[], cuts=[], legend="")
            else: g = draw.graph(rd, text, trees, kind)
        except (draw.Unreadable, KeyError) as e: return dict(why="the drawing cannot be read", what=str(e), text=text[:600])
        c = re.search(r"node count : (\d+)", a["out"]); v = re.search(r"verdict\s*: '([\w ]+)'", a["out"])
        sets = [[]]; unseen = []
        if p:
            for q in p["colocs"]: sets += [x + list(q) for x in sets]
            unseen = [l for l in range(nl) if not any(l in q for q in p["colocs"])]
        return dict(g, kind=kind, lost=int(any(x['v'].endswith('-l') for x in g['nodes']) or (bool(p) and "sy" in gen.ops(t))), t=t, N=rd.names, d=2 if kind in ("ana", "can") else 3, elims=sets[1:], unseen=unseen, count=int(c[1]) if c else 0, final=v[1] if v else "")
    cases = []
    for j, a in zip(jobs, ctx.impl.pmap(one, jobs)):
        if a is None: ctx.count("too-long"); continue
        if "why" in a: ctx.bad(a["why"], dict(kind=j[0], interaction=gen.hif_text(j[1]), options=j[5], **{k: v for k, v in a.items() if k != "why"})); continue
        if len(a["nodes"]) > 60: ctx.count("too-many-nodes"); continue
        cases.append(dict(a, id=len(cases), job=jobs.index(j))); ctx.count("drawn " + j[0]); ctx.count("nodes", len(a["nodes"])); ctx.count("steps", len(a["steps"]))
        if len(a["steps"]) > 4: ctx.sample(dict(kind=j[0], interaction=gen.hif_text(j[1]), options=j[5], nodes=len(a["nodes"]), steps=len(a["steps"])))
    tr = ctx.tlc("Conf_Draw", cases); ctx.valid(len(cases))
    for b in tr.tagged["BAD"]:
        j = jobs[cases[b[0]]["job"]]
        ctx.bad(f"{b[1]} (node {b[2]} of the {j[0]} graph)", dict(kind=j[0], interaction=gen.hif_text(j[1]), options=j[5], multitrace=gen.htf_text(j[6]["colocs"], j[6]["mu"]).replace("\n", " ") if j[6] else ""))
