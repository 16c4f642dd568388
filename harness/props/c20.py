"""C20: random generation of interactions."""
import re
import gen, core
AREAS = ("io", "random")
DIST = ["default", "conservative", "protocols_with_coreg"]
SYMS = ["Empty", "Action", "Strict", "Seq", "Coreg", "Par", "LoopS", "LoopW", "LoopP", "Alt", "Basic", "Transmission", "Broadcast"]
EV = [("try", r"trying to generate interaction (\d+) out of \d+"), ("gen", r"generated interaction of depth (\d+) with (\d+) symbols"),
      ("canon", r"canonized to interaction of depth (\d+) with (\d+) symbols"), ("few", r"not enough symbols"),
      ("wrote", r"wrote to file .*?i(\d+)\.hif"), ("retry", r"retrying\.\.\."), ("exceeded", r"\.\.\. max retries exceeded")]

def log_of(out):
    """what the run said, as events; [] when it says none of it"""
    ev = []
    for l in out.split("\n"):
        for k, p in EV:
            m = re.match(p, l.strip())
            if m: ev.append([k] + [int(x) for x in m.groups()]); break
    kinds = {e[0] for e in ev}
    return ev if {"try", "gen", "canon"} <= kinds else []

def jobs(ctx, n):
    r = ctx.rnd; out = []
    for i in range(n):
        nl, nm = r.choice([1, 2, 3, 4]), r.choice([1, 2, 3])
        d = r.choice([0, 1, 2, 3, 4, 5, 6])
        j = dict(n=r.choice([0, 1, 2, 4, 8]), depth=d, min=r.choice([0, 1, 2, 3, 5, 8, 12]), dist=r.choice(DIST), nl=nl, nm=nm, seed=r.randrange(0, 10**r.randrange(1, 15)),
                 tries=r.choice([None, None, 0, 1, 2, 5, 12]), twice=r.random() < 0.4, fresh=r.random() < 0.7, usedef=r.random() < 0.3)
        out.append(j)
    return out

def one(ctx, j):
    def once(folder):
        with core.Dir(ctx) as d:
            d.write("s.hsf", gen.hsf_text(j["nl"], j["nm"]))
            import os
            if not j["fresh"]: os.makedirs(d.path(folder))
            a = ["rng_gen_interactions", "s.hsf", "-f", folder, "-i", str(j["n"]), "-d", str(j["depth"]), "-x", str(j["min"]), "-s", str(j["seed"])]
            if j["tries"] is not None: a += ["-t", str(j["tries"])]
            if not (j["dist"] == "default" and j["usedef"]): a += ["-p", j["dist"]]
            res = ctx.impl.cli(a, d.p, 60)
            fs = [x for x in d.ls(folder)] if os.path.isdir(d.path(folder)) else []
            return res, {x: d.read(folder, x) for x in fs}
    r1 = once("out")
    return r1, (once("a/b") if j["twice"] else None)

def run(ctx):
    r = ctx.rnd
    if not ctx.impl.driver_ok: ctx.notes.append("not decided: the driver is needed to read the interactions back"); return
    js = jobs(ctx, ctx.n(1500, 12000)); res = ctx.impl.pmap(lambda j: one(ctx, j), js)
    texts = {}; todo = []
    for j, (a, b) in zip(js, res):
        info = dict(request={k: v for k, v in j.items()})
        runs = [a] + ([b] if b else [])
        if any(x["hang"] for x, _ in runs): ctx.count("too-long"); continue
        if any(core.sut.panicked(x) for x, _ in runs): ctx.bad("random generation crashed", dict(info, err=[x["err"][-300:] for x, _ in runs])); continue
        for _, fs in runs:
            for t in fs.values(): texts[(t, j["nl"], j["nm"])] = None
        todo.append((j, runs, info))
    ks = list(texts)
    for k, a in zip(ks, ctx.impl.drive([dict(op="read_hif", text=k[0], lf=gen.LF[:k[1]], ms=gen.MS[:k[2]], gt=[]) for k in ks])): texts[k] = a
    cs = []
    def terms(fs, j, info):
        num = {}
        for name, t in fs.items():
            m = re.match(r"^i(\d+)\.hif$", name)
            a = texts[(t, j["nl"], j["nm"])]
            if not m or "t" not in a: ctx.bad("a generated file cannot be read", dict(info, file=name, text=t, why=str(a)[:300])); return None
            num[int(m[1])] = a["t"]
        ns = sorted(num); return ns, [num[n] for n in ns]
    for j, runs, info in todo:
        ts = [terms(fs, j, info) for _, fs in runs]
        if None in ts: continue
        lg = log_of(runs[0][0]["out"])
        cs.append((dict(id=len(cs), kind="run", n=j["n"], tries=j["n"] * 3 if j["tries"] is None else j["tries"], depth=j["depth"], min=j["min"], dist=j["dist"], nl=j["nl"], nm=j["nm"],
                        numbers=ts[0][0], files=ts[0][1], log=lg, again=ts[-1][1]), dict(info, log=lg[-6:])))
        ctx.count("runs"); ctx.count("runs " + j["dist"]); ctx.count("interactions", len(ts[0][0])); ctx.count("repeated", int(j["twice"])); ctx.count("with-log", int(bool(lg)))
        if len(cs) % 120 == 5: ctx.sample(dict(info, log=lg[:8], first=gen.hif_text(ts[0][1][0]) if ts[0][1] else None))
    # what must be refused is refused, without crashing
    bad_reqs = [(["-p", "foo"], 2, 2), ([], 0, 1), ([], 1, 0), (["-i", "x"], 1, 1), (["-t", "x"], 1, 1), (["-s", "1.5"], 2, 2), (["-i", "4294967296"], 2, 2)]
    def refuse(q):
        with core.Dir(ctx) as d:
            d.write("s.hsf", "@message{%s}@lifeline{%s}" % (";".join(gen.MS[:q[2]]), ";".join(gen.LF[:q[1]])) if q[1] and q[2] else ("@lifeline{a}" if q[1] else "@message{m}"))
            x = ctx.impl.cli(["rng_gen_interactions", "s.hsf", "-f", "out"] + (q[0] or ["-i", "2", "-x", "1"]), d.p, 20)
            import os
            return x, os.path.isdir(d.path("out")) and len(d.ls("out"))
    for q, (x, k) in zip(bad_reqs, ctx.impl.pmap(refuse, bad_reqs)):
        ctx.count("refusals")
        if core.sut.panicked(x) or k: ctx.bad("a request that makes no sense is not refused", dict(request=q, files=k, err=x["err"][-300:]))
    # distributions
    ds = []
    for i in range(ctx.n(60, 600)):
        n = r.randrange(1, len(SYMS) + 1); ss = r.sample(SYMS, n)
        cut = sorted(r.randrange(0, 1001) for _ in range(n - 1)); ps = [b - a for a, b in zip([0] + cut, cut + [1000])]
        if i % 4 == 1: ps[r.randrange(n)] += r.choice([-200, -20, 1, 7, 300])
        ds.append(dict(op="probas", map=[list(x) for x in zip(ss, ps)], draws=100000, seed=r.randrange(10**6)))
    for q, a in zip(ds, ctx.impl.drive(ds)):
        if "ok" not in a: ctx.bad("a distribution crashes: " + str(a)[:300], dict(map=q["map"])); continue
        cs.append((dict(id=len(cs), kind="dist", map=q["map"], ok=bool(a["ok"]), draws=q["draws"], freq=a.get("freq", [])), dict(map=q["map"], got=a))); ctx.count("distributions")
    tr = ctx.tlc("Conf_Random", [c for c, _ in cs])
    ctx.valid(len(cs))
    for b in tr.tagged["BAD"]:
        c, info = cs[b[0]]
        ctx.bad("random generation: " + str(b[1]), info)
