"""C11: trace files written by `explore` for a partition of the lifelines, and what analysing them says."""
import os
import gen, core, common
from core import Dir
AREAS = ()

DUP = ["strict", ["lp", "S", ["rc", 0, 0, 0, [0]]], ["strict", ["rc", 0, 0, 0, [0]], ["em", 1, 1, 0, []]]]

def partition(r, nl):
    """(option text, parts): parts in the order the files should have them, lifelines left out being completed"""
    x = r.random()
    if x < 0.25: return "trivial", [list(range(nl))]
    if x < 0.5: return "discrete", [[i] for i in range(nl)]
    lfs = list(range(nl)); r.shuffle(lfs)
    if r.random() < 0.3: given = lfs[:r.randrange(1, nl)]
    else: given = lfs
    parts = []
    for l in given:
        if parts and r.random() < 0.5: parts[-1].append(l)
        else: parts.append([l])
    txt = "{" + ",".join("(" + ",".join(gen.LF[l] for l in p) + ")" for p in parts) + "}"
    return txt, parts + [[l] for l in sorted(set(range(nl)) - set(given))]

def run(ctx):
    r = ctx.rnd
    g = gen.Gen(r); g2 = gen.Gen(r, nl=4, nm=2, multi=0.4, sync=0.4, weights=dict(strict=2, seq=4, alt=3, par=2, cr=1, lp=2, sy=0.7))
    jobs = []
    for i in range(ctx.n(450, 4500)):
        gg = g if i % 2 else g2
        t = gg.term(r.randrange(2, 9))
        d = r.choice([2, 3, 3, 4]) if gen.size(t) <= 6 else r.choice([2, 3])
        ptxt, parts = partition(r, gg.nl)
        x = r.random(); gn, gt = ["accepted"], "accepted"
        if x < 0.3: k = r.randrange(1, d + 1); gn, gt = ["exact", k], f"exact depth {k}"
        elif x < 0.5: k = r.randrange(1, 4); gn, gt = ["modulo", k], f"modulo depth {k}"
        dup = r.random() < 0.5; lmax = r.choice([1000, 1000, 1, 2])
        strat = common.strat_opts(r); memo = False
        pre = r.choice(["trace", "t_", "x1"])
        fl = [f"max_depth={d}"] + ([f"max_loop_depth={lmax}"] if lmax < 1000 else [])
        opts = [f"loggers=[tracegen[generation={gt},partition={ptxt},folder=tg,prefix={pre},avoid_duplicates={'true' if dup else 'false'}]]",
                f"memoize={'true' if memo else 'false'}", strat, f"filters=[{','.join(fl)}]"]
        jobs.append(dict(t=t, nl=gg.nl, nm=2, d=d, lmax=lmax, parts=parts, gen=gn, dup=dup, memo=memo, pre=pre, opts=";".join(opts), nowrite=r.random() < 0.15))
    jobs.append(dict(t=DUP, nl=3, nm=2, d=3, lmax=1000, parts=[[0, 1, 2]], gen=["modulo", 1], dup=True, memo=False, pre="trace", key="tracegen-duplicates",
                     opts="loggers=[tracegen[generation=modulo depth 1,partition=trivial,folder=tg,prefix=trace,avoid_duplicates=true]];memoize=false;strategy=DFS;filters=[max_depth=3]"))
    jobs.append(dict(t=["lp", "S", ["em", 2, 0, 0, [1, 0]]], nl=3, nm=2, d=3, lmax=1000, parts=[[0, 1, 2]], gen=["accepted"], dup=False, memo=True, pre="trace", key="tracegen-memoize",
                     opts="loggers=[tracegen[generation=accepted,partition=trivial,folder=tg,prefix=trace,avoid_duplicates=false]];memoize=true;strategy=BFS;filters=[max_depth=3]"))
    def one(j):
        with Dir(ctx) as d:
            d.write("s.hsf", gen.hsf_text(j["nl"], j["nm"])); d.write("i.hif", gen.hif_text(j["t"]))
            d.write("o.hcf", "@explore_option{" + j["opts"] + "}")
            rr = ctx.impl.cli(["explore", "s.hsf", "i.hif", "o.hcf"], d.p, 20)
            names = d.ls("tg"); files = [d.read("tg", f) for f in names]
            ana = []
            if files and not rr["hang"]:
                pick = names if len(names) <= 4 else [names[0], names[len(names) // 2], names[-1]]
                kind = "accept" if j["gen"][0] == "accepted" else "prefix"
                d.write("a.hcf", "@analyze_option{analysis_kind=" + kind + ";goal=none;local_analysis=none;strategy=BFS}")
                for f in pick: ana.append((f, kind, ctx.impl.cli(["analyze", "s.hsf", "i.hif", os.path.join("tg", f), "a.hcf"], d.p, 6)))
            return rr, names, files, ana
    res = ctx.impl.pmap(one, jobs)
    cases = []
    for i, (j, (rr, names, files, ana)) in enumerate(zip(jobs, res)):
        info = dict(interaction=gen.hif_text(j["t"]), options=j["opts"])
        if rr["hang"]: ctx.count("too-long"); continue
        if core.sut.panicked(rr) or rr["rc"] != 0: ctx.bad("explore crashed", dict(info, err=rr["err"][-300:], out=rr["out"][-200:]), key=j.get("key")); continue
        want = sorted(f"{j['pre']}{k + 1}.htf" for k in range(len(names)))
        if sorted(names) != want: ctx.bad("trace files are not numbered from 1 with the requested prefix", dict(info, files=names[:10])); continue
        mus = []; ok = True
        for n, f in zip(names, files):
            try: comps = core.parse_htf(f)
            except ValueError as e: ctx.bad("unreadable trace file", dict(info, file=f)); ok = False; break
            got = {tuple(sorted(gen.LF.index(x) for x in lfs)): core.ids(tr) for lfs, tr in comps}
            if len(got) != len(comps) or sorted(got) != sorted(tuple(sorted(p)) for p in j["parts"]):
                ctx.bad("trace file does not have the requested partition", dict(info, file=f)); ok = False; break
            mus.append([got[tuple(sorted(p))] for p in j["parts"]])
        if not ok: continue
        canon = [repr([[sorted(map(tuple, ma)) for ma in tr] for tr in mu]) for mu in mus]
        if j["dup"] and len(set(canon)) != len(canon): ctx.bad("multi-trace written twice although duplicates are avoided", info); continue
        full = 0 if j["memo"] else (2 if j["dup"] else 1)
        if j.get("key") == "tracegen-duplicates": full = 1
        cases.append(dict(id=i, t=j["t"], d=j["d"], lmax=j["lmax"], part=j["parts"], gen=j["gen"], full=full, files=list(dict(zip(canon, mus)).values())))
        ctx.count("explorations"); ctx.count("multi-trace_files", len(mus))
        if len(mus) > 2: ctx.sample(dict(info, files=len(mus), first=files[0].replace("\n", " ")))
        for f, kind, a in ana:
            if a["hang"]: continue
            ctx.count("files_analysed")
            if core.sut.panicked(a): ctx.bad("analysing a generated trace crashed", dict(info, file=files[names.index(f)], err=a["err"][-300:])); continue
            v = core.verdict_of(a)
            if v not in (("Pass",) if kind == "accept" else ("Pass", "WeakPass")):
                ctx.bad("a generated trace is not accepted by its model", dict(info, file=files[names.index(f)], kind=kind, verdict=v, out=a["out"][-200:]))
    tr = ctx.tlc("Conf_TraceGen", cases)
    ctx.valid(len(cases))
    for b in tr.tagged["BAD"]:
        j = jobs[b[0]]
        ctx.bad(b[1], dict(interaction=gen.hif_text(j["t"]), options=j["opts"], multitrace=gen.htf_text(j["parts"], b[2]).replace("\n", " ")), key=j.get("key"))
