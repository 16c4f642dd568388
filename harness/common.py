"""Shared pieces of the checks: running the tool on generated files and turning what it did into cases."""
import os, re
import gen, core
from core import Dir, parse_htf, ids, sut

def explore_files(ctx, t, opts, nl=3, nm=2, ng=0, timeout=20):
    """run `explore` with a trace generation logger; -> (result, list of component lists of each file)"""
    with Dir(ctx) as d:
        d.write("s.hsf", gen.hsf_text(nl, nm, ng)); d.write("i.hif", gen.hif_text(t))
        d.write("o.hcf", "@explore_option{" + opts + "}")
        r = ctx.impl.cli(["explore", "s.hsf", "i.hif", "o.hcf"], d.p, timeout)
        files = []
        for f in d.ls("tg"):
            files.append(parse_htf(d.read("tg", f)))
        return r, files

def trie(traces):
    """prefix tree of traces (lists of lists of [lf,k,ms])"""
    nodes = [dict(e=False, s=[])]; idx = [{}]
    for tr in traces:
        cur = 0
        for ma in tr:
            k = tuple(sorted(map(tuple, ma)))
            if k not in idx[cur]:
                nodes.append(dict(e=False, s=[])); idx.append({})
                idx[cur][k] = len(nodes) - 1
                nodes[cur]["s"].append([ma, len(nodes)])
            cur = idx[cur][k]
        nodes[cur]["e"] = True
    return nodes

def strat_opts(r):
    """a random strategy/priority setting (text)"""
    o = "strategy=" + r.choice(["BFS", "DFS", "HCS"])
    if r.random() < 0.5:
        ps = [f"{k}={r.choice([-2, -1, 1, 2])}" for k in r.sample(["emission", "reception", "loop", "multi_rdv"], r.randrange(1, 4))]
        if r.random() < 0.3: ps.append("randomize=true")
        o += ";priorities=[" + ",".join(ps) + "]"
    return o

def lts_case(i, t, ans, d):
    return dict(id=i, kind="g", t=t, d=d, sub=0, nosync=int("sy" not in gen.ops(t)),
                nodes=[dict(e=n["e"], x=n["x"], s=[[e[0], e[1]] for e in n["s"]]) for n in ans["nodes"]])

def model_theorems(ctx, n, depth):
    """MC_Semantics: the operational rules of the specification mean what they should, on n fresh terms"""
    import tlc
    g = gen.Gen(ctx.rnd)
    cs = [dict(id=i, t=g.term(ctx.rnd.randrange(2, 9)), n=depth) for i in range(n)]
    r = ctx.tlc("MC_Semantics", cs, share=0.2)
    if not r.ok and not r.timeout: raise tlc.TlcError("the specification's own theorems fail: " + r.out[-3000:])
