"""Recorded runs of the searches (driver/search.rs), as cases of Conf_Search and Conf_Graph."""
import gen

NAMES = ["emission", "reception", "multi_rdv", "loop", "elim", "simu"]
CAP = 250

def config(r, ana):
    """a random search configuration: (record for the specification, list of option texts)"""
    ps = [0, 0, 0, 0, 1, -1] if ana else [0] * 6
    cfg = dict(strategy=r.choice(["BFS", "DFS", "HCS"]), prio=ps, dmax=1000, lmax=1000, nmax=1000, memo=r.random() < 0.5, goal=5)
    o = ["strategy=" + cfg["strategy"], "memoize=" + ("true" if cfg["memo"] else "false")]
    if r.random() < 0.7:
        ps = [0] * 6; tx = []
        for k in r.sample(range(6 if ana else 4), r.randrange(1, 5 if ana else 4)):
            ps[k] = r.choice([-3, -2, -1, 1, 2, 3]); tx.append(f"{NAMES[k]}={ps[k]}")
        if r.random() < 0.3: tx.append("randomize=true")
        r.shuffle(tx); cfg["prio"] = ps; o.append("priorities=[" + ",".join(tx) + "]")
    return cfg, o

def filters(r, cfg, o, p=(0.5, 0.5, 0.3), d=(0, 6), l=(0, 4), n=(1, 30)):
    fl = []
    if r.random() < p[0]: cfg["dmax"] = r.randrange(*d); fl.append(f"max_depth={cfg['dmax']}")
    if r.random() < p[1]: cfg["lmax"] = r.randrange(*l); fl.append(f"max_loop_depth={cfg['lmax']}")
    if r.random() < p[2]: cfg["nmax"] = r.randrange(*n); fl.append(f"max_node_number={cfg['nmax']}")
    r.shuffle(fl)
    if fl: o.append("filters=[" + ",".join(fl) + "]")

def explo_req(t, o, nl, nm, cap=CAP):
    return dict(op="search_explo", t=t, hcf="@explore_option{" + ";".join(o) + "}", cap=cap, lf=gen.LF[:nl], ms=gen.MS[:nm])

VERDICTS = {"Pass": 4, "WeakPass": 3, "WeakFail": 1, "Fail": 0, "FoundNoDeadLocks": 0, "HasDeadLocks": 1}
def search_case(i, kind, cfg, a):
    return dict(id=i, kind=kind, cfg=cfg, nodes=a["nodes"], ops=a["ops"], count=a["count"], final=VERDICTS.get(a["verdict"], 2))
