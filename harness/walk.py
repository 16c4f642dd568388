"""Random runs of a term, used only to make interesting inputs (multi-traces); never to judge results."""
from gen import atoms

def eps(t):
    k = t[0]
    if k in ("o", "lp"): return True
    if k in ("em", "rc"): return k == "rc" and not t[4]
    if k == "alt": return eps(t[1]) or eps(t[2])
    if k in ("strict", "seq", "par"): return eps(t[1]) and eps(t[2])
    return eps(t[2]) and eps(t[3])

def avoids(t, L):
    k = t[0]
    if k == "o" or k == "lp": return True
    if k in ("em", "rc"): return not ({a[0] for a in atoms(t)} & L)
    if k == "alt": return avoids(t[1], L) or avoids(t[2], L)
    if k in ("strict", "seq", "par"): return avoids(t[1], L) and avoids(t[2], L)
    return avoids(t[2], L) and avoids(t[3], L)

def mk(op, l, r):
    if l[0] == "o": return r
    if r[0] == "o": return l
    return [op, l, r]

def prune(t, L):
    k = t[0]
    if k in ("o", "em", "rc"): return t
    if k in ("strict", "seq", "par"): return mk(k, prune(t[1], L), prune(t[2], L))
    if k == "alt":
        a, b = avoids(t[1], L), avoids(t[2], L)
        if a and b: return ["alt", prune(t[1], L), prune(t[2], L)]
        return prune(t[1] if a else t[2], L)
    if k == "lp":
        if not avoids(t[2], L): return ["o"]
        b = prune(t[2], L)
        return b if b[0] == "o" else ["lp", t[1], b]
    return [k, t[1], prune(t[2], L), prune(t[3], L)]

def steps(t):
    """list of (multi-action frozenset, follow-up)"""
    k = t[0]
    if k == "o": return []
    if k == "em":
        if t[3]: return [(frozenset(atoms(t)), ["o"])]
        ts = [x for x in t[4] if x >= 0]
        return [(frozenset([(t[1], "!", t[2])]), ["rc", 0, t[2], 0, ts] if ts else ["o"])]
    if k == "rc":
        if not t[4]: return []
        if t[3]: return [(frozenset(atoms(t)), ["o"])]
        return [(frozenset([(x, "?", t[2])]), ["rc", t[1], t[2], 0, t[4][:i] + t[4][i+1:]] if len(t[4]) > 1 else ["o"]) for i, x in enumerate(t[4])]
    lfs = lambda a: {x[0] for x in a}
    if k == "alt": return steps(t[1]) + steps(t[2])
    if k == "par": return [(a, mk(k, f, t[2])) for a, f in steps(t[1])] + [(a, mk(k, t[1], f)) for a, f in steps(t[2])]
    if k == "strict": return [(a, mk(k, f, t[2])) for a, f in steps(t[1])] + (steps(t[2]) if eps(t[1]) else [])
    if k == "seq": return [(a, mk(k, f, t[2])) for a, f in steps(t[1])] + [(a, mk(k, prune(t[1], lfs(a)), f)) for a, f in steps(t[2]) if avoids(t[1], lfs(a))]
    if k == "cr":
        c = set(t[1]); out = [(a, ["cr", t[1], f, t[3]]) for a, f in steps(t[2])]
        return out + [(a, ["cr", t[1], prune(t[2], lfs(a) - c), f]) for a, f in steps(t[3]) if avoids(t[2], lfs(a) - c)]
    if k == "lp":
        out = []
        for a, f in steps(t[2]):
            if f[0] == "o": out.append((a, t)); continue
            if t[1] == "S": g = ["strict", f, t]
            elif t[1] == "P": g = ["par", f, t]
            elif t[1] == "H": g = ["seq", f, t]
            else: g = mk("seq", prune(t, lfs(a)), ["seq", f, t])
            out.append((a, g))
        return out
    A = {tuple(x) for x in t[1]}
    L, R = steps(t[2]), steps(t[3])
    out = [(a, ["sy", t[1], f, t[3]]) for a, f in L if not a & A] + [(a, ["sy", t[1], t[2], f]) for a, f in R if not a & A]
    return out + [(a | b, ["sy", t[1], f, g]) for a, f in L for b, g in R if a & A and a & A == b & A]

def run(rnd, t, maxlen, finish=True):
    """a random run of at most maxlen steps, preferably ending in an accepting term"""
    best = None
    for _ in range(4):
        w = []; u = t; acc = [] if eps(t) else None
        while len(w) < maxlen:
            ss = steps(u)
            if not ss: break
            a, u = rnd.choice(ss)
            w.append(sorted(a))
            if eps(u): acc = list(w)
            if finish and eps(u) and rnd.random() < 0.35: break
        best = w
        if finish and acc is not None: return acc
        if not finish: return w
    return best

def partition(rnd, n, singles=0.4):
    lfs = list(range(n)); rnd.shuffle(lfs)
    x = rnd.random()
    if x < singles: return [[l] for l in lfs]
    if x < singles + 0.15: return [sorted(lfs)]
    out = []
    for l in lfs:
        if out and rnd.random() < 0.5: rnd.choice(out).append(l)
        else: out.append([l])
    return [sorted(c) for c in out]

def project(w, colocs):
    mu = []
    for c in colocs:
        s = set(c)
        mu.append([p for p in ([list(a) for a in ma if a[0] in s] for ma in w) if p])
    return mu

def perturb(rnd, mu, colocs, nm):
    """one random change of a multi-trace"""
    mu = [[list(map(list, ma)) for ma in tr] for tr in mu]
    idx = [i for i, tr in enumerate(mu) if tr]
    x = rnd.random()
    if not idx or x < 0.12:
        i = rnd.randrange(len(mu)); l = rnd.choice(colocs[i])
        mu[i].insert(rnd.randrange(len(mu[i]) + 1), [[l, rnd.choice("!?"), rnd.randrange(nm)]])
    elif x < 0.45:
        i = rnd.choice(idx); mu[i] = mu[i][:rnd.randrange(len(mu[i]))]
    elif x < 0.6:
        i = rnd.choice(idx); mu[i] = mu[i][1:]
    elif x < 0.7:
        i = rnd.choice(idx); del mu[i][rnd.randrange(len(mu[i]))]
    elif x < 0.85:
        i = rnd.choice(idx)
        if len(mu[i]) > 1:
            j = rnd.randrange(len(mu[i]) - 1); mu[i][j], mu[i][j + 1] = mu[i][j + 1], mu[i][j]
    else:
        i = rnd.choice(idx); j = rnd.randrange(len(mu[i])); a = rnd.choice(mu[i][j])
        b = [a[0], a[1], rnd.randrange(nm)] if rnd.random() < 0.5 else [a[0], "?" if a[1] == "!" else "!", a[2]]
        mu[i][j] = sorted([z for z in mu[i][j] if z != a and z != b] + [b])
    return mu

def multitrace(rnd, t, colocs, nm, maxlen=6, p=(0.4, 0.8)):
    w = run(rnd, t, maxlen, finish=rnd.random() < 0.8)
    mu = project(w, colocs)
    x = rnd.random()
    if x > p[0]:
        mu = perturb(rnd, mu, colocs, nm)
        if x > p[1]: mu = perturb(rnd, mu, colocs, nm)
    return [[sorted([list(a) for a in ma]) for ma in tr] for tr in mu]
