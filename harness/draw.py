"""Reading what the tool writes for graphviz: drawings of terms and graphs of searches (spec/HibouDraw.tla)."""
import os, re
import gen

class Unreadable(Exception): pass

def dot(text):
    """([node, label, ...] in order, edges)"""
    nodes = []; edges = []
    for m in re.finditer(r'^\s*(\w[\w(),]*)(?:->(\w[\w(),]*))? \[((?:[^"\]]|"[^"]*")*)\];', text, re.M):
        if m.group(2) is not None: edges.append([m.group(1), m.group(2)])
        else:
            l = re.search(r'label="([^"]*)"', m.group(3)); nodes.append([m.group(1), l.group(1) if l else ""])
    return nodes, edges

class Reader:
    """terms and positions in terms of the names of lifelines, messages and gates"""
    def __init__(self, nl, nm, ng):
        self.lf = gen.LF[:nl]; self.ms = gen.MS[:nm]; self.gt = gen.GT[:ng]
        self.names = dict(lf=self.lf, ms=self.ms, gt=self.gt)

    def lfs(self, s): return [self.lf.index(x) for x in s.split(",") if x]
    def target(self, x): return self.lf.index(x) if x in self.lf else -1 - self.gt.index(x)

    def leaf(self, l):
        m = re.fullmatch(r"(\w+)(\|!\||!)(\w+)(?:\(([\w,]*)\))?", l)
        if m: return ["em", self.lf.index(m[1]), self.ms.index(m[3]), int(m[2] != "!"), [self.target(x) for x in (m[4] or "").split(",") if x]]
        m = re.fullmatch(r"(?:(\w+)|\(([\w,]*)\))(\|\?\||\?)(?:\[(\w+)\])?(\w+)", l)
        if m: return ["rc", self.target(m[4]) if m[4] else 0, self.ms.index(m[5]), int(m[3] != "?"), self.lfs(m[1] or m[2])]
        raise Unreadable(l)

    def term(self, nodes, edges):
        """the term drawn as a tree whose root is the node without incoming edge (operands from left to right are in the order
        of their edges in the file), and for each node its path"""
        label = {}
        for n, l in nodes:
            if n in label: raise Unreadable("node twice: " + n)
            label[n] = l
        kids = {n: [] for n in label}
        for a, b in edges:
            if a not in kids or b not in kids: raise Unreadable("edge to nowhere")
            kids[a].append(b)
        roots = set(label) - {b for _, b in edges}
        if len(roots) != 1: raise Unreadable("not a tree")
        path = {}
        def go(n, w):
            path[n] = w
            if len(w) > 60: raise Unreadable("not a tree")
            l = label[n]; ks = [go(k, w + str(i + 1)) for i, k in enumerate(kids[n])]
            if not ks: return ["o"] if l == "o" else self.leaf(l)
            if l in gen.BIN: t = [l, *ks]; need = 2
            elif re.fullmatch(r"loop[SHWP]", l): t = ["lp", l[4], *ks]; need = 1
            elif l.startswith("coreg("): t = ["cr", self.lfs(l[6:-1]), *ks]; need = 2
            elif l.startswith("sync{"):
                acts = [re.fullmatch(r"(\w+)([!?])(\w+)", x) for x in l[5:-1].split(",") if x]
                if None in acts: raise Unreadable(l)
                t = ["sy", [[self.lf.index(a[1]), a[2], self.ms.index(a[3])] for a in acts], *ks]; need = 2
            else: raise Unreadable(l)
            if len(ks) != need: raise Unreadable("operands of " + l)
            return t
        try: return go(roots.pop(), "p"), path
        except (ValueError, IndexError) as e: raise Unreadable(str(e))

def position(s):
    """a position as it is written in the name of a step"""
    def inner(i):
        if i < len(s):
            if s[i] in "12":
                p, j = inner(i + 1); return [s[i], p], j
            if s[i] == "s":
                m = re.match(r"\d+", s[i + 1:])
                if not m: raise Unreadable(s)
                return ["s", int(m[0])], i + 1 + m.end()
            if s[i] == "o": return ["e"], i + 1
            if s[i] == "(" or (s[i] == "H" and i == 0):
                op, mid, end = ("(1", ",2", ")") if s[i] == "(" else ("H1", "_2", "H")
                if not s.startswith(op, i): raise Unreadable(s)
                p, j = inner(i + 2)
                if not s.startswith(mid, j): raise Unreadable(s)
                q, j = inner(j + 2)
                if not s.startswith(end, j): raise Unreadable(s)
                return ["b", p, q], j + 1
        return ["e"], i
    p, j = inner(0)
    if j != len(s): raise Unreadable(s)
    return p

def tree(reader, text):
    n, e = dot(text); t, path = reader.term(n, e)
    return dict(t=t, tree=dict(n=[[path[x], l] for x, l in n], e=[[path[a], path[b]] for a, b in e]))

def graph(reader, text, trees, kind):
    """nodes, steps and cuts of the graph of a search; trees: id -> text of the drawing of this node's term"""
    ns, es = dot(text); label = dict(ns)
    if kind != "exp":   # here a step is named after its ends only: two steps between the same nodes coincide
        ns = [x for i, x in enumerate(ns) if not (x[0].startswith("s_") and x in ns[:i])]
        es = [x for i, x in enumerate(es) if not ((x[0] + x[1]).count("s_") and x in es[:i])]
    if len(label) != len(ns): raise Unreadable("node twice")
    pre = "n" if kind == "exp" else "a"
    order = sorted(int(n[1:]) for n, _ in ns if re.fullmatch(pre + r"\d+", n)); num = {k: i + 1 for i, k in enumerate(order)}
    nodes = []
    for k in order:
        d = tree(reader, trees[k]) if k in trees else dict(t=["o"], tree=dict(n=[], e=[]))
        nodes.append(dict(d, v=label.get(f"v{k}", "")))
    steps = []; cuts = []; nxt = {}; froms = {}
    for a, b in es: nxt.setdefault(a, []).append(b); froms.setdefault(b, []).append(a)
    for n, l in ns:
        m = re.fullmatch(r"s_(\d+)_(\d+)(?:_(.*))?", n)
        if m:
            if froms.get(n) != [pre + m[1]] or nxt.get(n) != [pre + m[2]]: raise Unreadable("edges of " + n)
            steps.append([num[int(m[1])], num[int(m[2])], position(m[3]) if m[3] is not None else ["e"]])
        elif re.fullmatch(r"e\d+", n):
            f = froms.get(n)
            if not f or len(f) != 1: raise Unreadable("edges of " + n)
            cuts.append([num[int(f[0][1:])], l])
        elif re.fullmatch(r"v\d+", n):
            if num.get(int(n[1:])) is None or n not in nxt.get(pre + n[1:], []) + nxt.get("stat_anchor" + n[1:], []): raise Unreadable("edges of " + n)
    return dict(nodes=nodes, steps=steps, cuts=cuts, legend=label.get("verdict", "").replace("verdict=", ""))
