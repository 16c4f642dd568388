"""Lines of PlantUML files as tokens of spec/HibouPuml.tla (lexing only; what they mean is the specification's business)."""
import re
import gen

MSG = re.compile(r"^(\w*)\s*->\s*(\]|\w*)\s*:\s*(\w+)$")
EDGE = re.compile(r"^(\[\*\]|\w+)\s*-->\s*(\[\*\]|\w+)(?:\s*:\s*([!?])(\w+))?$")

def idx(names, n): return names.index(n) if n in names else 99

def body(text):
    ls = [l.strip() for l in text.split("\n")]; ls = [l for l in ls if l]
    if not ls or ls[0] != "@startuml" or ls[-1] != "@enduml": return [["?", text[:40]]]
    return ls[1:-1]

def sd_lines(text, lf=gen.LF, ms=gen.MS):
    out = []
    for l in body(text):
        if isinstance(l, list): out.append(l); continue
        m = MSG.match(l)
        if m:
            f = -1 if m[1] == "" else idx(lf, m[1])
            t = -1 if m[2] == "" else -2 if m[2] == "]" else idx(lf, m[2])
            out.append(["msg", f, t, idx(ms, m[3])])
        elif l in ("else", "end"): out.append([l])
        elif l == "alt": out.append(["open", "alt"])
        elif l.startswith("group "): out.append(["open", l[6:].strip()])
        else: out.append(["?", l])
    return out

def ap_lines(text, ms=gen.MS):
    out = []
    for l in body(text):
        if isinstance(l, list): out.append(l); continue
        m = EDGE.match(l)
        if m: out.append(["edge", m[1], m[2], [m[3], idx(ms, m[4])] if m[3] else []]); continue
        m = re.match(r"^state (\w+) \{$", l)
        if m: out.append(["state", m[1]]); continue
        m = re.match(r"^state (\w+) <<(\w+)>>$", l)
        if m: out.append(["kind", m[1], m[2]]); continue
        out.append(["close"] if l == "}" else ["?", l])
    return out
