"""Debug printer: python3 pp.py facts.json REGEX"""
import sys, re
from facts import Facts
def tys(F, t, d=0):
    k = t[0]
    if k == "adt": return F.defs[t[1]]["name"] + ("<%s>" % ",".join(tys(F, x) for x in t[2] if x != ("lt",)) if t[2] else "")
    if k == "ref": return "&" + ("mut " if t[1] else "") + tys(F, t[2])
    if k == "param": return t[1]
    if k == "tuple": return "(%s)" % ",".join(tys(F, x) for x in t[1])
    if k == "slice": return "[%s]" % tys(F, t[1])
    if k in ("int", "float"): return t[1]
    if k == "dyn": return "dyn " + (F.name(t[1]) if t[1] else "?")
    if k == "closure": return "{closure %s}" % t[1].split("::", 1)[1]
    if k == "fndef": return "fn " + t[1] + "<%s>" % ",".join(tys(F, x) for x in t[2] if x != ("lt",))
    return str(t)
def pl(p):
    s = "_%d" % p[0]
    for e in p[1:]:
        if e == "*": s = "(*%s)" % s
        elif e[0] == "f": s += ".%d" % e[1]
        elif e[0] == "d": s += "@%d" % e[1]
        elif e[0] == "i": s += "[_%d]" % e[1]
        else: s += str(e)
    return s
def op(F, o):
    if o[0] in "cm": return ("move " if o[0] == "m" else "") + pl(o[1])
    if o[0] == "k":
        c = o[1]; t = F.ty(c["t"])
        if t[0] == "fndef": return tys(F, t)
        return "const %s" % ({k: v for k, v in c.items() if k != "t"},) + ":" + tys(F, t)
    return str(o)
def show(F, b, out=sys.stdout):
    w = out.write
    w("fn %s  [%s:%d] canon=%s pub=%s\n" % (b.get("id", "?"), b["span"][0], b["span"][1], F.cn(b.get("id", "?")), b.get("pub")))
    for i, l in enumerate(b["locals"]): w("   _%d: %s%s\n" % (i, tys(F, F.ty(l)), "  (arg)" if 1 <= i <= b["args"] else ""))
    w("   dbg %s\n" % [(n, pl(p)) for n, p in b["dbg"]])
    for i, bb in enumerate(b["bbs"]):
        if bb is None: continue
        w(" bb%d:\n" % i)
        for s in bb[0]:
            if s[0] == "=":
                r = s[2]
                if r[0] == "use": x = op(F, r[1])
                elif r[0] == "ref": x = "&%s %s" % (r[1], pl(r[2]))
                elif r[0] == "bin": x = "%s(%s, %s)" % (r[1], op(F, r[2]), op(F, r[3]))
                elif r[0] == "agg": x = "%s(%s)" % (r[1][:3], ", ".join(op(F, y) for y in r[2]))
                elif r[0] == "cast": x = "cast %s %s as %s" % (r[1], op(F, r[2]), tys(F, F.ty(r[3])))
                elif r[0] == "discr": x = "discr " + pl(r[1])
                else: x = str(r)
                w("    %s = %s   // %s\n" % (pl(s[1]), x, s[3]))
            elif s[0] != "dead": w("    %s\n" % s)
        t = bb[1]
        if t[0] == "call": w("    %s = %s(%s) -> %s   // L%s res=%s\n" % (pl(t[3]), op(F, t[1]), ", ".join(op(F, a) for a in t[2]), t[4], t[7][1], t[6] and t[6][0]))
        elif t[0] == "switch": w("    switch %s %s else %s\n" % (op(F, t[1]), t[2], t[3]))
        else: w("    %s\n" % t)
if __name__ == "__main__":
    F = Facts(sys.argv[1])
    for u, b in F.bodies.items():
        if re.search(sys.argv[2], u) or re.search(sys.argv[2], F.cn(u)): show(F, b)
