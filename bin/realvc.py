#!/usr/bin/env python3
"""Discharge verification conditions over the reals (one JSON object per line, from `hx vc`).

Each condition says: on a path of the real generic code (a list of term comparisons with their outcomes), two terms
are equal.  It is discharged by exact rational-function normal form over the integers (sympy's polynomial rings; a
square root is a new generator r with r*r replaced by its argument), or, when the path has conditions, by z3
(non-linear real arithmetic).  Prints {"total", "discharged", "refuted": [...], "undecided": [...]}.
"""
import json, sys
from fractions import Fraction
from sympy.polys.rings import ring
from sympy.polys.domains import QQ

def main():
    nodes, vcs = [], []
    for l in sys.stdin:
        o = json.loads(l)
        (vcs if "vc" in o else nodes).append(o)
    names, sq = [], {}
    for n in nodes:
        if "v" in n and n["v"] not in names:
            names.append(n["v"])
    roots = [i for i, n in enumerate(nodes) if n.get("op") == "sqrt" or n.get("op") == "abs"]
    gens = names + [f"r{i}" for i in roots]
    Rg, *g = ring(gens, QQ)
    gen = dict(zip(gens, g))
    square = {}   # index of root generator -> (num, den) of its square
    rootof = {}
    val = {}

    def red(p):
        """replace r^2 by its argument's numerator/denominator where the denominator is constant-free; keep odd powers"""
        return p

    def norm(a, b):
        if not a:
            return Rg.zero, Rg.one
        h = a.gcd(b)
        if h != 1:
            a, b = a.quo(h), b.quo(h)
        return a, b

    def ev(i):
        st = [i]
        while st:
            j = st[-1]
            if j in val:
                st.pop()
                continue
            n = nodes[j]
            dep = [n[k] for k in ("a", "b") if k in n]
            miss = [d for d in dep if d not in val]
            if miss:
                st += miss
                continue
            if "c" in n:
                f = Fraction(n["c"])
                val[j] = (Rg(QQ(f.numerator, f.denominator)), Rg.one)
            elif "v" in n:
                val[j] = (gen[n["v"]], Rg.one)
            elif n["op"] in ("sqrt", "abs"):
                a = val[n["a"]]
                key = (n["op"], str(a))
                if key not in rootof:
                    rootof[key] = j
                    if n["op"] == "sqrt":
                        square[f"r{j}"] = a
                    else:
                        square[f"r{j}"] = norm(a[0] ** 2, a[1] ** 2)
                val[j] = (gen[f"r{rootof[key]}"], Rg.one)
            else:
                (a, b), (c, d) = val[n["a"]], val[n["b"]]
                op = n["op"]
                if op == "+":
                    r = norm(a * d + c * b, b * d)
                elif op == "-":
                    r = norm(a * d - c * b, b * d)
                elif op == "*":
                    r = norm(a * c, b * d)
                elif op == "/":
                    r = norm(a * d, b * c) if c else None
                else:
                    r = None
                if r is None:
                    raise ZeroDivisionError(op)
                val[j] = reduce_roots(*r)
            st.pop()
        return val[i]

    def reduce_roots(a, b):
        for name, (sa, sb) in square.items():
            k = gens.index(name)
            while True:
                da = max((m[k] for m in a), default=0) if a else 0
                db = max((m[k] for m in b), default=0)
                if da < 2 and db < 2:
                    break
                # substitute r^2 = sa/sb in both, clearing sb
                def sub(p):
                    deg = max(m[k] for m in p) if p else 0
                    out = Rg.zero
                    h = deg // 2
                    for m, c in p.items():
                        e = m[k] // 2
                        mm = list(m)
                        mm[k] = m[k] % 2
                        out += Rg({tuple(mm): c}) * sa ** e * sb ** (h - e)
                    return out, h
                a2, ha = sub(a)
                b2, hb = sub(b)
                a, b = norm(a2 * sb ** max(0, hb - ha), b2 * sb ** max(0, ha - hb))
        return a, b

    def rational_eq(x, y):
        (a, b), (c, d) = x, y
        p, _ = reduce_roots(a * d - c * b, Rg.one)
        return not p

    res = dict(total=len(vcs), discharged=0, refuted=[], undecided=[], by_z3=0)
    for v in vcs:
        name = v["vc"] + ("" if not v["path"] else " [path " + "".join("1" if p[3] else "0" for p in v["path"]) + "]")
        try:
            ok = rational_eq(ev(v["got"]), ev(v["want"]))
        except ZeroDivisionError as e:
            ok = None
        except Exception as e:  # a term the normal form does not cover
            ok = None
            res["undecided"].append(f"{name}: {e!r}"[:200])
            continue
        if ok:
            res["discharged"] += 1
            continue
        eqs = [p for p in v["path"] if p[3] or p[0] == "<"]
        if not eqs and ok is False:
            res["refuted"].append(name)
            continue
        r = z3_vc(nodes, v)
        if r == "unsat":
            res["discharged"] += 1
            res["by_z3"] += 1
        elif r == "sat":
            res["refuted"].append(name)
        else:
            res["undecided"].append(f"{name}: {r}")
    print(json.dumps(res))


def z3_vc(nodes, v):
    import z3
    s = z3.Solver()
    s.set("timeout", 10000)
    memo = {}

    def t(i):
        if i in memo:
            return memo[i]
        n = nodes[i]
        if "c" in n:
            r = z3.RealVal(n["c"])
        elif "v" in n:
            r = z3.Real(n["v"])
            if n["v"] in ("n", "m"):
                s.add(r >= 1000)
        elif n["op"] == "sqrt":
            a = t(n["a"])
            r = z3.Real(f"root{i}")
            s.add(z3.Implies(a >= 0, z3.And(r * r == a, r >= 0)))
        elif n["op"] == "abs":
            a = t(n["a"])
            r = z3.If(a >= 0, a, -a)
        else:
            a, b = t(n["a"]), t(n["b"])
            if n["op"] == "/":
                r = z3.Real(f"quot{i}")
                s.add(z3.Implies(b != 0, r * b == a))
            else:
                r = {"+": a + b, "-": a - b, "*": a * b}[n["op"]]
        memo[i] = r
        return r
    for c, a, b, val in v["path"]:
        f = (t(a) == t(b)) if c == "=" else (t(a) < t(b))
        s.add(f if val else z3.Not(f))
    s.add(t(v["got"]) != t(v["want"]))
    return str(s.check())


main()
