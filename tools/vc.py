"""Discharges the obligations that the contracts dump from the library's code.

prove(dump, ...) -> one Result per obligation.  Back ends, in order:
  generator   goal folded to true while the path was executed
  ring        equality of rational functions (tools/poly.py)
  z3 / z3-new / cvc5   satisfiability of assumptions & not goal over the reals
A `sat` answer carries a model; `unknown` is reported as such.
"""
import json, os, re, subprocess, sys, threading, time, hashlib, tempfile, itertools
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
import poly as P

sys.setrecursionlimit(100000)

FLOATOPS = ("var", "rnd", "up", "down")


class Result:
    def __init__(s, contract, ob, status, backend, secs=0.0, model=None, detail=""):
        s.contract, s.ob, s.status, s.backend = contract, ob, status, backend
        s.secs, s.model, s.detail = secs, model, detail


def frac(s):
    m, e = s.split("p")
    return Fraction(int(m)) * (Fraction(2) ** int(e))


def smt_num(q):
    q = Fraction(q)
    n = str(abs(q.numerator)) + ".0"
    t = n if q.denominator == 1 else "(/ %s %d.0)" % (n, q.denominator)
    return "(- %s)" % t if q < 0 else t


class VC:
    def __init__(self, d):
        self.d = d
        self.nodes = d["nodes"]
        self.b = d["bnodes"]
        self.rounded = d["mode"] == "Rounded"
        self.flags = set(d.get("flags", []))
        self.rat = {}
        self.pi_node = None
        self.atomkey = {}   # canonical key -> atom id (node id)
        self.defs = {}      # atom -> ("sq", Rat) rewriting of its square
        self.divs = {}      # node -> set of denominator nodes below it
        self.lock = threading.RLock()
        self.zero_node = None
        for i, n in enumerate(self.nodes):
            if n[0] == "const" and frac(n[1]) == 0:
                self.zero_node = i

    # ------------------------------------------------------ normal forms ----
    def R(self, i):
        r = self.rat.get(i)
        if r is None:
            r = self._R(i)
            self.rat[i] = r
        return r

    def atom_for(self, k, i):
        a = self.atomkey.get(k)
        if a is None:
            a = self.atomkey[k] = i
        return a

    def _R(self, i):
        n = self.nodes[i]
        op = n[0]
        if op == "const":
            return P.rconst(frac(n[1]))
        if op in ("var", "pi"):
            return P.Rat(P.atom(i))
        if op == "add":
            return P.radd(self.R(n[1]), self.R(n[2]))
        if op == "sub":
            return P.radd(self.R(n[1]), self.R(n[2]), -1)
        if op == "mul":
            return P.rmul(self.R(n[1]), self.R(n[2]))
        if op == "neg":
            a = self.R(n[1])
            return P.Rat(P.pneg(a.num), a.den)
        if op == "div":
            b = self.R(n[2])
            if not b.num:
                return P.Rat(P.atom(i))
            return P.rmul(self.R(n[1]), P.rinv(b))
        if op == "sqrt":
            a = self.R(n[1])
            return self.sqrt_atom(a, i)
        if op == "fun":
            args = [self.R(x) for x in n[2:]]
            name = n[1]
            inner = self.nodes[n[2]] if len(n) == 3 else None
            if inner and inner[0] == "fun":
                # inverse pairs
                if (name, inner[1]) in (("cos", "acos"), ("sin", "asin"), ("tan", "atan")):
                    return self.R(inner[2])
                if (name, inner[1]) in (("sin", "acos"), ("cos", "asin")):
                    u = self.R(inner[2])
                    return self.sqrt_atom(P.radd(P.rconst(1), P.rmul(u, u), -1), i)
                if inner[1] == "atan2" and name in ("sin", "cos"):
                    y, x = self.R(inner[2]), self.R(inner[3])
                    rho = self.sqrt_atom(P.radd(P.rmul(x, x), P.rmul(y, y)), i)
                    if rho.num and not P.is_const(rho.num):
                        return P.rmul(y if name == "sin" else x, P.rinv(rho))
            sign = 1
            if name in ("sin", "cos"):
                # multiples of pi/2 out of the argument
                name, args[0], sign = self.quarter_turns(name, args[0])
            if name in ("sin", "cos", "tan", "asin", "atan") and args[0].num:
                m0 = min(args[0].num)
                if args[0].num[m0] < 0:
                    args[0] = P.Rat(P.pneg(args[0].num), args[0].den)
                    sign = sign if name == "cos" else -sign
            if name in ("sin", "cos") and not args[0].num:
                return P.rconst(0 if name == "sin" else sign)
            k = ("fun", name) + tuple(P.rkey(a) for a in args)
            a = self.atom_for(k, i)
            if name == "sin":
                # sin^2 -> 1 - cos^2 when the cosine of the same argument occurs
                ck = ("fun", "cos") + k[2:]
                c = self.atomkey.get(ck)
                if c is not None:
                    self.defs[a] = P.Rat(P.padd(P.ONE, {((c, 2),): Fraction(1)}, -1))
            if name == "cos":
                s = self.atomkey.get(("fun", "sin") + k[2:])
                if s is not None:
                    self.defs[s] = P.Rat(P.padd(P.ONE, {((a, 2),): Fraction(1)}, -1))
            r = P.Rat(P.atom(a))
            return r if sign == 1 else P.Rat(P.pneg(r.num))
        if op in ("min", "max"):
            ks = sorted(P.rkey(self.R(x)) for x in n[1:3])
            if ks[0] == ks[1]:
                return self.R(n[1])
            return P.Rat(P.atom(self.atom_for((op,) + tuple(ks), i)))
        if op in ("abs", "rnd", "up", "down"):
            a = self.R(n[1])
            return P.Rat(P.atom(self.atom_for((op, P.rkey(a)), i)))
        if op == "ite":
            return P.Rat(P.atom(i))
        raise ValueError(op)

    def quarter_turns(self, name, a):
        pi = next((j for j, n in enumerate(self.nodes) if n[0] == "pi"), None) if self.pi_node is None else self.pi_node
        self.pi_node = pi = -1 if pi is None else pi
        if pi < 0:
            return name, a, 1
        best = None
        for k in (0, 1, -1, 2, -2, 3, -3, 4, -4):
            r = a if k == 0 else P.radd(a, P.rmul(P.Rat(P.atom(pi)), P.rconst(Fraction(k, 2))), -1)
            key = (len(r.num), sum(abs(c) for c in r.num.values()), abs(k), k)
            if best is None or key < best[0]:
                best = (key, k % 4, r)
        _, k, r = best
        # f(r + k pi/2)
        if name == "sin":
            name, sign = (("sin", 1), ("cos", 1), ("sin", -1), ("cos", -1))[k]
        else:
            name, sign = (("cos", 1), ("sin", -1), ("cos", -1), ("sin", 1))[k]
        return name, r, sign

    def sqrt_atom(self, a, i):
        if P.is_const(a.num) and not a.den:
            c = a.num.get((), Fraction(0))
            import math
            if c >= 0:
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return P.rconst(Fraction(n, d))
        # reduce the argument first so that equal radicands share an atom
        num = self.reduce(a.num)
        if num == a.num:
            red = a
        else:
            red = a  # only exact rewriting is used for keys
        at = self.atom_for(("sqrt", P.rkey(red)), i)
        self.defs.setdefault(at, a)
        return P.Rat(P.atom(at))

    def reduce(self, p):
        """rewrite squares of sqrt and sin atoms until none is left"""
        for _ in range(40):
            best = None
            for a in P.atoms_of(p):
                if a in self.defs and P.degree_in(p, a) >= 2:
                    if best is None or a > best:
                        best = a
            if best is None:
                return p
            p = P.reduce_sq(p, best, self.defs[best])
        return p

    # the denominators a normal form of this node relies on
    def denoms(self, i, acc, seen):
        st = [i]
        while st:
            j = st.pop()
            if j in seen:
                continue
            seen.add(j)
            n = self.nodes[j]
            if n[0] == "div":
                acc.add(n[2])
            if n[0] == "fun" and n[1] in ("sin", "cos") and self.nodes[n[2]][0] == "fun" and self.nodes[n[2]][1] == "atan2":
                acc.add(("rho", n[2]))
            if n[0] == "sqrt":
                acc.add(("nonneg", n[1]))
            if n[0] == "fun" and n[1] in ("sin", "cos") and self.nodes[n[2]][0] == "fun" and self.nodes[n[2]][1] in ("acos", "asin"):
                acc.add(("unit", self.nodes[n[2]][2]))
            if n[0] == "ite":
                st.extend(n[2:4])
            elif n[0] not in ("const", "var", "pi"):
                st.extend(x for x in n[1:] if isinstance(x, int))

    # ------------------------------------------------------------ splitting --
    def split(self, goal, assume):
        """-> list of (assumptions, goal)"""
        g = self.b[goal]
        if g[0] == "and":
            out = []
            for x in g[1:]:
                out += self.split(x, assume)
            return out
        if g[0] == "or":
            extra, rest = [], []
            for x in g[1:]:
                if self.b[x][0] == "not":
                    extra.append(self.b[x][1])
                else:
                    rest.append(x)
            asm = assume + [("a", e) for e in extra]
            if len(rest) == 1:
                return self.split(rest[0], asm)
            if not rest:
                return [(asm, ("false",))]
            return [(asm, ("or", rest))]
        return [(assume, ("b", goal))]

    # ---------------------------------------------------------- ring prover --
    def flat_assume(self, assume):
        """positive/negative literals (bnode id, polarity) implied directly"""
        out, st = [], [(x[1] if isinstance(x, tuple) else x, True) for x in assume]
        while st:
            x, pol = st.pop()
            n = self.b[x]
            if n[0] == "not":
                st.append((n[1], not pol))
            elif n[0] == "and" and pol:
                st.extend((y, True) for y in n[1:])
            elif n[0] == "or" and not pol:
                st.extend((y, False) for y in n[1:])
            else:
                out.append((x, pol))
        return out

    def ring(self, assume, goal):
        """(proved, side conditions)"""
        g = self.b[goal]
        if g[0] != "eq":
            return None
        try:
            with self.lock:
                diff = P.radd(self.R(g[1]), self.R(g[2]), -1)
                p = self.reduce(diff.num)
                if not p:
                    return self.sides([g[1], g[2]])
                lits = self.flat_assume(assume)
                eqs, used = [], []
                for x, pol in lits:
                    n = self.b[x]
                    if n[0] == "eq" and pol:
                        e = self.reduce(P.radd(self.R(n[1]), self.R(n[2]), -1).num)
                        if e:
                            eqs.append(e)
                            used += [n[1], n[2]]
                if not eqs:
                    return False
                # substitute linear equalities
                rest = []
                subs = []
                for e in eqs:
                    for a, r in subs:
                        e = P.subst(e, a, r)
                    e = self.reduce(e)
                    if not e:
                        continue
                    cand = None
                    for a in P.atoms_of(e):
                        if self.nodes[a][0] != "var" or P.degree_in(e, a) != 1:
                            continue
                        parts = P.split_pow(e, a)
                        if P.is_const(parts[1]):
                            cand = (a, P.Rat({m: -c / parts[1][()] for m, c in parts.get(0, {}).items()}))
                            break
                    if cand and len(cand[1].num) <= 12:
                        a, r = cand
                        # an atom defined from a (sqrt, fun) keeps a in its definition: only
                        # substitute when no such atom is around
                        if any(self.depends(x, a) for x in P.atoms_of(p)):
                            rest.append(e)
                            continue
                        subs = [(b, P.Rat(P.subst(q.num, a, r))) for b, q in subs] + [(a, r)]
                        rest = [P.subst(x, a, r) for x in rest]
                    else:
                        rest.append(e)
                for a, r in subs:
                    p = P.subst(p, a, r)
                p = self.reduce(p)
                if not p:
                    return self.sides([g[1], g[2]] + used)
                if not rest:
                    return False
                rest = [self.reduce(x) for x in rest]
                rest = [x for x in rest if x]
                ats = sorted(set().union(*[P.atoms_of(x) for x in rest + [p]]))
                hyps = list(rest)
                if P.linear_combination(p, hyps):
                    return self.sides([g[1], g[2]] + used)
                gm = max(sum(e for _, e in m) for m in p)
                if len(rest) * (len(ats) + 1) > 1500:
                    return False
                for a in ats:
                    for x in rest:
                        q = self.reduce(P.pmul(x, P.atom(a)))
                        if max((sum(e for _, e in m) for m in q), default=0) <= gm + 1:
                            hyps.append(q)
                if P.linear_combination(p, hyps):
                    return self.sides([g[1], g[2]] + used)
                return False
        except P.TooBig:
            return None

    def depends(self, at, v):
        if at == v:
            return False
        st, seen = [at], set()
        while st:
            j = st.pop()
            if j in seen:
                continue
            seen.add(j)
            if j == v:
                return True
            n = self.nodes[j]
            if n[0] not in ("const", "var", "pi"):
                st.extend(x for x in n[1:] if isinstance(x, int))
        return False

    def sides(self, roots):
        acc, seen = set(), set()
        for r in roots:
            self.denoms(r, acc, seen)
        return acc or True

    # ---------------------------------------------------------------- SMT ----
    def rep(self, i):
        """canonical representative of an opaque node"""
        n = self.nodes[i]
        if n[0] in ("sqrt", "fun", "rnd", "up", "down", "min", "max", "abs"):
            try:
                with self.lock:
                    r = self.R(i)
                if len(r.num) == 1 and not r.den:
                    (m, c), = r.num.items()
                    if c == 1 and len(m) == 1 and m[0][1] == 1 and self.nodes[m[0][0]][0] == n[0]:
                        return m[0][0]
            except P.TooBig:
                pass
        return i

    def script(self, assume, goal, opts=()):
        em = Emit(self)
        for x in assume:
            em.assertb(x[1] if isinstance(x, tuple) else x, True)
        if goal[0] == "b":
            em.assertb(goal[1], False)
        elif goal[0] == "or":
            for x in goal[1]:
                em.assertb(x, False)
        elif goal[0] == "rho":      # prove x^2 + y^2 != 0
            n = self.nodes[goal[1]]
            em.asserts.append("(and (= %s 0.0) (= %s 0.0))" % (em.t(n[2]), em.t(n[3])))
        elif goal[0] == "nz":
            em.asserts.append("(= %s 0.0)" % em.t(goal[1]))
        elif goal[0] == "nonneg":
            em.asserts.append("(< %s 0.0)" % em.t(goal[1]))
        elif goal[0] == "unit":
            t = em.t(goal[1])
            em.asserts.append("(or (< %s (- 1.0)) (> %s 1.0))" % (t, t))
        return em.finish(opts)


class Emit:
    def __init__(self, vc):
        self.vc = vc
        self.decl, self.defs, self.asserts, self.ax = [], [], [], []
        self.done = {}
        self.bdone = {}
        self.opaque = []
        self.vars = []
        self.lin = True
        self.nofun = self.lean = False
        self.has_circle = False

    def t(self, i):
        i = self.vc.rep(i)
        if i in self.done:
            return self.done[i]
        n = self.vc.nodes[i]
        op = n[0]
        name = "n%d" % i
        if op == "const":
            r = smt_num(frac(n[1]))
        elif op == "var":
            r = "|%s|" % n[1]
            self.decl.append(r)
            self.vars.append((n[1], r))
            self.opaque.append(i)
        elif op == "pi":
            r = "|pi|"
            self.decl.append(r)
            self.ax.append("(and (< 3.14159265358 |pi|) (< |pi| 3.14159265359))")
        elif op in ("add", "sub", "mul", "neg"):
            o = {"add": "+", "sub": "-", "mul": "*", "neg": "-"}[op]
            args = " ".join(self.t(x) for x in n[1:])
            self.defs.append((name, "(%s %s)" % (o, args)))
            r = name
            if op == "mul" and not any(self.vc.nodes[x][0] == "const" for x in n[1:3]):
                self.lin = False
        elif op == "div":
            a, b = self.t(n[1]), self.t(n[2])
            if self.vc.nodes[n[2]][0] == "const":
                self.defs.append((name, "(/ %s %s)" % (a, b)))
            else:
                self.lin = False
                self.decl.append(name)
                self.defs.append(("", "(or (= %s 0.0) (= (* %s %s) %s))" % (b, name, b, a)))
            r = name
        elif op in ("min", "max"):
            a, b = self.t(n[1]), self.t(n[2])
            self.defs.append((name, "(ite (%s %s %s) %s %s)" % ("<=" if op == "min" else ">=", a, b, a, b)))
            r = name
            self.opaque.append(i)
        elif op == "abs":
            a = self.t(n[1])
            self.defs.append((name, "(ite (>= %s 0.0) %s (- %s))" % (a, a, a)))
            r = name
            self.opaque.append(i)
        elif op == "ite":
            c = self.bt(n[1])
            self.defs.append((name, "(ite %s %s %s)" % (c, self.t(n[2]), self.t(n[3]))))
            r = name
        elif op == "sqrt":
            a = self.t(n[1])
            self.lin = False
            self.decl.append(name)
            self.defs.append(("", "(>= %s 0.0)" % name))
            self.defs.append(("", "(or (< %s 0.0) (= (* %s %s) %s))" % (a, name, name, a)))
            r = name
            self.opaque.append(i)
        elif op in ("fun", "rnd", "up", "down"):
            for x in n[1:]:
                if isinstance(x, int):
                    self.t(x)
            self.decl.append(name)
            r = name
            self.opaque.append(i)
        else:
            raise ValueError(op)
        self.done[i] = r
        return r

    def bt(self, i):
        if i in self.bdone:
            return self.bdone[i]
        n = self.vc.b[i]
        op = n[0]
        if op in ("true", "false"):
            r = op
        elif op == "bvar":
            r = "|b_%s|" % n[1]
            self.decl.append("B" + r)
        elif op == "lt":
            r = "(< %s %s)" % (self.t(n[1]), self.t(n[2]))
        elif op == "le":
            r = "(<= %s %s)" % (self.t(n[1]), self.t(n[2]))
        elif op == "eq":
            r = "(= %s %s)" % (self.t(n[1]), self.t(n[2]))
        elif op == "not":
            r = "(not %s)" % self.bt(n[1])
        else:
            r = "(%s %s)" % (op, " ".join(self.bt(x) for x in n[1:]))
        self.bdone[i] = r
        return r

    def assertb(self, i, pol):
        r = self.bt(i)
        self.asserts.append(r if pol else "(not %s)" % r)

    # ---------------------------------------------------------------- axioms
    def fun_axioms(self):
        vc, ax = self.vc, self.ax
        funs = [(i, vc.nodes[i]) for i in self.opaque if vc.nodes[i][0] == "fun"]
        by = {}
        for i, n in funs:
            by.setdefault(n[1], []).append((i, n))
        # sin / cos of the same argument
        for i, n in by.get("sin", []):
            self.ax.append("(and (<= (- 1.0) {0}) (<= {0} 1.0))".format(self.t(i)))
        for i, n in by.get("cos", []):
            self.ax.append("(and (<= (- 1.0) {0}) (<= {0} 1.0))".format(self.t(i)))
        for (i, n), (j, m) in itertools.product(by.get("sin", []), by.get("cos", [])):
            if self.nofun:
                break   # dropping an axiom is sound for unsat
            self.has_circle = True
            if self.same(n[2], m[2]):
                s, c = self.t(i), self.t(j)
                self.lin = False
                ax.append("(= (+ (* {0} {0}) (* {1} {1})) 1.0)".format(s, c))
        for name in ("sin", "cos"):
            for i, n in by.get(name, []):
                inner = vc.nodes[n[2]]
                if inner[0] != "fun":
                    continue
                r = self.t(i)
                if inner[1] in ("acos", "asin"):
                    u = self.t(inner[2])
                    if (name, inner[1]) in (("cos", "acos"), ("sin", "asin")):
                        ax.append("(= %s %s)" % (r, u))
                    else:
                        self.lin = False
                        ax.append("(and (>= {0} 0.0) (= (+ (* {0} {0}) (* {1} {1})) 1.0))".format(r, u))
                if inner[1] == "atan2":
                    y, x = self.t(inner[2]), self.t(inner[3])
                    rho = "rho%d" % n[2]
                    self.lin = False
                    if rho not in self.decl:
                        self.decl.append(rho)
                        ax.append("(and (>= {0} 0.0) (= (* {0} {0}) (+ (* {1} {1}) (* {2} {2}))))".format(rho, x, y))
                    ax.append("(= (* %s %s) %s)" % (r, rho, y if name == "sin" else x))
        for i, n in funs:
            r, f = self.t(i), n[1]
            if f == "acos":
                self.t_pi()
                ax.append("(and (<= 0.0 {0}) (<= {0} |pi|))".format(r))
            elif f == "asin":
                self.t_pi()
                ax.append("(and (<= (- |pi|) (* 2.0 {0})) (<= (* 2.0 {0}) |pi|))".format(r))
            elif f == "atan":
                self.t_pi()
                ax.append("(and (< (- |pi|) (* 2.0 {0})) (< (* 2.0 {0}) |pi|))".format(r))
                u = self.t(n[2])
                ax.append("(and (= (> {1} 0.0) (> {0} 0.0)) (= (< {1} 0.0) (< {0} 0.0)))".format(r, u))
            elif f == "atan2":
                self.t_pi()
                y, x = self.t(n[2]), self.t(n[3])
                ax.append("(and (< (- |pi|) {0}) (<= {0} |pi|))".format(r))
                ax.append("(=> (> %s 0.0) (and (< 0.0 %s) (< %s |pi|)))" % (y, r, r))
                ax.append("(=> (< %s 0.0) (< %s 0.0))" % (y, r))
                ax.append("(=> (and (= {0} 0.0) (>= {1} 0.0)) (= {2} 0.0))".format(y, x, r))
                ax.append("(=> (and (= {0} 0.0) (< {1} 0.0)) (= {2} |pi|))".format(y, x, r))
            elif f == "tan":
                self.t_pi()
                u = self.t(n[2])
                ax.append("(=> (and (< 0.0 {0}) (< (* 2.0 {0}) |pi|)) (> {1} 0.0))".format(u, r))
        # monotone and congruent
        inc = {"asin": 1, "atan": 1, "acos": -1}
        for f, l in by.items():
            for (i, n), (j, m) in itertools.combinations(l, 2):
                a, b = self.t(i), self.t(j)
                if f in inc:
                    u, v = self.t(n[2]), self.t(m[2])
                    if inc[f] < 0:
                        a, b = b, a
                    ax.append("(and (= (< {0} {1}) (< {2} {3})) (= (= {0} {1}) (= {2} {3})))".format(u, v, a, b))
                else:
                    args = " ".join("(= %s %s)" % (self.t(p), self.t(q)) for p, q in zip(n[2:], m[2:]))
                    ax.append("(=> (and %s) (= %s %s))" % (args, a, b))
        # sqrt congruence comes from its definition

    def same(self, a, b):
        if a == b:
            return True
        try:
            with self.vc.lock:
                return P.rkey(self.vc.R(a)) == P.rkey(self.vc.R(b))
        except P.TooBig:
            return False

    def t_pi(self):
        if "|pi|" not in self.decl:
            self.decl.append("|pi|")
            self.ax.append("(and (< 3.14159265358 |pi|) (< |pi| 3.14159265359))")

    def is_float(self, i):
        n = self.vc.nodes[i]
        if n[0] in ("rnd", "up", "down", "const"):
            return True
        if n[0] == "var":
            return not n[1].startswith("real_")
        if n[0] in ("neg", "abs"):
            return self.is_float(n[1])
        if n[0] in ("min", "max"):
            return self.is_float(n[1]) and self.is_float(n[2])
        return False

    def round_axioms(self):
        vc, ax = self.vc, self.ax
        ops = list(self.done)
        # the node for 0 and +-1 are floats
        floats = [i for i in ops if self.is_float(i)]
        consts = {vc.nodes[i][1]: i for i in floats if vc.nodes[i][0] == "const"}
        ft = [(i, self.t(i)) for i in floats]
        extra = [("0.0",), ("1.0",), ("(- 1.0)",)]
        fl = [t for _, t in ft] + [e[0] for e in extra]
        fl = list(dict.fromkeys(fl))
        rnds = [i for i in ops if vc.nodes[i][0] == "rnd"]
        ups = {vc.rep(vc.nodes[i][1]): i for i in ops if vc.nodes[i][0] == "up"}
        downs = {vc.rep(vc.nodes[i][1]): i for i in ops if vc.nodes[i][0] == "down"}
        for i in rnds:
            r, e = self.t(i), self.t(vc.nodes[i][1])
            for f in fl:
                if f == r:
                    continue
                ax.append("(and (=> (<= {e} {f}) (<= {r} {f})) (=> (<= {f} {e}) (<= {f} {r})))".format(e=e, f=f, r=r))
            # libm: a computed sine or cosine is 0 only where the exact one is
            arg = vc.nodes[vc.nodes[i][1]]
            if arg[0] == "fun" and arg[1] in ("sin", "cos"):
                ax.append("(=> (= %s 0.0) (= %s 0.0))" % (r, e))
            # the exact value lies within one float of its rounding
            if i in ups:
                ax.append("(<= %s %s)" % (e, self.t(ups[i])))
            if i in downs:
                ax.append("(<= %s %s)" % (self.t(downs[i]), e))
            # 2f is a float and so is -f
            for j, f in ft if not self.lean else []:
                ax.append("(and (=> (<= {e} (* 2.0 {f})) (<= {r} (* 2.0 {f}))) (=> (<= (* 2.0 {f}) {e}) (<= (* 2.0 {f}) {r})))".format(e=e, f=f, r=r))
                if vc.nodes[j][0] in ("var", "rnd"):
                    ax.append("(and (=> (<= {e} (- {f})) (<= {r} (- {f}))) (=> (<= (- {f}) {e}) (<= (- {f}) {r})))".format(e=e, f=f, r=r))
        for i, j in itertools.combinations(rnds, 2):
            a, b = self.t(vc.nodes[i][1]), self.t(vc.nodes[j][1])
            r, s = self.t(i), self.t(j)
            ax.append("(and (=> (<= {a} {b}) (<= {r} {s})) (=> (<= {b} {a}) (<= {s} {r})))".format(a=a, b=b, r=r, s=s))
            if not self.lean:
                ax.append("(and (=> (<= {a} (- {b})) (<= {r} (- {s}))) (=> (<= (- {b}) {a}) (<= (- {s}) {r})))".format(a=a, b=b, r=r, s=s))
        for base, i in ups.items():
            u, f = self.t(i), self.t(base)
            ax.append("(< %s %s)" % (f, u))
            for g in fl:
                if g not in (u, f):
                    ax.append("(=> (< {f} {g}) (<= {u} {g}))".format(f=f, g=g, u=u))
                    if not self.lean:
                        ax.append("(=> (< {f} (- {g})) (<= {u} (- {g})))".format(f=f, g=g, u=u))
        for base, i in downs.items():
            u, f = self.t(i), self.t(base)
            ax.append("(< %s %s)" % (u, f))
            for g in fl:
                if g not in (u, f):
                    ax.append("(=> (< {g} {f}) (<= {g} {u}))".format(f=f, g=g, u=u))
                    if not self.lean:
                        ax.append("(=> (< (- {g}) {f}) (<= (- {g}) {u}))".format(f=f, g=g, u=u))
        # next_up and next_down are monotone
        for tbl in (ups, downs):
            for (b1, i), (b2, j) in itertools.combinations(tbl.items(), 2):
                ax.append("(and (=> (<= {a} {b}) (<= {u} {v})) (=> (<= {b} {a}) (<= {v} {u})))".format(
                    a=self.t(b1), b=self.t(b2), u=self.t(i), v=self.t(j)))
        # spacing of floats around pi, eps = 2^(1-p) for a binary format of p >= 11 bits
        if "ulp" in vc.flags:
            self.decl.append("eps")
            ax.append("(and (< 0.0 eps) (<= eps (/ 1.0 1024.0)))")
            for i in rnds:
                r, e = self.t(i), self.t(vc.nodes[i][1])
                ax.append("(=> (and (<= (- 4.0) {e}) (<= {e} 4.0)) (and (<= (- {r} {e}) eps) (<= (- {e} {r}) eps)))".format(e=e, r=r))
                for tbl, sg in ((ups, 1), (downs, -1)):
                    if i in tbl:
                        gap = ("(- %s %s)" if sg > 0 else "(- {1} {0})").replace("%s", "{}") if False else None
                        u = self.t(tbl[i])
                        d = "(- %s %s)" % ((u, e) if sg > 0 else (e, u))
                        ax.append("(=> (or (<= 1.0 {e}) (<= {e} (- 1.0))) (>= {d} (/ eps 2.0)))".format(e=e, d=d))
                        ax.append("(=> (or (<= 2.0 {e}) (<= {e} (- 2.0))) (>= {d} eps))".format(e=e, d=d))
        # the enclosing constants for pi (Kani obligations in C03/C06)
        for v, t in self.vars:
            for pre, m in (("pi1_", "1.0"), ("pi2_", "2.0"), ("pih_", "0.5"), ("piq_", "0.25")):
                if v.startswith(pre):
                    self.t_pi()
                    if v.endswith("lower"):
                        ax.append("(and (<= {t} (* {m} |pi|)) (<= (* {m} 3.1415) {t}))".format(t=t, m=m))
                    else:
                        ax.append("(and (<= (* {m} |pi|) {t}) (<= {t} (* {m} 3.1416)))".format(t=t, m=m))
            if v == "float_lowest":
                for g in fl:
                    ax.append("(<= %s %s)" % (t, g))
            if v == "float_highest":
                for g in fl:
                    ax.append("(<= %s %s)" % (g, t))

    def finish(self, opts):
        self.nofun = self.lean = "lean" in opts
        self.fun_axioms()
        if self.vc.rounded:
            self.round_axioms()
        o = []
        for d in dict.fromkeys(self.decl):
            if d.startswith("B|"):
                o.append("(declare-const %s Bool)" % d[1:])
            else:
                o.append("(declare-const %s Real)" % d)
        for n, e in self.defs:
            if n:
                o.append("(define-fun %s () Real %s)" % (n, e))
            else:
                o.append("(assert %s)" % e)
        for a in dict.fromkeys(self.ax):
            o.append("(assert %s)" % a)
        for a in dict.fromkeys(self.asserts):
            o.append("(assert %s)" % a)
        self.vc.has_circle = self.has_circle
        return "\n".join(o), [v for v in self.vars], self.lin


# ------------------------------------------------------------------ solvers --
def run(cmd, text, timeout):
    t = time.time()
    try:
        p = subprocess.run(cmd, input=text, capture_output=True, text=True, timeout=timeout + 2)
        out = p.stdout
    except subprocess.TimeoutExpired:
        out = "timeout"
    return out, time.time() - t


def z3_cmd(exe, t):
    return [exe, "-in", "-T:%d" % max(1, int(t + 0.999)), "pp.decimal=true", "pp.decimal_precision=17"]


def ask(body, vars, solver, timeout, lin):
    names = " ".join(r for _, r in vars)
    if solver in ("z3", "z3-new"):
        logic = "QF_LRA" if lin else "QF_NRA"
        txt = "(set-logic %s)\n%s\n(check-sat)\n" % (logic, body)
        if vars:
            txt += "(get-value (%s))\n" % names
        out, s = run(z3_cmd(solver, timeout), txt, timeout)
    elif solver == "z3-smt":
        txt = "%s\n(check-sat-using (then simplify propagate-values solve-eqs simplify smt))\n" % body
        out, s = run(z3_cmd("z3-new", timeout), txt, timeout)
    elif solver == "cvc5":
        txt = "(set-logic QF_NRA)\n%s\n(check-sat)\n" % body
        out, s = run(["cvc5", "--lang=smt2", "--nl-ext-tplanes", "--tlimit=%d" % int(timeout * 1000)], txt, timeout)
    elif solver == "cvc5-cov":
        txt = "(set-logic QF_NRA)\n%s\n(check-sat)\n" % body
        out, s = run(["cvc5", "--lang=smt2", "--nl-cov", "--tlimit=%d" % int(timeout * 1000)], txt, timeout)
    first = out.strip().split("\n")[0].strip() if out.strip() else "timeout"
    if first not in ("sat", "unsat"):
        if "error" in out and "model is not available" not in out and first != "unknown" and first != "timeout":
            return "error", None, s, out[:400]
        return "unknown", None, s, out[:200]
    model = None
    if first == "sat" and vars and solver in ("z3", "z3-new"):
        model = parse_model(out, vars)
    return first, model, s, ""


def parse_model(out, vars):
    m = {}
    body = out.split("\n", 1)[1] if "\n" in out else ""
    for name, r in vars:
        pat = re.escape(r) if not r.startswith("|") else r"\|?" + re.escape(r.strip("|")) + r"\|?"
        k = re.search(r"\(" + pat + r"\s+((?:\((?:[^()]|\([^()]*\))*\))|[^\s()]+)\)", body)
        if not k:
            continue
        v = sval(k.group(1))
        if v is not None:
            m[name] = v
    return m


def sval(t):
    t = t.strip().replace("?", "")
    try:
        toks = re.findall(r"[()]|[^\s()]+", t)
        def ev(i):
            if toks[i] == "(":
                op = toks[i + 1]
                i += 2
                args = []
                while toks[i] != ")":
                    v, i = ev(i)
                    args.append(v)
                i += 1
                if op == "-":
                    return (-args[0] if len(args) == 1 else args[0] - args[1]), i
                if op == "/":
                    return args[0] / args[1], i
                if op == "+":
                    return sum(args), i
                if op == "*":
                    return args[0] * args[1], i
                raise ValueError
            return float(Fraction(toks[i])), i + 1
        return ev(0)[0]
    except Exception:
        return None


STRATS = {
    "quick": [("z3-new", 4), ("z3-smt", 6), ("cvc5", 10), ("z3", 10), ("cvc5-cov", 12), ("z3-new", 40), ("z3-smt", 40)],
    "thorough": [("z3-new", 4), ("z3-smt", 6), ("cvc5", 10), ("z3", 10), ("cvc5-cov", 30), ("z3-new", 120), ("cvc5", 120), ("z3-smt", 120)],
}


class Driver:
    def __init__(self, tier="quick", jobs=8, deadline=None, stop_on_fail=False):
        self.tier, self.jobs, self.deadline = tier, jobs, deadline
        # leave time for a closer look at what the first pass does not prove
        self.first_deadline = deadline and time.time() + 0.65 * (deadline - time.time())
        self.stats = {}
        self.secs = {}
        self.lock = threading.Lock()
        self.queries = 0

    def note(self, backend, secs):
        with self.lock:
            self.stats[backend] = self.stats.get(backend, 0) + 1
            self.secs[backend] = self.secs.get(backend, 0.0) + secs

    def smt(self, vc, assume, goal):
        total = 0.0
        body, vars, lin = vc.script(assume, goal)
        last = "unknown"
        # fewer axioms first: an unsat answer stands, a sat one decides nothing
        if (vc.has_circle or vc.rounded) and not lin and goal[0] in ("b", "or"):
            b2, v2, l2 = vc.script(assume, goal, ("lean",))
            for sv, t2 in (("z3-new", 2), ("z3-smt", 2), ("cvc5", 2)):
                st, model, s, detail = ask(b2, v2, sv, t2, l2)
                total += s
                if st == "unsat":
                    return "unsat", None, total, sv, ""
                if st == "sat":
                    break
        sat_model = None
        for solver, to in STRATS[self.tier]:
            if self.deadline and time.time() > self.deadline:
                return "unknown", None, total, "deadline", last
            with self.lock:
                self.queries += 1
            st, model, s, detail = ask(body, vars, solver, to, lin)
            total += s
            if st == "unsat":
                return "unsat", None, total, solver, ""
            if st == "sat":
                if model is None and solver not in ("z3", "z3-new"):
                    return "sat", {}, total, solver, ""
                return "sat", model, total, solver, ""
            last = "%s:%s %s" % (solver, st, detail.replace("\n", " ")[:120])
            # relevance filtering on the second try
            if solver == "z3-new" and to <= 5:
                fa = self.relevant(vc, assume, goal)
                if fa is not None:
                    b2, v2, l2 = vc.script(fa, goal)
                    for sv, t2 in (("z3-new", 3), ("z3-smt", 3)):
                        st, model, s, detail = ask(b2, v2, sv, t2, l2)
                        total += s
                        if st == "unsat":
                            return "unsat", None, total, sv, ""
                        if st == "sat":
                            break
        return "unknown", None, total, "", last

    def relevant(self, vc, assume, goal):
        """assumptions that mention only atoms of the goal's cone"""
        def vars_b(i, acc):
            st = [("b", i)]
            seen = set()
            while st:
                k, j = st.pop()
                if (k, j) in seen:
                    continue
                seen.add((k, j))
                if k == "b":
                    n = vc.b[j]
                    if n[0] in ("lt", "le", "eq"):
                        st += [("n", n[1]), ("n", n[2])]
                    elif n[0] == "bvar":
                        pass
                    else:
                        st += [("b", x) for x in n[1:]]
                else:
                    n = vc.nodes[j]
                    if n[0] == "var":
                        acc.add(j)
                    elif n[0] == "ite":
                        st += [("b", n[1]), ("n", n[2]), ("n", n[3])]
                    elif n[0] not in ("const", "pi"):
                        st += [("n", x) for x in n[1:] if isinstance(x, int)]
            return acc
        if goal[0] not in ("b", "or"):
            return None
        gv = set()
        for g in ([goal[1]] if goal[0] == "b" else goal[1]):
            vars_b(g, gv)
        out = [a for a in assume if vars_b(a[1] if isinstance(a, tuple) else a, set()) <= gv]
        return out if len(out) < len(assume) else None

    def prove_one(self, vc, ob):
        t0 = time.time()
        name = vc.d["contract"]
        g = vc.b[ob["goal"]]
        if g[0] == "true":
            self.note("generator", 0)
            return Result(name, ob, "proved", "generator")
        backends = []
        for assume, goal in vc.split(ob["goal"], list(ob["assume"])):
            if goal[0] == "b" and vc.b[goal[1]][0] == "true":
                continue
            asm_ids = {(a[1] if isinstance(a, tuple) else a) for a in assume}
            if goal[0] == "b" and goal[1] in asm_ids:
                backends.append("generator")
                continue
            if goal[0] == "b" and vc.b[goal[1]][0] == "eq":
                r = vc.ring(assume, goal[1])
                if r:
                    ok = True
                    if r is not True:
                        for sd in r:
                            if isinstance(sd, tuple):
                                sg = sd
                            else:
                                sg = ("nz", sd)
                            ck = (sg, tuple(sorted(asm_ids)))
                            with vc.lock:
                                cached = vc.__dict__.setdefault("sidecache", {}).get(ck)
                            if cached is None:
                                st = self.smt(vc, assume, sg)[0]
                                cached = st == "unsat"
                                with vc.lock:
                                    vc.sidecache[ck] = cached
                            if not cached:
                                ok = False
                                break
                    if ok:
                        backends.append("ring")
                        continue
            st, model, s, solver, detail = self.smt(vc, assume, goal)
            if st == "unsat":
                backends.append(solver)
                self.note(solver, s)
                continue
            self.note("failed", s)
            return Result(name, ob, "failed" if st == "sat" else "unknown", solver, time.time() - t0, model, detail)
        bk = "+".join(sorted(set(backends))) or "generator"
        if "ring" in backends:
            self.note("ring", 0)
        elif set(backends) <= {"generator"}:
            self.note("generator", 0)
        return Result(name, ob, "proved", bk, time.time() - t0)

    # ------------------------------------------------ batches, in workers ----
    def tasks(self, vc, ob):
        """SMT questions that together prove the obligation: (tasks, backends);
        None if it cannot be put that way"""
        if vc.b[ob["goal"]][0] == "true":
            return [], ["generator"]
        out, bk = [], []
        for assume, goal in vc.split(ob["goal"], list(ob["assume"])):
            asm_ids = {(a[1] if isinstance(a, tuple) else a) for a in assume}
            if goal[0] == "b" and (vc.b[goal[1]][0] == "true" or goal[1] in asm_ids):
                bk.append("generator")
                continue
            if goal[0] == "b" and vc.b[goal[1]][0] == "eq":
                r = vc.ring(assume, goal[1])
                if r:
                    bk.append("ring")
                    if r is not True:
                        out += [(assume, sd if isinstance(sd, tuple) else ("nz", sd)) for sd in r]
                    continue
            bk.append("z3-new")
            out.append((assume, goal))
        return out, bk

    def batch(self, chunk):
        """chunk: [(contract index, obligation index)] -> results, leftovers"""
        res, left = [], []
        pend = []           # (ci, oi, [script key], backends)
        scripts, keys = [], {}
        for ci, oi in chunk:
            vc = self.vcs[ci]
            ob = vc.d["obligations"][oi]
            ts, bk = self.tasks(vc, ob)
            ks = []
            for assume, goal in ts:
                key = (ci, tuple(sorted((a[1] if isinstance(a, tuple) else a) for a in assume)), repr(goal))
                if key not in keys:
                    body, _, lin = vc.script(assume, goal)
                    if (vc.has_circle or vc.rounded) and not lin and goal[0] in ("b", "or"):
                        body, _, lin = vc.script(assume, goal, ("lean",))
                    keys[key] = len(scripts)
                    scripts.append((body, lin))
                ks.append(keys[key])
            pend.append((ci, oi, ks, bk))
        ok = [False] * len(scripts)
        secs = 0.0
        if scripts:
            for lo in range(0, len(scripts), 64):
                part = scripts[lo:lo + 64]
                txt = []
                for i, (body, lin) in enumerate(part):
                    txt.append("(reset)\n(set-option :timeout 400)\n(set-logic %s)\n%s\n(echo \"@%d\")\n(check-sat)\n" % ("QF_LRA" if lin else "QF_NRA", body, lo + i))
                out, t = run(["z3-new", "-in", "-T:60"], "".join(txt), 60)
                secs += t
                self.queries += len(part)
                cur = None
                for line in out.split("\n"):
                    line = line.strip()
                    if line.startswith("@"):
                        cur = int(line[1:])
                    elif line == "unsat" and cur is not None:
                        ok[cur] = True
                        cur = None
                    elif line.startswith("(error"):
                        cur = None
        share = secs / max(1, len(scripts))
        for ci, oi, ks, bk in pend:
            if all(ok[i] for i in ks):
                b = "+".join(sorted(set(bk))) or "generator"
                self.note("z3-new" if "z3-new" in bk else "ring" if "ring" in bk else "generator", share * len(ks))
                res.append((ci, oi, "proved", b, share * len(ks), None, ""))
            else:
                left.append((ci, oi))
        return res, left

    def prove(self, dumps, progress=None, max_failed=None, max_unknown=None):
        """-> Results for every obligation tried; stops early once `max_failed`
        obligations are refuted or `max_unknown` stay open in one contract"""
        self.vcs = [VC(d) for d in dumps]
        todo = [(ci, oi) for ci, vc in enumerate(self.vcs) for oi in range(len(vc.d["obligations"]))]
        res = []

        def add(r):
            ci, oi, st, bk, secs, model, detail = r
            res.append(Result(self.vcs[ci].d["contract"], self.vcs[ci].d["obligations"][oi], st, bk, secs, model, detail))

        rest = []
        for ci, oi in todo:
            if self.vcs[ci].b[self.vcs[ci].d["obligations"][oi]["goal"]][0] == "true":
                self.note("generator", 0)
                add((ci, oi, "proved", "generator", 0.0, None, ""))
            else:
                rest.append((ci, oi))
        if not rest:
            return res
        global DRIVER
        DRIVER = self
        size = max(1, min(64, len(rest) // (self.jobs * 3) + 1))
        chunks = [rest[i:i + size] for i in range(0, len(rest), size)]
        import multiprocessing as mp
        import gc
        gc.freeze()
        left = []
        ctx = mp.get_context("fork")
        with ctx.Pool(self.jobs) as pool:
            for rs, lf, stats, secs, q in pool.imap_unordered(_batch, chunks):
                for r in rs:
                    add(r)
                left += lf
                self.merge(stats, secs, q)
        self.leftover = len(left)
        if left:
            left.sort()
            failed, open_ = {}, {}
            stop = ctx.Array("b", [0] * len(self.vcs))
            self.stop = stop
            with ctx.Pool(self.jobs) as pool:
                for r, stats, secs, q in pool.imap_unordered(_one, left):
                    self.merge(stats, secs, q)
                    if r[2] == "failed":
                        failed[r[0]] = failed.get(r[0], 0) + 1
                        if max_failed and failed[r[0]] >= max_failed:
                            stop[r[0]] = 1
                    elif r[2] == "unknown":
                        open_[r[0]] = open_.get(r[0], 0) + 1
                        if max_unknown and open_[r[0]] >= max_unknown:
                            stop[r[0]] = 1
                    add(r)
        return res

    def merge(self, stats, secs, q):
        for k, v in stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        for k, v in secs.items():
            self.secs[k] = self.secs.get(k, 0.0) + v
        self.queries += q


DRIVER = None


def _take():
    d = DRIVER
    out = (dict(d.stats), dict(d.secs), d.queries)
    d.stats.clear()
    d.secs.clear()
    d.queries = 0
    return out


def _batch(chunk):
    _take()
    if DRIVER.deadline and time.time() > DRIVER.first_deadline:
        return ([], chunk) + _take()
    rs, lf = DRIVER.batch(chunk)
    return (rs, lf) + _take()


def _one(item):
    _take()
    ci, oi = item
    d = DRIVER
    if d.stop[ci] or (d.deadline and time.time() > d.deadline):
        return ((ci, oi, "skipped", "", 0.0, None, "not attempted"),) + _take()
    vc = d.vcs[ci]
    r = d.prove_one(vc, vc.d["obligations"][oi])
    return ((ci, oi, r.status, r.backend, r.secs, r.model, r.detail),) + _take()


if __name__ == "__main__":
    import glob
    files = []
    for a in sys.argv[1:]:
        files += glob.glob(a)
    dr = Driver()
    ds = [json.load(open(f)) for f in sorted(files)]
    t = time.time()
    rs = dr.prove(ds)
    for d in ds:
        mine = [r for r in rs if r.contract == d["contract"]]
        p = sum(r.status == "proved" for r in mine)
        print("%-22s paths %4d obligations %4d %s  %.1fs %s" % (d["contract"], d["paths"], len(mine),
              "proved" if p == len(mine) else "proved %d" % p, sum(r.secs for r in mine), d["error"] or ""), flush=True)
        for r in [r for r in mine if r.status != "proved"][:6]:
            print("    %s: %s [path %d %s] %s %s %s" % (r.status, r.ob["name"], r.ob["path"], r.ob["tags"], r.backend, r.model, r.detail))
    print("%.1fs" % (time.time() - t), dr.stats, {k: round(v, 1) for k, v in dr.secs.items()}, dr.queries, "leftover", getattr(dr, "leftover", 0))
