"""Comparison atoms in polynomial normal form: quotients cleared, square roots squared away, points of the unit circle reduced.

Equivalences only (given that divisors are not zero and radicands not negative): what is proved of the normal form holds for the term."""
from fractions import Fraction
from . import expr
from .expr import R, B, Poly, topo, lift, liftb, band, bor, bnot, frac


class Norm(object):
    def __init__(self, circles=(), max_terms=4000):
        """circles: pairs (c, s) of variables with c*c + s*s = 1"""
        self.sq = {}
        for c, s in circles:
            self.sq[s.id] = Poly.const(1) - Poly.atom(c) * Poly.atom(c)
        self.max_terms = max_terms
        self.rcache, self.bcache, self.dens = {}, {}, {}

    # ---- polynomials
    def red(self, p):
        """even powers of roots, and of the sine of each pair, replaced"""
        for _ in range(60):
            hit = None
            for m in p.t:
                for a, e in m:
                    if e >= 2 and self._square(a) is not None:
                        hit = a
                        break
                if hit is not None:
                    break
            if hit is None:
                return p
            q = self._square(hit)
            cs = p.coeffs_in(hit)
            atom = Poly({((hit, 1),): Fraction(1)})
            out, pw = Poly(), Poly.const(1)
            for k, c in enumerate(cs):
                if k and k % 2 == 0:
                    pw = pw * q
                if c.t:
                    out = out + c * (pw * atom if k % 2 else pw)
            p = out
        return p

    def _square(self, aid):
        if aid in self.sq:
            return self.sq[aid]
        n = Poly.atoms[aid]
        r = None
        if n.op == 'sqrt':
            num, den = self.rat(n.args[0])
            if den.t.keys() == {()}:
                r = self.red(num * (1 / den.t[()]))
        elif n.op == 'f' and n.args[0] == 'sin':
            c = expr.fun('cos', n.args[1])
            r = Poly.const(1) - Poly.atom(c) * Poly.atom(c)
        self.sq[aid] = r
        return r

    def rat(self, root):
        """(numerator, denominator)"""
        C = self.rcache
        for n in topo([root]):
            if n.id in C or isinstance(n, B):
                continue
            op, a = n.op, n.args
            one = Poly.const(1)
            if op == 'c':
                v = (Poly.const(a[0]), one)
            elif op == '+':
                num, den = C[a[0].id]
                for x in a[1:]:
                    n2, d2 = C[x.id]
                    if d2.t == den.t:
                        num = num + n2
                    elif d2.t.keys() == {()}:
                        num = num + n2 * den * (1 / d2.t[()])
                    elif den.t.keys() == {()}:
                        num, den = num * d2 * (1 / den.t[()]) + n2, d2
                    else:
                        num, den = num * d2 + n2 * den, den * d2
                v = (self.red(num), self.red(den))
            elif op == '*':
                num, den = C[a[0].id]
                for x in a[1:]:
                    num, den = self.red(num * C[x.id][0]), self.red(den * C[x.id][1])
                v = self._cancel(num, den)
            elif op == '/':
                (n1, d1), (n2, d2) = C[a[0].id], C[a[1].id]
                if n2.t.keys() != {()}:
                    self.dens[n.id] = self.back(n2)
                v = self._cancel(self.red(n1 * d2), self.red(d1 * n2))
            elif op == 'ite':
                t = expr.ite(self(a[0]), self.term(a[1]), self.term(a[2]))
                v = (Poly.const(t.value) if t.isconst else Poly.atom(t), one)
            else:
                v = (Poly.atom(n), one)
            if len(v[0].t) > self.max_terms or len(v[1].t) > self.max_terms:
                raise expr.Unsupported('polynomial too large')
            C[n.id] = v
        return C[root.id]

    @staticmethod
    def _cancel(num, den):
        """common monomial of a one-term denominator"""
        if len(den.t) != 1 or () in den.t or not num.t:
            return num, den
        (m, c), = den.t.items()
        d = dict(m)
        for a in list(d):
            k = min([d[a]] + [dict(x).get(a, 0) for x in num.t])
            if k:
                num = Poly({tuple((b, e - (k if b == a else 0)) for b, e in x if e - (k if b == a else 0)): v for x, v in num.t.items()})
                d[a] -= k
        return num, Poly({tuple(sorted((a, e) for a, e in d.items() if e)): c})

    @staticmethod
    def back(p):
        t = []
        for m, c in p.t.items():
            x = R.const(c)
            for a, e in m:
                for _ in range(e):
                    x = expr.mul(x, Poly.atoms[a])
            t.append(x)
        return expr.add(*t) if t else R.const(0)

    def term(self, n):
        n = lift(n)
        num, den = self.rat(n)
        if den.t.keys() == {()}:
            return self.back(num * (1 / den.t[()]))
        return expr.div(self.back(num), self.back(den))

    # ---- relations with zero
    def _positive(self, den):
        if len(den.t) != 1:
            return None
        (m, c), = den.t.items()
        for a, e in m:
            if e % 2 and Poly.atoms[a].op != 'sqrt':
                return None
        return 1 if c > 0 else -1

    def rel(self, op, num, den):
        if den.t.keys() != {()} or den.t[()] != 1:
            if op == '==':
                p = num
            else:
                s = self._positive(den)
                p = num * s if s else self.red(num * den)
        else:
            p = num
        return self._zero(op, p)

    def _zero(self, op, p, depth=0):
        """p op 0"""
        if p.t.keys() <= {()}:
            v = p.t.get((), Fraction(0))
            return expr.TRUE if (v < 0 if op == '<' else v <= 0 if op == '<=' else v == 0) else expr.FALSE
        S = next((a for m in p.t for a, e in m if e == 1 and Poly.atoms[a].op == 'sqrt' and self._square(a) is not None), None)
        if S is None or depth > 3:
            x = self.back(p)
            z = R.const(0)
            return {'<': expr.lt, '<=': expr.le, '==': expr.eq}[op](x, z)
        A, Bc = (p.coeffs_in(S) + [Poly()])[:2]
        L = self._square(S)
        diff = self.red(A * A - Bc * Bc * L)
        Z = lambda o, q: self._zero(o, q, depth + 1)
        if op == '<':
            return bor(band(Z('<', A), Z('<=', Bc)), band(Z('<', A), Z('<', -diff)), band(Z('<', Bc), Z('<', diff)))
        if op == '<=':
            return bor(band(Z('<=', A), Z('<=', Bc)), band(Z('<=', A), Z('<=', -diff)), band(Z('<=', Bc), Z('<=', diff)))
        return band(Z('==', diff), bor(band(Z('<=', A), Z('<=', -Bc)), band(Z('<=', -A), Z('<=', Bc))))

    def __call__(self, b):
        b = liftb(b)
        C = self.bcache
        for n in topo([b]):
            if not isinstance(n, B) or n.id in C:
                continue
            op, a = n.op, n.args
            if op in ('<', '<=', '=='):
                d = expr.add(a[0], expr.mul(R.const(-1), a[1]))
                try:
                    v = self.rel(op, *self.rat(d))
                except expr.Unsupported:
                    v = n
            elif op == 'not':
                v = bnot(C[a[0].id])
            elif op == 'and':
                v = band(*[C[x.id] for x in a])
            elif op == 'or':
                v = bor(*[C[x.id] for x in a])
            else:
                v = n
            C[n.id] = v
        return C[b.id]

    def side(self):
        """divisors met so far are not zero"""
        z = R.const(0)
        return [bnot(self._zero('==', self.rat(d)[0])) for d in list(self.dens.values())]
