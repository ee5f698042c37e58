"""Exact polynomial / rational-function normal forms used as the preprocessing step of the real-mode queries.

Polynomials have exact rational coefficients over symbols, modulo the relations  v^2 = rel(v)  (rel over older
symbols): cos^2 = 1 - sin^2, unit norms, and the defining equations of square roots and absolute values.  The
leading monomials of those relations are squares of distinct symbols, hence pairwise coprime, so the relations are
a Groebner basis of the ideal they generate and the normal form below decides ideal membership."""
from fractions import Fraction

SH = 16
EM = (1 << SH) - 1


class TooBig(Exception):
    pass


class Ring:
    def __init__(self, limit=40000):
        self.names = []
        self.rel = {}
        self.mask = 0
        self.limit = limit

    def var(self, name):
        self.names.append(name)
        return len(self.names) - 1

    def set_rel(self, v, p):
        self.rel[v] = p
        self.mask |= (EM - 1) << (SH * v)

    def pvar(self, v):
        return {1 << (SH * v): 1}

    def const(self, c):
        return {0: c} if c else {}

    def add(self, p, q, k=1):
        if not q:
            return p
        r = dict(p)
        for m, c in q.items():
            x = r.get(m, 0) + (c if k == 1 else c * k)
            if x:
                r[m] = x
            else:
                r.pop(m, None)
        if len(r) > self.limit:
            raise TooBig()
        return r

    def scale(self, p, k):
        if not k:
            return {}
        if k == 1:
            return p
        return {m: norm(c * k) for m, c in p.items()}

    def mul(self, p, q):
        if len(p) > len(q):
            p, q = q, p
        if not p:
            return {}
        if len(p) * len(q) > 60 * self.limit:
            raise TooBig()
        acc = {}
        get = acc.get
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = m1 + m2
                acc[m] = get(m, 0) + c1 * c2
        return self.reduce(acc)

    def reduce(self, acc):
        mask = self.mask
        out = {}
        todo = None
        for m, c in acc.items():
            if c:
                if m & mask:
                    if todo is None:
                        todo = {}
                    todo[m] = todo.get(m, 0) + c
                else:
                    out[m] = norm(out.get(m, 0) + c)
        while todo:
            m, c = todo.popitem()
            if not c:
                continue
            hit = m & mask
            # newest reducible symbol first (elimination order)
            v = (hit.bit_length() - 1) // SH
            m2 = m - (2 << (SH * v))
            for rm, rc in self.rel[v].items():
                n = m2 + rm
                if n & mask:
                    todo[n] = todo.get(n, 0) + c * rc
                else:
                    out[n] = out.get(n, 0) + c * rc
            if len(out) + len(todo) > 3 * self.limit:
                raise TooBig()
        out = {m: norm(c) for m, c in out.items() if c}
        if len(out) > self.limit:
            raise TooBig()
        return out

    def vars_of(self, p):
        s = 0
        for m in p:
            s |= m
        r = []
        v = 0
        while s:
            if s & EM:
                r.append(v)
            s >>= SH
            v += 1
        return r

    def mono(self, m):
        r = []
        v = 0
        while m:
            e = m & EM
            if e:
                r.append((v, e))
            m >>= SH
            v += 1
        return r

    def show(self, p):
        if not p:
            return '0'
        o = []
        for m, c in list(p.items())[:12]:
            o.append('*'.join([str(c)] + [self.names[v] + ('' if e == 1 else '^%d' % e) for v, e in self.mono(m)]))
        return ' + '.join(o) + (' ...' if len(p) > 12 else '')


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def key(p):
    return frozenset(p.items())
