#!/usr/bin/env python3
"""Explorer of one harness: drives the rewritten binary path by path, decides branches and assertions with an SMT
solver (z3), replays every counterexample on the native binary, and prints one JSON result."""
import sys, os, json, time, subprocess, struct, random, math, argparse, tempfile
from fractions import Fraction
import numpy as np
import z3
from poly import Ring, TooBig, norm, key

np.seterr(all='ignore')
PI = math.pi


def b2f(bits, w=64):
    return struct.unpack('<d', struct.pack('<Q', bits))[0] if w == 64 else \
        float(np.uint32(bits).view(np.float32) if isinstance(bits, np.uint32) else struct.unpack('<f', struct.pack('<I', bits))[0])


def f2b(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


class Term:
    __slots__ = ('op', 'w', 'a', 'x')

    def __init__(self, op, w, a=(), x=None):
        self.op, self.w, self.a, self.x = op, w, a, x


BOOL = {'Lt', 'Le', 'Eq', 'Uno', 'One', 'IsClass'}


class Terms:
    def __init__(self):
        self.t = []
        self.vars = {}     # name -> id

    def parse(self, f):
        i = int(f[1])
        op = f[2]
        w = int(f[3])
        if op == 'Var':
            t = Term(op, w, (), (f[5], int(f[4])))
            self.vars[f[5]] = i
        elif op == 'Const':
            t = Term(op, w, (), b2f(int(f[4]), w))
        elif op == 'Rat':
            t = Term(op, w, (), Fraction(int(f[4]), int(f[5])))
        elif op == 'IsClass':
            t = Term(op, 1, (int(f[4]),), int(f[5]))
        else:
            t = Term(op, w, tuple(int(z) for z in f[4:]))
        assert i == len(self.t), (i, len(self.t))
        self.t.append(t)

    def depvars(self, ids):
        seen = set()
        st = list(ids)
        out = set()
        while st:
            i = st.pop()
            if i in seen:
                continue
            seen.add(i)
            if self.t[i].op == 'Var':
                out.add(i)
            st.extend(self.t[i].a)
        return out


# ---------------------------------------------------------------------------------------------- concrete samples
class Samples:
    """Concrete evaluation of all terms on a pool of points (numpy, machine arithmetic).  Used to find satisfiable
    branch sides and counterexample candidates quickly; never to conclude that something holds."""

    def __init__(self, terms, mode, seed, n):
        self.T = terms
        self.mode = mode
        self.rng = np.random.default_rng(seed)
        self.n0 = n
        self.extra = []       # list of {name: value}
        self.cache = {}
        self.base = {}
        self.units = []
        self.pools = self.rng.choice(np.array([0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 0.25, 1.5, -1.5, 3.0]), (n, 4))
        if mode == 'fp':
            sp = np.array([0.0, -0.0, 1.0, -1.0, np.inf, -np.inf, np.nan, 5e-324, -5e-324, 1.7976931348623157e308,
                           0.1, 0.3, -0.7, 1e-3, 3.14, 2.0, 1e300, 2.2250738585072014e-308])
            self.pools = self.rng.choice(sp, (n, 4))

    @property
    def n(self):
        return self.n0 + len(self.extra)

    def basevals(self, i):
        t = self.T.t[i]
        if i not in self.base:
            name, kind = t.x
            r = self.rng
            n = self.n0
            if self.mode == 'fp':
                v = np.where(r.random(n) < 0.75, self.pools[np.arange(n), r.integers(0, 4, n)], r.normal(0, 2, n))
            elif kind == 1:
                v = np.where(r.random(n) < 0.2, r.choice(np.array([0.0, 0.5, -0.5, 1.0, 2.0]), n), r.uniform(-3, 3, n))
                # more than a turn, too
                v = np.where(r.random(n) < 0.15, r.uniform(-40, 40, n), v)
            else:
                nice = self.pools[np.arange(n), r.integers(0, 4, n)]
                v = np.where(r.random(n) < 0.25, nice, np.round(r.normal(0, 1.2, n) * 64) / 64)
                if n > 40:
                    v[:8] = np.round(r.uniform(0.2, 2, 8) * 16) / 16
            if t.w == 32:
                v = v.astype(np.float32).astype(np.float64)
            self.base[i] = v
            for u in self.units:
                self.apply_unit(u)
        return self.base[i]

    def unit(self, ids):
        ids = tuple(ids)
        if ids in self.units:
            return
        for i in ids:
            self.basevals(i)
        self.units.append(ids)
        self.apply_unit(ids)
        self.cache.clear()

    def apply_unit(self, ids):
        if any(i not in self.base for i in ids):
            return
        m = np.array([self.base[i] for i in ids])
        nn = np.sqrt((m * m).sum(0))
        bad = nn < 1e-9
        m[0][bad] = 1.0
        nn = np.sqrt((m * m).sum(0))
        # some axis-aligned points
        k = self.n0 // 4
        for s in range(k):
            m[:, s] = 0
            m[s % len(ids), s] = 1.0
            nn[s] = 1.0
        for j, i in enumerate(ids):
            self.base[i] = m[j] / nn

    def add(self, model):
        self.extra.append(model)
        self.cache.clear()

    def val(self, i):
        st = [i]
        c = self.cache
        T = self.T.t
        while st:
            j = st[-1]
            if j in c:
                st.pop()
                continue
            todo = [k for k in T[j].a if k not in c]
            if todo:
                st.extend(todo)
                continue
            c[j] = self.ev(j)
            st.pop()
        return c[i]

    def ev(self, j):
        t = self.T.t[j]
        op = t.op
        c = self.cache
        if op == 'Var':
            v = self.basevals(j)
            if self.extra:
                v = np.concatenate([v, [e.get(t.x[0], default_input(t.x[0])) for e in self.extra]])
            return v.astype(np.float32) if t.w == 32 and self.mode == 'fp' else v
        if op == 'Const':
            return np.full(self.n, t.x, dtype=np.float32 if (t.w == 32 and self.mode == 'fp') else np.float64)
        if op == 'Rat':
            return np.full(self.n, float(t.x))
        a = [c[k] for k in t.a]
        if op == 'Lt':
            return a[0] < a[1]
        if op == 'Le':
            return a[0] <= a[1]
        if op == 'Eq':
            return a[0] == a[1]
        if op == 'Uno':
            return np.isnan(a[0]) | np.isnan(a[1])
        if op == 'One':
            return (a[0] < a[1]) | (a[0] > a[1])
        if op == 'IsClass':
            x = a[0]
            m = t.x
            tiny = np.finfo(x.dtype).tiny
            neg = np.signbit(x)
            nan, inf, zero = np.isnan(x), np.isinf(x), x == 0
            sub = (np.abs(x) < tiny) & ~zero & ~nan
            nor = ~(nan | inf | zero | sub)
            r = np.zeros(self.n, bool)
            for bit, cond in ((1, nan), (2, inf & neg), (3, nor & neg), (4, sub & neg), (5, zero & neg),
                              (6, zero & ~neg), (7, sub & ~neg), (8, nor & ~neg), (9, inf & ~neg)):
                if m >> bit & 1:
                    r |= cond
            return r
        f = {'Add': np.add, 'Sub': np.subtract, 'Mul': np.multiply, 'Div': np.divide, 'Rem': np.fmod,
             'Neg': np.negative, 'Abs': np.abs, 'Sqrt': np.sqrt, 'Sin': np.sin, 'Cos': np.cos, 'Tan': np.tan,
             'Asin': np.arcsin, 'Acos': np.arccos, 'Atan': np.arctan, 'Atan2': np.arctan2, 'Sinh': np.sinh,
             'Cosh': np.cosh, 'Tanh': np.tanh, 'Exp': np.exp, 'Exp2': np.exp2, 'Expm1': np.expm1, 'Ln': np.log,
             'Log2': np.log2, 'Log10': np.log10, 'Log1p': np.log1p, 'Pow': np.power, 'Cbrt': np.cbrt,
             'Hypot': np.hypot, 'MinNum': np.fmin, 'MaxNum': np.fmax, 'Minimum': np.minimum, 'Maximum': np.maximum,
             'Copysign': np.copysign, 'Floor': np.floor, 'Ceil': np.ceil, 'Trunc': np.trunc, 'RoundEven': np.rint,
             'Round': lambda x: np.copysign(np.floor(np.abs(x) + 0.5), x)}.get(op)
        if f:
            return f(*a)
        if op == 'Fma':
            return a[0] * a[1] + a[2]
        if op == 'To32':
            return a[0].astype(np.float32) if self.mode == 'fp' else a[0]
        if op == 'To64':
            return a[0].astype(np.float64)
        raise Exception('eval ' + op)

    def model(self, k, T):
        m = {}
        for name, i in T.vars.items():
            if k < self.n0:
                m[name] = float(self.basevals(i)[k])
            else:
                m[name] = self.extra[k - self.n0].get(name, default_input(name))
        return m


def default_input(name):
    return 0.37 + 0.11 * (sum(name.encode()) % 7)


# ---------------------------------------------------------------------------------------------- exact real backend
class Real:
    def __init__(self, terms, samples, stats):
        self.T = terms
        self.S = samples
        self.stats = stats
        self.R = Ring()
        self.sym = {}
        self.info = {}      # ring var -> (kind, data)
        self.factors = []
        self.fkey = {}
        self.memo = {}
        self.zv = {}
        self.units = set()
        self.dead = {}
        self.shapes = {}

    def symbol(self, k, name, kind, data=None):
        if k in self.sym:
            return self.sym[k]
        v = self.R.var(name)
        self.sym[k] = v
        self.info[v] = (kind, data)
        return v

    def unit(self, ids):
        ids = tuple(ids)
        if ids in self.units:
            return
        self.units.add(ids)
        vs = [self.symbol(('V', i), self.T.t[i].x[0], 'V', i) for i in ids]
        last = max(vs)
        p = {0: 1}
        for v in vs:
            if v != last:
                p = self.R.add(p, {2 << (16 * v): 1}, -1)
        if last in self.R.rel:
            raise Exception('unit assumption on a symbol with a relation')
        self.R.set_rel(last, p)
        self.memo.clear()
        self.shapes.clear()

    # -- rational functions: (num, ((factor index, exponent), ...))
    def fac(self, p):
        k = key(p)
        if k not in self.fkey:
            self.fkey[k] = len(self.factors)
            self.factors.append(p)
        return self.fkey[k]

    def pw(self, f, e):
        r = {0: 1}
        for _ in range(e):
            r = self.R.mul(r, self.factors[f])
        return r

    def radd(self, x, y, k=1):
        (n1, d1), (n2, d2) = x, y
        if d1 == d2:
            return self.cancel(self.R.add(n1, n2, k), d1)
        a, b = dict(d1), dict(d2)
        L = dict(a)
        for f, e in b.items():
            L[f] = max(L.get(f, 0), e)
        for f, e in L.items():
            if e - a.get(f, 0):
                n1 = self.R.mul(n1, self.pw(f, e - a.get(f, 0)))
            if e - b.get(f, 0):
                n2 = self.R.mul(n2, self.pw(f, e - b.get(f, 0)))
        return self.cancel(self.R.add(n1, n2, k), tuple(sorted(L.items())))

    def rmul(self, x, y):
        (n1, d1), (n2, d2) = x, y
        d = dict(d1)
        for f, e in d2:
            d[f] = d.get(f, 0) + e
        return self.cancel(self.R.mul(n1, n2), tuple(sorted(d.items())))

    def rdiv(self, x, y):
        (n1, d1), (n2, d2) = x, y
        if not n2:
            return None
        if len(n2) == 1:
            (m, c), = n2.items()
            n = self.R.scale(n1, Fraction(1) / c)
            d = dict(d1)
            for v, e in self.R.mono(m):
                f = self.fac(self.R.pvar(v))
                d[f] = d.get(f, 0) + e
        else:
            # make the factor monic in its largest monomial
            lead = n2[max(n2)]
            n = self.R.scale(n1, Fraction(1) / lead)
            f = self.fac(self.R.scale(n2, Fraction(1) / lead))
            d = dict(d1)
            d[f] = d.get(f, 0) + 1
        for f, e in d2:
            k = min(e, d.get(f, 0))
            if k:
                d[f] -= k
                e -= k
            if e:
                n = self.R.mul(n, self.pw(f, e))
        return self.cancel(n, tuple(sorted((f, e) for f, e in d.items() if e)))

    def cancel(self, n, d):
        if not n:
            return ({}, ())
        if not d:
            return (n, d)
        out = []
        for f, e in d:
            p = self.factors[f]
            if len(p) == 1:
                (m, c), = p.items()
                v = self.R.mono(m)[0][0]
                # relation symbols: v^2 in the denominator is a known polynomial
                if v in self.R.rel and e >= 2:
                    rel = self.R.rel[v]
                    k = e // 2
                    e -= 2 * k
                    if len(rel) == 1 and 0 in rel:
                        n = self.R.scale(n, Fraction(1) / (rel[0] ** k))
                    else:
                        lead = rel[max(rel)]
                        n = self.R.scale(n, Fraction(1) / lead ** k)
                        g = self.fac(self.R.scale(rel, Fraction(1) / lead))
                        out.append((g, k))
                sh = 16 * v
                while e and all((mm >> sh) & 0xFFFF for mm in n):
                    n = {mm - (1 << sh): c for mm, c in n.items()}
                    e -= 1
            else:
                while e and len(n) == len(p):
                    l1, l2 = max(n), max(p)
                    r = Fraction(n[l1]) / p[l2]
                    if self.R.scale(p, norm(r)) == n:
                        n = {0: norm(r)}
                        e -= 1
                    else:
                        break
            if e:
                out.append((f, e))
        if len(out) > 1:
            d2 = {}
            for f, e in out:
                d2[f] = d2.get(f, 0) + e
            out = sorted(d2.items())
        return (n, tuple(out))

    def one(self, c):
        return (self.R.const(norm(Fraction(c))), ())

    def svar(self, v):
        return (self.R.pvar(v), ())

    def poly_abs(self, p):
        """nf of |p| for a polynomial p"""
        if not p:
            return ({}, ())
        s = self.sign(p)
        if s in ('>0', '>=0'):
            return (p, ())
        if s in ('<0', '<=0'):
            return (self.R.scale(p, -1), ())
        if len(p) == 1:
            (m, c), = p.items()
            r = self.one(abs(c))
            for v, e in self.R.mono(m):
                q = self.R.pvar(v)
                if self.info[v][0] in ('R', 'A'):
                    a = q
                else:
                    k = ('A', key(q))
                    av = self.symbol(k, '|%s|' % self.R.names[v], 'A', q)
                    if av not in self.R.rel:
                        self.R.set_rel(av, self.R.mul(q, q))
                    a = self.R.pvar(av)
                for _ in range(e):
                    r = self.rmul(r, (a, ()))
            return r
        if p[max(p)] < 0:
            p = self.R.scale(p, -1)
        k = ('A', key(p))
        av = self.symbol(k, '|p%d|' % len(self.sym), 'A', p)
        if av not in self.R.rel:
            self.R.set_rel(av, self.R.mul(p, p))
        return self.svar(av)

    def poly_sqrt(self, N):
        if not N:
            return ({}, ())
        if len(N) == 1:
            (m, c), = N.items()
            mono = self.R.mono(m)
            rc = fsqrt(c)
            if rc is not None and all(e % 2 == 0 for _, e in mono):
                r = self.one(rc)
                for v, e in mono:
                    a = self.poly_abs(self.R.pvar(v))
                    for _ in range(e // 2):
                        r = self.rmul(r, a)
                return r
        g = content(N)
        rg = fsqrt(g)
        r = self.one(1)
        if rg is not None and rg != 1:
            r = self.one(rg)
            N = self.R.scale(N, Fraction(1) / g)
        k = ('R', key(N))
        v = self.symbol(k, 'sqrt%d' % len(self.sym), 'R', N)
        if v not in self.R.rel:
            self.R.set_rel(v, N)
        return self.rmul(r, self.svar(v))

    def rsqrt(self, x):
        n, d = x
        r = self.one(1)
        for f, e in d:
            h = (e + 1) // 2
            if e % 2:
                n = self.R.mul(n, self.factors[f])
            a = self.poly_abs(self.factors[f])
            for _ in range(h):
                r = self.rmul(r, a)
        q = self.poly_sqrt(n)
        return self.rdiv(q, r)

    def trig(self, x):
        """(sin, cos) of an affine argument"""
        n, d = x
        if d:
            return self.opaque_trig(x)
        s, c = self.one(0), self.one(1)
        for m, k in n.items():
            if m == 0:
                kk = float(k) / (PI / 2)
                if abs(kk - round(kk)) < 1e-12 and abs(kk) < 1e6:
                    q = round(kk) % 4
                    bs, bc = [(0, 1), (1, 0), (0, -1), (-1, 0)][q]
                    b = (self.one(bs), self.one(bc))
                else:
                    vs = self.symbol(('CS', k), 'sin(%s)' % float(k), 'K', math.sin(float(k)))
                    vc = self.symbol(('CC', k), 'cos(%s)' % float(k), 'K', math.cos(float(k)))
                    if vc not in self.R.rel:
                        self.R.set_rel(vc, {0: 1, 2 << (16 * vs): -1})
                    b = (self.svar(vs), self.svar(vc))
                mult = 1
            else:
                mono = self.R.mono(m)
                kind, data = self.info[mono[0][0]] if len(mono) == 1 and mono[0][1] == 1 else (None, None)
                if kind == 'O' and data[0] in ('Atan2', 'Acos', 'Asin', 'Atan') and Fraction(k).denominator == 1:
                    mult = int(k)
                    b = self.inv_trig(data)
                    if b is None:
                        return self.opaque_trig(x)
                else:
                    mult = Fraction(k) * 2
                    if mult.denominator != 1:
                        # finer than half angles: use the monomial scaled as its own base
                        den = mult.denominator
                        mult = mult.numerator
                        base = ('H', m, den)
                    else:
                        mult = int(mult)
                        base = ('H', m, 1)
                    nm = '*'.join(self.R.names[v] for v, _ in mono) + ('' if base[2] == 1 else '/%d' % base[2])
                    vs = self.symbol(base + ('s',), 'sin(%s/2)' % nm, 'HS', (m, base[2]))
                    vc = self.symbol(base + ('c',), 'cos(%s/2)' % nm, 'HC', (m, base[2]))
                    if vc not in self.R.rel:
                        self.R.set_rel(vc, {0: 1, 2 << (16 * vs): -1})
                    b = (self.svar(vs), self.svar(vc))
            if abs(mult) > 64:
                return self.opaque_trig(x)
            if mult < 0:
                b = (self.rmul(b[0], self.one(-1)), b[1])
                mult = -mult
            for _ in range(mult):
                s, c = self.radd(self.rmul(s, b[1]), self.rmul(c, b[0])), \
                    self.radd(self.rmul(c, b[1]), self.rmul(s, b[0]), -1)
        return s, c

    def opaque_trig(self, x):
        k = self.rkey(x)
        vs = self.symbol(('OS', k), 'sin(#%d)' % len(self.sym), 'O', ('Sin', x))
        vc = self.symbol(('OC', k), 'cos(#%d)' % len(self.sym), 'O', ('Cos', x))
        if vc not in self.R.rel:
            self.R.set_rel(vc, {0: 1, 2 << (16 * vs): -1})
        return self.svar(vs), self.svar(vc)

    def inv_trig(self, data):
        op = data[0]
        if op == 'Atan2':
            y, x = data[1], data[2]
        elif op == 'Atan':
            y, x = data[1], self.one(1)
        elif op == 'Asin':
            y = data[1]
            return y, self.rsqrt(self.radd(self.one(1), self.rmul(y, y), -1))
        else:
            x = data[1]
            return self.rsqrt(self.radd(self.one(1), self.rmul(x, x), -1)), x
        h = self.rsqrt(self.radd(self.rmul(x, x), self.rmul(y, y)))
        if not h[0]:
            return None
        return self.rdiv(y, h), self.rdiv(x, h)

    def rkey(self, x):
        return (key(x[0]), x[1])

    def nf(self, i):
        st = [i]
        T = self.T.t
        memo = self.memo
        while st:
            j = st[-1]
            if j in memo:
                st.pop()
                continue
            todo = [k for k in T[j].a if k not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[j] = self.nf1(j)
            st.pop()
        r = memo[i]
        if r is None:
            raise TooBig()
        return r

    def nf1(self, j):
        t = self.T.t[j]
        op = t.op
        if op == 'Var':
            return self.svar(self.symbol(('V', j), t.x[0], 'V', j))
        if op == 'Const':
            if not math.isfinite(t.x):
                return None
            return self.one(Fraction(t.x))
        if op == 'Rat':
            return self.one(t.x)
        a = [self.memo[k] for k in t.a]
        if any(x is None for x in a):
            return None
        try:
            if op == 'Add':
                return self.radd(a[0], a[1])
            if op == 'Sub':
                return self.radd(a[0], a[1], -1)
            if op == 'Mul':
                return self.rmul(a[0], a[1])
            if op == 'Div':
                return self.rdiv(a[0], a[1])
            if op == 'Neg':
                return (self.R.scale(a[0][0], -1), a[0][1])
            if op in ('To32', 'To64'):
                return a[0]
            if op == 'Sqrt':
                return self.rsqrt(a[0])
            if op == 'Abs':
                r = self.poly_abs(a[0][0])
                for f, e in a[0][1]:
                    q = self.poly_abs(self.factors[f])
                    for _ in range(e):
                        r = self.rdiv(r, q)
                return r
            if op == 'Hypot':
                return self.rsqrt(self.radd(self.rmul(a[0], a[0]), self.rmul(a[1], a[1])))
            if op == 'Sin':
                return self.trig(a[0])[0]
            if op == 'Cos':
                return self.trig(a[0])[1]
            if op == 'Tan':
                s, c = self.trig(a[0])
                return self.rdiv(s, c)
            k = ('O', op) + tuple(self.rkey(x) for x in a)
            return self.svar(self.symbol(k, '%s#%d' % (op, len(self.sym)), 'O', (op,) + tuple(a)))
        except TooBig:
            self.stats['nf_too_big'] = self.stats.get('nf_too_big', 0) + 1
            return None

    def sign(self, p):
        """cheap sign information of a polynomial"""
        if not p:
            return '0'
        if len(p) == 1 and 0 in p:
            return '>0' if p[0] > 0 else '<0'
        pos = neg = False
        strict = False
        for m, c in p.items():
            if m == 0:
                strict = True
            for v, e in self.R.mono(m):
                if e % 2 and self.info[v][0] not in ('R', 'A'):
                    return '?'
            if c > 0:
                pos = True
            else:
                neg = True
        if pos and neg:
            return '?'
        return ('>' if pos else '<') + ('0' if strict else '=0')

    def diffnum(self, t):
        """numerator with the sign of a - b (for an equality: the bare numerator)"""
        n, d = self.radd(self.nf(t.a[0]), self.nf(t.a[1]), -1)
        if t.op == 'Eq':
            return n
        for f, e in d:
            if e % 2:
                s = self.sign(self.factors[f])
                if s in ('>0', '>=0'):
                    continue
                if s in ('<0', '<=0'):
                    n = self.R.scale(n, -1)
                else:
                    n = self.R.mul(n, self.factors[f])
        return n

    def static(self, i):
        t = self.T.t[i]
        try:
            p = self.diffnum(t)
        except TooBig:
            return None
        s = self.sign(p)
        if t.op == 'Lt':
            return {'0': False, '>0': False, '>=0': False, '<0': True}.get(s)
        return {'0': True, '>0': False, '<0': False}.get(s)

    def shape(self, i):
        """(key, scale, constant): the atom compares scale * key + constant with 0"""
        if i not in self.shapes:
            r = None
            t = self.T.t[i]
            try:
                p = self.diffnum(t)
                while t.op == 'Eq' and len(p) == 1:
                    # a root or absolute value is zero exactly when its argument is
                    mono = self.R.mono(next(iter(p)))
                    if len(mono) != 1 or self.info[mono[0][0]][0] not in ('R', 'A') or not self.info[mono[0][0]][1]:
                        break
                    p = self.info[mono[0][0]][1]
                c = p.get(0, 0)
                rest = [(m, x) for m, x in p.items() if m]
                if rest:
                    k = min(rest)[1]
                    if any(isinstance(x, float) for x in p.values()):
                        raise TooBig
                    k = Fraction(k)
                    r = (frozenset((m, norm(x / k)) for m, x in rest), k, c)
            except TooBig:
                pass
            self.shapes[i] = r
        return self.shapes[i]

    def implied(self, pc, i):
        """truth of atom i when an interval of its polynomial known from the path condition decides it"""
        sh = self.shape(i)
        if sh is None:
            return None
        key, k, c = sh
        lo, los, hi, his, ne = None, False, None, False, set()
        for j, v in pc:
            s2 = self.shape(j)
            if s2 is None or s2[0] != key:
                continue
            # k2 * X + c2  op  0
            b = -s2[2] / s2[1]
            if self.T.t[j].op == 'Lt':
                up = (s2[1] > 0) == v
                if up:
                    if hi is None or (b, not v) < (hi, not his):
                        hi, his = b, v
                elif lo is None or (b, v) > (lo, los):
                    lo, los = b, v
            elif v:
                lo = hi = b
                los = his = False
            else:
                ne.add(b)
        x = -c / k
        below = hi is not None and (hi < x or hi == x and his)      # X < x certainly
        above = lo is not None and (lo > x or lo == x and los)
        atmost = hi is not None and hi <= x
        atleast = lo is not None and lo >= x
        if x in ne:
            below, above = below or atmost, above or atleast
        if self.T.t[i].op == 'Lt':
            t, f = (below, atleast) if k > 0 else (above, atmost)
        else:
            t, f = lo is not None and lo == hi == x, below or above or x in ne
        return True if t else False if f else None

    # -- z3
    def zpoly(self, p, cs):
        tot = []
        for m, c in p.items():
            f = [z3.Q(c.numerator, c.denominator) if isinstance(c, Fraction) else z3.RealVal(c)]
            if f[0].as_fraction() == 1 and m:
                f = []
            for v, e in self.R.mono(m):
                x = self.z(v, cs)
                f += [x] * e
            tot.append(z3.Product(f) if len(f) > 1 else f[0])
        return z3.Sum(tot) if len(tot) > 1 else (tot[0] if tot else z3.RealVal(0))

    def z(self, v, cs):
        if v not in self.zv:
            self.zv[v] = z3.Real('v%d' % v)
        x = self.zv[v]
        if v not in cs:
            cs[v] = None
            con = []
            kind, data = self.info[v]
            if kind == 'A' and len(data) > 1:
                e = self.zpoly(data, cs)
                con.append(z3.Or(x == e, x == -e))
            elif v in self.R.rel:
                con.append(x * x == self.zpoly(self.R.rel[v], cs))
            if kind in ('R', 'A'):
                con.append(x >= 0)
            if kind in ('HC', 'HS'):
                con += [x <= 1, x >= -1]
            if kind == 'K':
                q = Fraction(data)
                con += [x <= z3.Q(*(q + Fraction(1, 10**15)).as_integer_ratio()), x >= z3.Q(*(q - Fraction(1, 10**15)).as_integer_ratio())]
            if kind == 'O':
                op = data[0]
                if op in ('Sin', 'Cos'):
                    con += [x <= 1, x >= -1]
                if op in ('Atan2', 'Atan', 'Asin', 'Acos'):
                    con += [x <= z3.RealVal('3.1415926535897936'), x >= z3.RealVal('-3.1415926535897936')]
                if op == 'Acos':
                    con += [x >= 0]
            cs[v] = con
        return x

    def zbool(self, i, val, cs):
        t = self.T.t[i]
        p = self.diffnum(t)
        e = self.zpoly(p, cs)
        if t.op == 'Lt':
            return e < 0 if val else e >= 0
        return e == 0 if val else e != 0

    def solve(self, pc, extra, timeout_ms):
        """pc: list of (bool term, value); extra: list of callables cs -> z3 constraint."""
        t0 = time.time()
        cs = {}
        goal = []
        try:
            main = [f(cs) for f in extra]
            rest = []
            for i, v in pc:
                c2 = {}
                try:
                    e = self.zbool(i, v, c2)
                except TooBig:
                    self.stats['pc_dropped'] = self.stats.get('pc_dropped', 0) + 1
                    continue
                rest.append((e, c2))
            if main:
                # cone of influence
                live = set(cs)
                ch = True
                picked = [False] * len(rest)
                while ch:
                    ch = False
                    for k, (e, c2) in enumerate(rest):
                        if not picked[k] and (not c2 or live & set(c2)):
                            picked[k] = True
                            if set(c2) - live:
                                live |= set(c2)
                            ch = True
                rest = [r for k, r in enumerate(rest) if picked[k]]
            for e, c2 in rest:
                goal.append(e)
                cs.update(c2)
            goal += main
        except TooBig:
            return 'unknown', None
        for con in cs.values():
            goal += con
        res = 'unknown'
        mod = None
        for tac in (None, 'cvc5', 'qfnra-nlsat'):
            if tac == 'cvc5':
                if timeout_ms >= 1000 and self.cvc5(goal, min(timeout_ms, 3000)):
                    res = 'unsat'
                    self.stats['q_cvc5'] = self.stats.get('q_cvc5', 0) + 1
                    break
                continue
            s = z3.Solver() if tac is None else z3.Tactic(tac).solver()
            s.set('timeout', int(timeout_ms if tac else min(timeout_ms, 1500)))
            s.add(goal)
            r = s.check()
            if r == z3.sat:
                res = 'sat'
                mod = self.extract(s.model())
                break
            if r == z3.unsat:
                res = 'unsat'
                break
        self.stats['queries'] += 1
        self.stats['q_' + res] = self.stats.get('q_' + res, 0) + 1
        self.stats['solver_s'] += time.time() - t0
        return res, mod

    def cvc5(self, goal, ms):
        """second opinion on a query z3 did not decide: True if unsat"""
        s = z3.Solver()
        s.add(goal)
        try:
            r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % ms], input='(set-logic QF_NRA)\n' + s.to_smt2(),
                               capture_output=True, text=True, timeout=ms / 1000 + 5)
            return r.stdout.strip() == 'unsat'
        except (OSError, subprocess.TimeoutExpired):
            return False

    def extract(self, m):
        vals = {}

        def num(x):
            if x is None:
                return None
            if z3.is_algebraic_value(x):
                x = x.approx(20)
            if z3.is_rational_value(x):
                return float(x.as_fraction())
            return None
        half = {}
        for v, zx in self.zv.items():
            kind, data = self.info[v]
            x = num(m.eval(zx, model_completion=False))
            if x is None:
                continue
            if kind == 'V':
                vals.setdefault(self.T.t[data].x[0], x)
            elif kind in ('HS', 'HC'):
                half.setdefault(data, {})[kind] = x
        for (mm, den), d in half.items():
            mono = self.R.mono(mm)
            if len(mono) == 1 and mono[0][1] == 1 and 'HS' in d and 'HC' in d:
                kind, data = self.info[mono[0][0]]
                if kind == 'V':
                    vals[self.T.t[data].x[0]] = 2 * den * math.atan2(d['HS'], d['HC'])
        return vals

    # -- queries used by the explorer
    def feasible(self, pc, i, val, timeout):
        return self.solve(pc, [lambda cs: self.zbool(i, val, cs)] if i is not None else [], timeout)

    def equal(self, pc, a, b, timeout):
        """-> ('valid'|'rounding'|'sat'|'unknown', model)"""
        if a == b:
            self.stats['eq_identical'] = self.stats.get('eq_identical', 0) + 1
            return 'valid', None
        t0 = time.time()
        try:
            x, y = self.nf(a), self.nf(b)
            n, d = self.radd(x, y, -1)
        except TooBig:
            self.stats['solver_s'] += time.time() - t0
            return 'unknown', None
        self.stats['solver_s'] += time.time() - t0
        if n and max(abs(float(c)) for c in n.values()) <= 1e-9:
            self.stats['eq_rounding'] = self.stats.get('eq_rounding', 0) + 1
            return 'valid', None
        if not n:
            # residual is the zero polynomial: hand the closed query to the solver
            self.stats['eq_normal_form'] = self.stats.get('eq_normal_form', 0) + 1
            r, m = self.solve([], [lambda cs: self.zpoly(n, cs) != 0], timeout)
            return ('valid' if r == 'unsat' else 'unknown'), None
        r, m = self.solve(pc, [lambda cs: self.zpoly(n, cs) != 0], timeout)
        if r == 'unsat':
            self.stats['eq_solver'] = self.stats.get('eq_solver', 0) + 1
            return 'valid', None
        return r, m

    def violates(self, a, b):
        x, y = self.S.val(a), self.S.val(b)
        with np.errstate(all='ignore'):
            d = np.abs(x - y) > 1e-6 * (1 + np.abs(x) + np.abs(y))
        return d & np.isfinite(x) & np.isfinite(y)


def fsqrt(c):
    c = Fraction(c)
    if c < 0:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return norm(Fraction(a, b))
    return None


def content(p):
    n, d = 0, 1
    for c in p.values():
        c = Fraction(c)
        n = math.gcd(n, abs(c.numerator))
        d = d * c.denominator // math.gcd(d, c.denominator)
    return Fraction(n, d)


# ---------------------------------------------------------------------------------------------- IEEE backend
class Fp:
    """Bit-precise QF_FP encoding.  Heavy arithmetic is first abstracted to fresh values (same operands, same
    value); only when that abstraction admits a candidate that does not evaluate, the precise query is asked."""
    HEAVY = {'Mul', 'Div', 'Sqrt', 'Fma', 'Add', 'Sub'}

    def __init__(self, terms, samples, stats):
        self.T = terms
        self.S = samples
        self.stats = stats
        self.memo = {True: {}, False: {}}
        self.units = []

    def unit(self, ids):
        raise Exception('unit assumption in fp mode')

    def static(self, i):
        return None

    def sort(self, w):
        return z3.Float64() if w == 64 else z3.Float32()

    def z(self, i, precise):
        memo = self.memo[precise]
        st = [i]
        while st:
            j = st[-1]
            if j in memo:
                st.pop()
                continue
            todo = [k for k in self.T.t[j].a if k not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[j] = self.z1(j, memo, precise)
            st.pop()
        return memo[i]

    def z1(self, j, memo, precise):
        t = self.T.t[j]
        op = t.op
        rm = z3.RNE()
        if op == 'Var':
            return z3.FP('x%d' % j, self.sort(t.w))
        if op == 'Const':
            s = self.sort(t.w)
            if math.isnan(t.x):
                return z3.fpNaN(s)
            if math.isinf(t.x):
                return z3.fpPlusInfinity(s) if t.x > 0 else z3.fpMinusInfinity(s)
            if t.x == 0:
                return z3.fpMinusZero(s) if math.copysign(1, t.x) < 0 else z3.fpPlusZero(s)
            return z3.FPVal(t.x, s)
        if op == 'Rat':
            return z3.FPVal(float(t.x), self.sort(t.w))
        a = [memo[k] for k in t.a]
        if op == 'Lt':
            return z3.fpLT(a[0], a[1])
        if op == 'Le':
            return z3.fpLEQ(a[0], a[1])
        if op == 'Eq':
            return z3.fpEQ(a[0], a[1])
        if op == 'Uno':
            return z3.Or(z3.fpIsNaN(a[0]), z3.fpIsNaN(a[1]))
        if op == 'One':
            return z3.Or(z3.fpLT(a[0], a[1]), z3.fpGT(a[0], a[1]))
        if op == 'IsClass':
            x = a[0]
            m = t.x
            neg = z3.fpIsNegative(x)
            pos = z3.fpIsPositive(x)
            o = []
            for bit, c in ((1, z3.fpIsNaN(x)), (2, z3.And(z3.fpIsInf(x), neg)), (3, z3.And(z3.fpIsNormal(x), neg)),
                           (4, z3.And(z3.fpIsSubnormal(x), neg)), (5, z3.And(z3.fpIsZero(x), neg)),
                           (6, z3.And(z3.fpIsZero(x), pos)), (7, z3.And(z3.fpIsSubnormal(x), pos)),
                           (8, z3.And(z3.fpIsNormal(x), pos)), (9, z3.And(z3.fpIsInf(x), pos))):
                if m >> bit & 1:
                    o.append(c)
            return z3.Or(o)
        if op == 'Neg':
            return z3.fpNeg(a[0])
        if op == 'Abs':
            return z3.fpAbs(a[0])
        if op in ('MinNum', 'Minimum'):
            return z3.fpMin(a[0], a[1])
        if op in ('MaxNum', 'Maximum'):
            return z3.fpMax(a[0], a[1])
        if op == 'To64':
            return z3.fpFPToFP(rm, a[0], z3.Float64())
        if op == 'To32':
            return z3.fpFPToFP(rm, a[0], z3.Float32())
        if op == 'Copysign':
            return z3.If(z3.fpIsNegative(a[1]) == z3.fpIsNegative(a[0]), a[0], z3.fpNeg(a[0]))
        rnd = {'Floor': z3.RTN(), 'Ceil': z3.RTP(), 'Trunc': z3.RTZ(), 'RoundEven': z3.RNE(), 'Round': z3.RNA()}.get(op)
        if rnd is not None:
            return z3.fpRoundToIntegral(rnd, a[0])
        if op in self.HEAVY and precise:
            return {'Add': lambda: z3.fpAdd(rm, a[0], a[1]), 'Sub': lambda: z3.fpSub(rm, a[0], a[1]),
                    'Mul': lambda: z3.fpMul(rm, a[0], a[1]), 'Div': lambda: z3.fpDiv(rm, a[0], a[1]),
                    'Sqrt': lambda: z3.fpSqrt(rm, a[0]), 'Fma': lambda: z3.fpFMA(rm, a[0], a[1], a[2])}[op]()
        return z3.FP('t%d' % j, self.sort(t.w))

    def heavy_in(self, ids):
        st = list(ids)
        seen = set()
        while st:
            i = st.pop()
            if i in seen:
                continue
            seen.add(i)
            if self.T.t[i].op in self.HEAVY:
                return True
            st.extend(self.T.t[i].a)
        return False

    def solve(self, pc, extra, timeout_ms, roots=()):
        t0 = time.time()
        res, mod = 'unknown', None
        heavy = self.heavy_in([i for i, _ in pc] + list(roots))
        for precise in ((False, True) if heavy else (False,)):
            s = z3.Solver()
            s.set('timeout', int(timeout_ms))
            for i, v in pc:
                e = self.z(i, precise)
                s.add(e if v else z3.Not(e))
            for f in extra:
                s.add(f(precise))
            r = s.check()
            self.stats['queries'] += 1
            if r == z3.unsat:
                res = 'unsat'
                break
            if r == z3.sat:
                mod = self.extract(s.model())
                res = 'sat'
                if heavy and not precise:
                    # does the candidate survive concrete evaluation?
                    self.S.add(mod)
                    k = self.S.n - 1
                    ok = all(bool(self.S.val(i)[k]) == v for i, v in pc)
                    if ok and not roots:
                        break
                    res = 'unknown'
                    continue
                break
        self.stats['q_' + res] = self.stats.get('q_' + res, 0) + 1
        self.stats['solver_s'] += time.time() - t0
        return res, mod

    def extract(self, m):
        vals = {}
        for d in m.decls():
            n = d.name()
            if n[0] == 'x':
                j = int(n[1:])
                x = m[d]
                if z3.is_fp(x) and not isinstance(x, z3.FPNumRef):
                    continue
                if x.isNaN():
                    v = math.nan
                elif x.isInf():
                    v = -math.inf if x.isNegative() else math.inf
                elif x.isZero():
                    v = -0.0 if x.isNegative() else 0.0
                else:
                    bv = z3.simplify(z3.fpToIEEEBV(x)).as_long()
                    v = b2f(bv, self.T.t[j].w)
                vals[self.T.t[j].x[0]] = v
        return vals

    def feasible(self, pc, i, val, timeout):
        return self.solve(pc + ([(i, val)] if i is not None else []), [], timeout)

    def equal(self, pc, a, b, timeout):
        if a == b:
            self.stats['eq_identical'] = self.stats.get('eq_identical', 0) + 1
            return 'valid', None

        def ne(precise):
            x, y = self.z(a, precise), self.z(b, precise)
            if x.sort() != y.sort():
                x, y = [z3.fpFPToFP(z3.RNE(), q, z3.Float64()) for q in (x, y)]
            return z3.Not(z3.Or(z3.fpEQ(x, y), z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y))))
        r, m = self.solve(pc, [ne], timeout, roots=(a, b))
        if r == 'unsat':
            self.stats['eq_solver'] = self.stats.get('eq_solver', 0) + 1
            return 'valid', None
        return r, m

    def violates(self, a, b):
        x, y = self.S.val(a), self.S.val(b)
        return ~((x == y) | (np.isnan(x) & np.isnan(y)))


# ---------------------------------------------------------------------------------------------- explorer
class Explorer:
    def __init__(self, args, h):
        self.args = args
        self.h = h
        self.mode = h['mode']
        self.T = Terms()
        self.stats = {'queries': 0, 'solver_s': 0.0}
        self.S = Samples(self.T, self.mode, args.seed, 160 if self.mode == 'real' else 240)
        self.B = (Real if self.mode == 'real' else Fp)(self.T, self.S, self.stats)
        self.quick_to = 3000
        self.feas_unknown = 0
        self.eq_to = 20000 if args.tier == 'quick' else 60000
        self.stack = []
        self.paths = {}
        self.covers = set()
        self.decisions = 0
        self.cands = []          # violation candidates: (check name, notes, choices, [models])
        self.unknown = []
        self.fns = set()
        self.pins = 0
        self.validate = []       # (choices, model)
        self.samples_out = []
        self.feas_memo = {}
        self.eq_memo = {}
        self.checks = {}
        self.trie = {}           # explored decision tree, for the closing query
        self.trie_n = 0
        self.deadline = time.time() + args.time_limit
        self.bad_checks = set()
        self.cutmsgs = {}
        self.traces = {}         # robot -> {(context, lock events): (operation, choices, model)}
        self.gated = h['name'].startswith('locks')

    def send(self, s):
        self.p.stdin.write(s + '\n')
        self.p.stdin.flush()

    def run(self):
        self.p = subprocess.Popen([self.args.bin + '.sym', 'sym', self.h['name']], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1 << 16)
        first = True
        self.begin()
        done = False
        for line in self.p.stdout:
            line = line.rstrip('\n')
            k = line[0]
            if k == 'T':
                self.T.parse(line.split(' '))
            elif k == 'B':
                self.send(self.branch(int(line[2:])))
            elif k == 'C':
                _, n, name = line.split(' ', 2)
                self.send(self.choice(int(n), name))
            elif k == 'E':
                _, a, b, name = line.split(' ', 3)
                self.equality(int(a), int(b), name)
            elif k == 'S':
                _, a, b = line.split(' ')
                self.send('1' if self.same_nf(int(a), int(b)) else '0')
            elif k == 'K':
                _, ok, name = line.split(' ', 2)
                self.checks[name] = self.checks.get(name, 0) + 1
                if ok == '0':
                    self.failure('check ' + name)
            elif k == 'A':
                _, want, i, name = line.split(' ', 3)
                self.assertion(int(i), want == '1', name)
            elif k == 'V':
                self.cov.append(line[2:])
            elif k == 'N' and line.startswith('NEXT'):
                if not first:
                    self.end_path()
                first = False
                if self.deadline < time.time():
                    self.timeout = True
                    self.send('QUIT')
                elif self.more():
                    self.begin()
                    self.send('RUN')
                else:
                    done = True
                    self.send('QUIT')
            elif k == 'N':
                self.notes.append(line[2:])
            elif k == 'L':
                self.ltr.append(line[2:].split(' '))
            elif k == 'F':
                self.fns.add(int(line[2:]))
            elif k == 'U':
                ids = [int(x) for x in line.split()[1:]]
                self.do_unit(ids)
            elif k == 'O':
                pass
            elif line.startswith('PIN'):
                self.send(self.pin(int(line.split()[1])))
            elif k == 'P':
                _, st, msg = (line + '  ').split(' ', 2)
                self.status, self.msg = st, msg.strip()
            elif k == 'Q':
                pass
        self.p.wait()
        if not done and not getattr(self, 'timeout', False):
            self.crash = 'symbolic binary ended with status %s' % self.p.returncode

    def begin(self):
        self.pos = 0
        self.pc = []
        self.mask = np.ones(self.S.n, bool)
        self.notes = []
        self.ltr = []
        self.cov = []
        self.choices = {}
        self.nchoice = 0
        self.skip = False
        self.fails = []
        self.uncertain = False
        self.status = None
        self.msg = ''
        self.infeasible = False

    def more(self):
        if self.paths == {} and not self.stack:
            return True
        while self.stack:
            e = self.stack[-1]
            if e['k'] == 'B' and e['alt']:
                e['v'] = not e['v']
                e['alt'] = False
                return True
            if e['k'] == 'C' and e['v'] < e['ok'][-1]:
                e['v'] = e['ok'][e['ok'].index(e['v']) + 1]
                return True
            self.stack.pop()
        return False

    def do_unit(self, ids):
        T = self.T.t
        ids = [i for i in ids if not (T[i].op == 'Const' and T[i].x == 0)]
        if all(T[i].op in ('Const', 'Rat') for i in ids):
            return
        for i in ids:
            if T[i].op != 'Var':
                raise Exception('unit assumption on a non-variable')
        self.B.unit(ids)
        self.S.unit(ids)
        self.remask()

    def remask(self):
        m = np.ones(self.S.n, bool)
        for i, v in self.pc:
            a = self.S.val(i)
            m &= a if v else ~a
        self.mask = m

    def assume_pc(self, i, v):
        self.pc.append((i, v))
        if len(self.mask) != self.S.n:
            self.remask()
        else:
            a = self.S.val(i)
            self.mask = self.mask & (a if v else ~a)

    def feas(self, i, v):
        pk = (tuple(self.pc), i, v)
        r = self.feas_memo.get(pk)
        if r is None:
            r, m = self.B.feasible(self.pc, i, v, self.quick_to)
            if r == 'unknown':
                # an undecided side is explored anyway; do not spend long on many of them
                self.feas_unknown += 1
                if self.feas_unknown == 4:
                    self.quick_to = min(self.quick_to, 1000)
                if self.feas_unknown == 8:
                    self.quick_to = min(self.quick_to, 300)
                if self.feas_unknown == 24:
                    self.quick_to = min(self.quick_to, 50)
            if r == 'sat' and m is not None:
                n0 = self.S.n
                self.S.add(m)
                self.remask()
            self.feas_memo[pk] = r
        return r

    def branch(self, i):
        self.decisions += 1
        if self.pos < len(self.stack):
            e = self.stack[self.pos]
            if e['k'] != 'B' or e['id'] != i:
                raise Exception('re-execution diverged')
            self.pos += 1
            self.uncertain |= e.get('unc', False) if not e['v'] == e['v0'] else e.get('unc0', False)
            self.assume_pc(i, e['v'])
            return '1' if e['v'] else '0'
        st = self.B.static(i)
        if st is None and self.mode == 'real':
            st = self.B.implied(self.pc, i)
            if st is not None:
                self.stats['implied'] = self.stats.get('implied', 0) + 1
        if st is not None:
            self.stack.append({'k': 'B', 'id': i, 'v': st, 'v0': st, 'alt': False, 'one': True})
            self.pos += 1
            self.assume_pc(i, st)
            return '1' if st else '0'
        if len(self.mask) != self.S.n:
            self.remask()
        a = self.S.val(i)
        side = {True: bool((self.mask & a).any()), False: bool((self.mask & ~a).any())}
        unc = {True: False, False: False}
        for v in (True, False):
            if not side[v]:
                r = self.feas(i, v)
                side[v] = r != 'unsat'
                unc[v] = r == 'unknown'
        if not side[True] and not side[False]:
            self.infeasible = True
            return 'X'
        v = side[True]
        if side[True] and side[False] and unc[True] and not unc[False]:
            v = False
        self.stack.append({'k': 'B', 'id': i, 'v': v, 'v0': v, 'alt': side[not v], 'unc0': unc[v], 'unc': unc[not v],
                           'one': not side[not v]})
        self.pos += 1
        self.uncertain |= unc[v]
        self.assume_pc(i, v)
        return '1' if v else '0'

    def choice(self, n, name):
        if self.pos < len(self.stack):
            e = self.stack[self.pos]
            if e['k'] != 'C' or e['name'] != name:
                raise Exception('re-execution diverged')
        else:
            ok = list(range(n))
            if self.nchoice == 1 and self.args.shards > 1:
                # a shard explores the pairs of the first two choices whose index falls to it
                ok = [v for v in ok if (self.first * n + v) % self.args.shards == self.args.shard]
                if not ok:
                    self.skip = True
                    return 'X'
            e = {'k': 'C', 'v': ok[0], 'n': n, 'name': name, 'ok': ok}
            self.stack.append(e)
        if self.nchoice == 0:
            self.first = e['v']
        self.nchoice += 1
        self.pos += 1
        self.choices[name] = e['v']
        return str(e['v'])

    def pin(self, i):
        self.pins += 1
        a = self.S.val(i)
        k = np.nonzero(self.mask)[0]
        v = float(a[k[0]]) if len(k) else 0.0
        return str(f2b(v))

    def witnesses(self, extra=None, limit=6):
        m = self.mask if extra is None else self.mask & extra
        return [self.S.model(int(k), self.T) for k in np.nonzero(m)[0][:limit]]

    def same_nf(self, a, b):
        """Do the two terms have the same normal form?  (Lets a harness choose the cheaper of two sufficient statements.)"""
        if a == b:
            return True
        if self.mode != 'real':
            return False
        try:
            n, d = self.B.radd(self.B.nf(a), self.B.nf(b), -1)
        except TooBig:
            return False
        return not n or max(abs(float(c)) for c in n.values()) <= 1e-9

    def equality(self, a, b, name):
        self.checks[name] = self.checks.get(name, 0) + 1
        mk = (a, b)
        if self.eq_memo.get(mk) == 'valid':
            return
        if len(self.mask) != self.S.n:
            self.remask()
        bad = self.B.violates(a, b)
        if self.mode == 'real' and bad.any() and self.same_nf(a, b):
            # equal as reals; the machine evaluation differs only by rounding near a singular point
            bad = np.zeros(self.S.n, bool)
        w = self.witnesses(bad)
        if w:
            self.fails.append(('eq ' + name, w))
            return
        r, m = self.B.equal(self.pc, a, b, self.eq_to)
        if r == 'unknown' and self.mode == 'real':
            r, m = self.reduced(a, b)
        if r == 'valid':
            # valid without the path condition may be reused on every path
            if self.mode == 'real' and not self.pc:
                self.eq_memo[mk] = 'valid'
            elif a == b:
                self.eq_memo[mk] = 'valid'
            return
        ms = []
        if r == 'sat' and m is not None:
            self.S.add(m)
            self.remask()
            ms = [dict(self.S.model(self.S.n - 1, self.T))]
        self.fails.append(('eq ' + name, ms) if r == 'sat' else ('?eq ' + name, []))

    def reduced(self, a, b):
        """The full query was not decided: decide it again with part of the inputs fixed (a smaller, stated bound)."""
        ws = self.witnesses(limit=400)
        if not ws:
            return 'unknown', None
        random.Random(self.args.seed).shuffle(ws)
        names = sorted(self.T.t[i].x[0] for i in self.T.depvars([a, b]))
        angles = [n for n in names if self.T.t[self.T.vars[n]].x[1] == 1]
        keep = angles if angles else names[:2]
        sub = Real(self.T, self.S, self.stats)
        for w in ws[:4]:
            sub = Real(self.T, self.S, self.stats)
            for n in names:
                if n not in keep:
                    sub.memo[self.T.vars[n]] = sub.one(Fraction(w[n]).limit_denominator(1 << 20))
            for u in self.B.units:
                if all(self.T.t[i].x[0] in keep for i in u):
                    sub.unit(u)
            pc = [(i, v) for i, v in self.pc if all(self.T.t[j].x[0] in keep for j in self.T.depvars([i]))]
            r, m = sub.equal(pc, a, b, self.eq_to / 2)
            if r != 'valid':
                return 'unknown', None
        self.stats['eq_reduced'] = self.stats.get('eq_reduced', 0) + 1
        return 'valid', None

    def assertion(self, i, want, name):
        self.checks[name] = self.checks.get(name, 0) + 1
        if len(self.mask) != self.S.n:
            self.remask()
        a = self.S.val(i)
        w = self.witnesses(~a if want else a)
        if w:
            self.fails.append(('assert ' + name, w))
            return
        r, m = self.B.feasible(self.pc, i, not want, self.eq_to)
        if r == 'unsat':
            self.stats['assert_solver'] = self.stats.get('assert_solver', 0) + 1
            return
        if r == 'sat' and m is not None:
            self.S.add(m)
            self.remask()
            self.fails.append(('assert ' + name, [dict(self.S.model(self.S.n - 1, self.T))]))
        else:
            self.fails.append(('?assert ' + name, []))

    def failure(self, what):
        if len(self.mask) != self.S.n:
            self.remask()
        w = self.witnesses()
        if not w:
            r, m = self.B.feasible(self.pc, None, None, self.eq_to)
            if r == 'unsat':
                return
            if r == 'sat' and m is not None:
                self.S.add(m)
                self.remask()
                w = [dict(self.S.model(self.S.n - 1, self.T))]
                w += [x for x in self.witnesses() if x != w[0]]
            elif r == 'unknown':
                self.fails.append(('?' + what, []))
                return
        self.fails.append((what, w))

    def end_path(self):
        st = self.status
        if self.skip:
            self.paths['other shard'] = self.paths.get('other shard', 0) + 1
            self.record('skip')
            return
        if self.infeasible:
            st = 'infeasible'
        if st == 'cut':
            self.cutmsgs[self.msg] = self.cutmsgs.get(self.msg, 0) + 1
        if st == 'panic':
            self.failure('panic ' + self.msg[:300])
        elif st == 'deadlock':
            self.failure('deadlock: a thread waits for a lock it already holds')
        self.paths[st] = self.paths.get(st, 0) + 1
        if st in ('ok', 'failed', 'panic', 'deadlock'):
            self.covers.update(self.cov)
        for what, ms in self.fails:
            if what.startswith('?'):
                self.unknown.append({'what': what[1:], 'choices': dict(self.choices), 'notes': self.notes[:6]})
            else:
                self.cands.append((what, list(self.notes), dict(self.choices), ms))
        if len(self.mask) != self.S.n:
            self.remask()
        k = np.nonzero(self.mask)[0]
        if len(k) and st in ('ok', 'cut'):
            # prefer a well-scaled witness
            model = self.S.model(int(k[min(len(k) - 1, 1)]), self.T)
            self.validate.append((dict(self.choices), model, st, list(self.notes)))
        if self.ltr and len(k):
            model = self.S.model(int(k[0]), self.T)
            for key, label, ctx, ev in self.ltr:
                if st in ('ok', 'failed', 'panic', 'deadlock', 'cut'):
                    self.traces.setdefault(key, {}).setdefault((ctx, ev), (label, dict(self.choices), model))
        if len(self.samples_out) < 3:
            self.samples_out.append({'path': st, 'choices': dict(self.choices), 'branches': len(self.pc),
                                     'notes': self.notes[:4],
                                     'witness': {a: b for a, b in list(self.validate[-1][1].items())[:8]} if self.validate else None})
        self.record(st)
        n = sum(self.paths.values())
        if n > self.args.max_paths:
            self.deadline = 0

    # -- the closing query: is there any assignment of the symbolic choices and branch conditions that no verified
    #    path covers?
    def record(self, st):
        node = self.trie
        for e in self.stack[:self.pos]:
            if 'e' not in node:
                node['e'] = (e['k'], e.get('id'), e.get('name'), tuple(e.get('ok', ())), e.get('one', False), e['v'])
                node['c'] = {}
            node = node['c'].setdefault(e['v'], {})
            self.trie_n += 1
        node['leaf'] = not (self.fails or st in ('failed', 'panic', 'deadlock'))

    def closing(self):
        t0 = time.time()
        order, st = [], [self.trie]
        while st:
            n = st.pop()
            order.append(n)
            st.extend(n.get('c', {}).values())
        ints = {}
        for n in reversed(order):
            if 'e' not in n:
                n['z'] = z3.BoolVal(not n.get('leaf', False))
                continue
            k, i, name, cnt, one, v0 = n['e']
            if k == 'C':
                c = ints.setdefault(name, z3.Int('c_' + name))
                n['z'] = z3.And(z3.Or(*[c == v for v in cnt]), *[z3.Implies(c == v, n['c'][v]['z'] if v in n['c'] else z3.BoolVal(True))
                                                                for v in cnt])
            else:
                b = z3.Bool('b%d' % i)
                if one:
                    n['z'] = z3.And(b == v0, n['c'][v0]['z'])
                else:
                    n['z'] = z3.And(*[z3.Implies(b == v, n['c'][v]['z'] if v in n['c'] else z3.BoolVal(True)) for v in (True, False)])
            for ch in n['c'].values():
                ch.pop('z', None)
        s = z3.Solver()
        s.set('timeout', 60000)
        s.add(self.trie['z'])
        r = str(s.check())
        self.stats['queries'] += 1
        self.stats['q_' + r] = self.stats.get('q_' + r, 0) + 1
        self.stats['solver_s'] += time.time() - t0
        return {'verdict': r, 'choice_variables': len(ints), 'tree_edges': self.trie_n}

    # -- deadlocks: operations, pre-emption points and a schedule in which threads wait for each other in a circle
    @staticmethod
    def waits(ev):
        """(held, requested, index of the request) at every point where an operation may have to wait"""
        out, held = [], []
        for n, e in enumerate(ev):
            k, l = e[0], int(e[1:])
            if k == 'r':
                if l in held:
                    held.remove(l)
            else:
                if k == 'a' and held and l < 900:
                    out.append((tuple(sorted(set(held))), l, n))
                held.append(l)
        return out

    def circles(self, key, trs, maxk=4):
        """abstract circles of waiting threads over the solver: -> list of tuples of states"""
        states = {}
        for (ctx, evs), v in trs.items():
            ev = [] if evs == '-' else evs.split(',')
            for h, q, n in self.waits(ev):
                states.setdefault((h, q), []).append((ctx, ev, n, v))
        tab = sorted(states)
        self.stats['lock_states'] = self.stats.get('lock_states', 0) + len(tab)
        self.stats['lock_traces'] = self.stats.get('lock_traces', 0) + len(trs)
        found = []
        nl = 1 + max([q for _, q in tab] + [l for h, _ in tab for l in h] + [0])
        for k in range(2, maxk + 1):
            s = z3.Solver()
            s.set('timeout', 20000)
            x = [z3.Int('state%d' % i) for i in range(k)]
            req = [z3.Int('req%d' % i) for i in range(k)]
            held = [[z3.Bool('held%d_%d' % (i, l)) for l in range(nl)] for i in range(k)]
            for i in range(k):
                s.add(z3.Or(*[z3.And(x[i] == n, req[i] == q, *[held[i][l] == (l in h) for l in range(nl)])
                              for n, (h, q) in enumerate(tab)]) if tab else z3.BoolVal(False))
                s.add(z3.Or(*[z3.And(req[i] == l, held[(i + 1) % k][l]) for l in range(nl)]))
            for i in range(k):
                for j in range(i):
                    s.add(*[z3.Not(z3.And(held[i][l], held[j][l])) for l in range(nl)])
            for _ in range(6):
                t0 = time.time()
                r = str(s.check())
                self.stats['queries'] += 1
                self.stats['q_' + r] = self.stats.get('q_' + r, 0) + 1
                self.stats['solver_s'] += time.time() - t0
                if r == 'unknown':
                    self.unknown.append({'what': 'circle of %d waiting threads' % k, 'choices': {}, 'notes': [key]})
                if r != 'sat':
                    break
                m = s.model()
                idx = [m[v].as_long() for v in x]
                found.append([states[tab[n]] for n in idx])
                s.add(z3.Or(*[v != n for v, n in zip(x, idx)]))
            if found:
                break
        return found

    def schedule(self, threads):
        """threads: [(events, number of lock events done before it waits)] -> order of the lock events, by the solver"""
        s = z3.Solver()
        s.set('timeout', 20000)
        t, secs, n = [], {}, 0
        for i, (ev, stop) in enumerate(threads):
            ts = [z3.Int('t%d_%d' % (i, j)) for j in range(stop)]
            t.append(ts)
            n += stop
            for a, b in zip(ts, ts[1:]):
                s.add(a < b)
            for v in ts:
                s.add(v >= 0)
            opened = {}
            for j in range(stop):
                l = int(ev[j][1:])
                if ev[j][0] == 'r':
                    if l in opened:
                        secs.setdefault(l, []).append((i, ts[opened.pop(l)], ts[j]))
                else:
                    opened[l] = j
            for l, j in opened.items():
                secs.setdefault(l, []).append((i, ts[j], None))
        flat = [v for ts in t for v in ts]
        if len(flat) > 1:
            s.add(z3.Distinct(*flat))
        for l, ss in secs.items():
            if l >= 900:
                continue
            for p in range(len(ss)):
                for q in range(p):
                    (i, a, b), (j, c, d) = ss[p], ss[q]
                    if i != j:
                        s.add(z3.Or(b < c if b is not None else z3.BoolVal(False), d < a if d is not None else z3.BoolVal(False)))
        t0 = time.time()
        r = str(s.check())
        self.stats['queries'] += 1
        self.stats['q_' + r] = self.stats.get('q_' + r, 0) + 1
        self.stats['solver_s'] += time.time() - t0
        if r != 'sat':
            return r, None
        m = s.model()
        order = sorted((m.eval(v, True).as_long(), i, j) for i, ts in enumerate(t) for j, v in enumerate(ts))
        return r, [(i, j) for _, i, j in order]

    def deadlocks(self, viol, unrep):
        for key, trs in sorted(self.traces.items()):
            for circ in self.circles(key, trs):
                done, tried = False, 0
                # the same wait can come from several operations
                for reps in zip(*[(sorted(c, key=lambda x: x[0] != '-') * 3)[:3] for c in circ]):
                    r, order = self.schedule([(ev, n) for _, ev, n, _ in reps])
                    if r == 'unsat':
                        continue
                    tried += 1
                    sched = []
                    if order is not None:
                        # one turn to reach the first mutex, then one per mutex taken
                        sched = list(range(len(reps))) + [i for i, j in order if reps[i][1][j][0] == 'a']
                    sched += list(range(len(reps))) * 2
                    jobs = len(reps)
                    extra = []
                    for ctx, _, _, (label, ch, model) in reps:
                        if ctx != '-':
                            # the change of the structure it came in between
                            _, mu, at, _ = ctx.split(':')
                            sched = [jobs] * (int(at) + 1) + sched
                            extra.append('@%d.mutate=%s' % (jobs, mu))
                            extra += ['#%d.%s=%d' % (jobs, c[2:], v) for c, v in ch.items() if c.startswith('m.')]
                            jobs += 1
                    txt = ['@mode=real', '@jobs=%d' % jobs, '@sched=' + ','.join(map(str, sched))] + extra
                    for i, (_, _, _, (label, ch, model)) in enumerate(reps):
                        for c, v in ch.items():
                            txt.append(('#%s=%d' if c.startswith('s.') else '#' + str(i) + '.%s=%d') % (c, v))
                        for c, v in model.items():
                            txt.append('%d.%s=%r' % (i, c, float(v)))
                    txt = '\n'.join(dict.fromkeys(txt)) + '\n'
                    res = self.replay([txt])[0]
                    if res[0] in ('failed', 'panic', 'hang', 'crash') or res[2]:
                        viol.append({'check': 'deadlock of ' + ' and '.join(x[3][0] for x in reps), 'notes': [key] + [
                            'thread %d (%s) holds %s and waits for %s' % (i, x[3][0], sorted(self.waits(x[1][:x[2] + 1])[-1][0]), x[1][x[2]][1:])
                            for i, x in enumerate(reps)], 'choices': reps[0][3][1], 'model': {}, 'text': txt,
                            'native': {'status': res[0], 'message': res[1], 'failed': res[2], 'lines': res[3][-12:]}, 'paths_failing': 1})
                        done = True
                        break
                if done:
                    return
                if tried:
                    unrep.append({'check': 'circle of waiting threads', 'tried': tried, 'example': {'notes': [key], 'choices': {},
                                  'model': [str([(x[0][0], x[0][3][0], x[0][2], ','.join(x[0][1])) for x in circ])]}})

    # -- native replay
    def model_text(self, choices, model):
        o = ['@mode=%s' % self.mode]
        for k, v in choices.items():
            o.append('#%s=%d' % (k, v))
        for k, v in model.items():
            if isinstance(v, float) and (math.isnan(v) or math.isinf(v) or self.mode == 'fp'):
                o.append('%s=0x%016x' % (k, f2b(v)))
            else:
                o.append('%s=%r' % (k, float(v)))
        return '\n'.join(o) + '\n'

    def replay(self, texts, timeout=20):
        """-> list of (status, message, failed names, lines)"""
        out = []
        rest = list(texts)
        while rest:
            try:
                r = subprocess.run([self.args.bin + ('.sym' if self.gated else ''), 'replay', self.h['name'], '-'], input='---\n'.join(rest),
                                   capture_output=True, text=True, timeout=timeout + 0.05 * len(rest))
                so, hang, rc = r.stdout, False, r.returncode
            except subprocess.TimeoutExpired as e:
                so = (e.stdout or b'')
                so = so.decode() if isinstance(so, bytes) else so
                hang, rc = True, None
            got = []
            cur = []
            st = msg = None
            for l in so.split('\n'):
                if l.startswith('P '):
                    _, st, msg = (l + '  ').split(' ', 2)
                elif l.startswith('R'):
                    got.append((st, msg.strip(), l[2:].split('\t') if l[2:].strip() else [], cur))
                    cur = []
                elif l:
                    cur.append(l)
            out += got
            rest = rest[len(got):]
            if rest:
                out.append(('hang' if hang else 'crash', 'exit %s' % rc, ['hang' if hang else 'crash'], cur))
                rest = rest[1:]
                timeout = min(timeout, 8)
        return out

    def finish(self):
        viol = []
        unrep = []
        seen = set()
        # group candidates by check name, replay a few of each
        groups = {}
        for c in self.cands:
            groups.setdefault(c[0] if not c[0].startswith('panic') else 'panic', []).append(c)
        for what, cs in groups.items():
            done = False
            tried = 0
            for what1, notes, choices, ms in cs[:12]:
                models = ms[:4]
                texts = [self.model_text(choices, m) for m in models]
                if not texts:
                    continue
                res = self.replay(texts)
                tried += len(texts)
                for t, m, r in zip(texts, models, res):
                    bad = r[0] in ('failed', 'panic', 'hang', 'crash') or r[2]
                    if bad:
                        viol.append({'check': what1, 'notes': notes, 'choices': choices, 'model': m, 'text': t,
                                     'native': {'status': r[0], 'message': r[1], 'failed': r[2], 'lines': r[3][-12:]},
                                     'paths_failing': len(cs)})
                        done = True
                        break
                if done:
                    break
            if not done:
                unrep.append({'check': what, 'tried': tried, 'example': {'notes': cs[0][1], 'choices': cs[0][2],
                                                                        'model': cs[0][3][:1]}})
        self.deadlocks(viol, unrep)
        # validation of passing paths against the native binary
        val = self.validate
        if len(val) > self.args.max_validate:
            rnd = random.Random(self.args.seed)
            val = rnd.sample(val, self.args.max_validate)
        agree = 0
        if val and not viol:
            texts = [self.model_text(c, m) for c, m, _, _ in val]
            res = self.replay(texts)
            for t, (c, m, st, notes), r in zip(texts, val, res):
                bad = r[0] in ('failed', 'panic', 'hang', 'crash') or r[2]
                if bad:
                    viol.append({'check': 'native run of a solver-produced input (%s path)' % st, 'notes': notes, 'choices': c, 'model': m,
                                 'text': t, 'native': {'status': r[0], 'message': r[1], 'failed': r[2],
                                                       'lines': r[3][-12:]}, 'paths_failing': 1})
                    break
                if r[0] == 'ok' or (st == 'cut' and r[0] in ('ok', 'assume')):
                    agree += 1
        return viol, unrep, agree, len(val)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('harness')
    ap.add_argument('--bin', required=True)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--time-limit', type=float, default=300)
    ap.add_argument('--shard', type=int, default=0)
    ap.add_argument('--shards', type=int, default=1)
    ap.add_argument('--max-paths', type=int, default=80000)
    ap.add_argument('--max-validate', type=int, default=60)
    args = ap.parse_args()
    random.seed(args.seed)
    t0 = time.time()
    hs = [json.loads(l) for l in subprocess.check_output([args.bin, 'list'], text=True).splitlines()]
    h = [x for x in hs if x['name'] == args.harness][0]
    ex = Explorer(args, h)
    err = None
    try:
        ex.run()
    except Exception as e:
        import traceback
        err = traceback.format_exc()
        ex.p.kill()
    closing = None
    if err is None and not getattr(ex, 'timeout', False) and not getattr(ex, 'crash', None):
        closing = ex.closing()
    viol, unrep, agree, nval = ([], [], 0, 0)
    try:
        viol, unrep, agree, nval = ex.finish()
    except Exception as e:
        import traceback
        err = (err or '') + traceback.format_exc()
    fn = json.load(open(args.bin + '.sym.json'))['functions']
    out = {'harness': h['name'], 'prop': h['prop'], 'mode': h['mode'], 'bounds': h['bounds'],
           'paths': ex.paths, 'decisions': ex.decisions, 'stats': ex.stats, 'terms': len(ex.T.t),
           'inputs': sorted(ex.T.vars), 'covers': sorted(ex.covers),
           'missing_covers': [c for c in h['covers'] if c not in ex.covers],
           'violations': viol, 'unreproduced': unrep, 'unknown': ex.unknown[:20], 'n_unknown': len(ex.unknown),
           'checks': ex.checks, 'validated': agree, 'validation_runs': nval, 'samples': ex.samples_out,
           'functions': sorted(fn.get(str(i), '?') for i in ex.fns), 'pins': ex.pins, 'cut_reasons': ex.cutmsgs,
           'timeout': getattr(ex, 'timeout', False), 'crash': getattr(ex, 'crash', None), 'error': err, 'closing': closing,
           'wall_s': time.time() - t0}
    json.dump(out, sys.stdout, default=str)


if __name__ == '__main__':
    main()
