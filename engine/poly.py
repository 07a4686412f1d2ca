"""Exact rational-function arithmetic over named symbols.

Polynomials are dicts {packed monomial: int coefficient}.  A value is
num / (k * prod(atom^p)), where atoms are the (non-zero) polynomials the
program divided by.  Symbols may carry a rewrite rule v^2 -> P (square roots,
sines).  Everything here is exact; the SMT solver sees the translated terms.
"""
import math
import random
from fractions import Fraction

FB = 12                      # bits per exponent field (top one is a guard)
FM = (1 << FB) - 1


class Limit(Exception):
    pass


class Space:
    """All symbols of one execution."""

    def __init__(self, seed=1):
        self.names = []
        self.kind = []           # ('in',), ('sqrt',P), ('sin',R)...
        self.guard = 0
        self.rulemask = 0
        self.rules = {}          # var index -> poly P for v^2
        self.atoms = []          # polys
        self.atom_ix = {}
        self.atom_val = []
        self.rng = random.Random(977 + seed)
        self.val = []            # random evaluation point for divisibility filter
        self.mcache = {}
        self.max_terms = 20000

    def new(self, name, kind=('in',)):
        i = len(self.names)
        self.names.append(name)
        self.kind.append(kind)
        self.guard |= 1 << (FB * i + FB - 1)
        self.val.append(self.rng.randrange(10 ** 6, 10 ** 7))
        return i

    def set_rule(self, i, P):
        self.rules[i] = P
        self.rulemask |= (FM & ~1) << (FB * i)

    def var(self, i):
        return {1 << (FB * i): 1}

    # ---- polynomial operations ----
    def meval(self, m):
        v = self.mcache.get(m)
        if v is None:
            v = 1
            i = 0
            mm = m
            while mm:
                e = mm & FM
                if e:
                    v *= self.val[i] ** e
                mm >>= FB
                i += 1
            self.mcache[m] = v
        return v

    def peval(self, p):
        me = self.meval
        return sum(c * me(m) for m, c in p.items())

    def padd(self, a, b, ca=1, cb=1):
        if len(a) < len(b):
            a, b, ca, cb = b, a, cb, ca
        r = dict(a) if ca == 1 else {m: c * ca for m, c in a.items()}
        for m, c in b.items():
            s = r.get(m, 0) + c * cb
            if s:
                r[m] = s
            else:
                r.pop(m, None)
        return r

    def pmul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        r = {}
        if len(a) == 1:
            (m1, c1), = a.items()
            if m1 == 0:
                if c1 == 1:
                    return b
                return {m: c * c1 for m, c in b.items()}
            r = {m + m1: c * c1 for m, c in b.items()}
        else:
            if len(a) * len(b) > 400000:
                raise Limit('polynomial product too large')
            get = r.get
            for m1, c1 in a.items():
                for m2, c2 in b.items():
                    m = m1 + m2
                    r[m] = get(m, 0) + c1 * c2
            r = {m: c for m, c in r.items() if c}
        g = self.guard
        for m in r:
            if m & g:
                raise Limit('degree too large')
        if self.rulemask:
            r = self.preduce(r)
        if len(r) > self.max_terms:
            raise Limit('polynomial too large')
        return r

    def preduce(self, r):
        mask = self.rulemask
        while True:
            bad = [m for m in r if m & mask]
            if not bad:
                return r
            r = dict(r)
            for m in bad:
                c = r.pop(m, None)
                if c is None:
                    continue
                # find the variable
                mm = m & mask
                i = ((mm & -mm).bit_length() - 1) // FB
                e = (m >> (FB * i)) & FM
                base = m - ((e - (e & 1)) << (FB * i))
                P = self.ppow_raw(self.rules[i], e // 2)
                for m2, c2 in P.items():
                    k = base + m2
                    s = r.get(k, 0) + c * c2
                    if s:
                        r[k] = s
                    else:
                        r.pop(k, None)

    def ppow_raw(self, p, n):
        r = {0: 1}
        for _ in range(n):
            r = self.pmul(r, p)
        return r

    def pdivexact(self, a, b):
        """Quotient of integer polynomials if exact, else None (plain ring)."""
        if not a:
            return a
        lb = max(b)
        cb = b[lb]
        G = self.guard
        if len(b) == 1:
            out = {}
            for m, c in a.items():
                if ((m | G) - lb) & G != G or c % cb:
                    return None
                out[m - lb] = c // cb
            return out
        r = dict(a)
        qq = {}
        steps = 0
        import heapq
        heap = [-m for m in r]
        heapq.heapify(heap)
        bi = list(b.items())
        while r:
            while True:
                m = -heap[0]
                if m in r:
                    break
                heapq.heappop(heap)
            c = r[m]
            if ((m | G) - lb) & G != G or c % cb:
                return None
            dm = m - lb
            dc = c // cb
            qq[dm] = dc
            for m2, c2 in bi:
                k = dm + m2
                old = r.get(k)
                s = (old or 0) - dc * c2
                if s:
                    if old is None:
                        heapq.heappush(heap, -k)
                    r[k] = s
                else:
                    r.pop(k, None)
            steps += 1
            if steps > 20000:
                return None
        return qq

    def primitive(self, p):
        """(sign-and-content int, primitive poly with positive leading coeff)"""
        g = math.gcd(*p.values())
        if p[max(p)] < 0:
            g = -g
        if g == 1:
            return 1, p
        return g, {m: c // g for m, c in p.items()}

    def atom(self, p):
        key = frozenset(p.items())
        i = self.atom_ix.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(p)
            self.atom_ix[key] = i
            self.atom_val.append(self.peval(p))
        return i

    def factor_into_atoms(self, p):
        """p primitive -> list of (atom, pow), trying known atoms first."""
        out = {}
        for i, a in enumerate(self.atoms):
            if len(p) == 1 and 0 in p:
                break
            while True:
                if self.atom_val[i] == 0 or self.peval(p) % self.atom_val[i]:
                    break
                q = self.pdivexact(p, a)
                if q is None:
                    break
                out[i] = out.get(i, 0) + 1
                p = q
        c = 1
        if len(p) == 1:
            (m, c), = p.items()
            i = 0
            while m:
                e = m & FM
                if e:
                    ai = self.atom(self.var(i))
                    out[ai] = out.get(ai, 0) + e
                m >>= FB
                i += 1
        else:
            c, p = self.primitive(p)
            ai = self.atom(p)
            out[ai] = out.get(ai, 0) + 1
        return c, out


class R:
    """Element of the fraction field."""
    __slots__ = ('sp', 'n', 'd', 'k', '_key')

    def __init__(self, sp, n, d=(), k=1):
        self.sp = sp
        self.n = n
        self.d = d          # tuple of (atom index, power)
        self.k = k
        self._key = None

    @staticmethod
    def const(sp, f):
        f = Fraction(f)
        if f == 0:
            return R(sp, {})
        return R(sp, {0: f.numerator}, (), f.denominator)

    @staticmethod
    def var(sp, i):
        return R(sp, sp.var(i))

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.n.items()), self.d, self.k)
        return self._key

    def is_const(self):
        return not self.d and (not self.n or (len(self.n) == 1 and 0 in self.n))

    def const_val(self):
        return Fraction(self.n.get(0, 0), self.k)

    @staticmethod
    def make(sp, n, d, k):
        if not n:
            return R(sp, {})
        if d:
            nd = []
            for (i, p) in d:
                a = sp.atoms[i]
                av = sp.atom_val[i]
                while p:
                    if av and sp.peval(n) % av:
                        break
                    q = sp.pdivexact(n, a)
                    if q is None:
                        break
                    n = q
                    p -= 1
                if p:
                    nd.append((i, p))
            d = tuple(nd)
        if k != 1:
            g = math.gcd(k, *n.values())
            if k < 0:
                g = -g
            if g != 1:
                n = {m: c // g for m, c in n.items()}
                k //= g
        return R(sp, n, d, k)

    def add(self, o, sign=1):
        sp = self.sp
        if not o.n:
            return self
        if not self.n:
            return o if sign == 1 else o.neg()
        if self.d == o.d:
            n1, n2, d = self.n, o.n, self.d
        else:
            d1, d2 = dict(self.d), dict(o.d)
            d = {}
            n1, n2 = self.n, o.n
            for i in set(d1) | set(d2):
                p1, p2 = d1.get(i, 0), d2.get(i, 0)
                p = max(p1, p2)
                d[i] = p
                for _ in range(p - p1):
                    n1 = sp.pmul(n1, sp.atoms[i])
                for _ in range(p - p2):
                    n2 = sp.pmul(n2, sp.atoms[i])
            d = tuple(sorted(d.items()))
        if self.k == o.k:
            n = sp.padd(n1, n2, 1, sign)
            k = self.k
        else:
            g = math.gcd(self.k, o.k)
            n = sp.padd(n1, n2, o.k // g, sign * (self.k // g))
            k = self.k // g * o.k
        return R.make(sp, n, d, k)

    def neg(self):
        return R(self.sp, {m: -c for m, c in self.n.items()}, self.d, self.k)

    def mul(self, o):
        sp = self.sp
        if not self.n or not o.n:
            return R(sp, {})
        n1, n2 = self.n, o.n
        if not self.d and not o.d:
            return R.make(sp, sp.pmul(n1, n2), (), self.k * o.k)
        # cross-cancel first
        a = R.make(sp, n1, o.d, 1)
        b = R.make(sp, n2, self.d, 1)
        d = dict(a.d)
        for i, p in b.d:
            d[i] = d.get(i, 0) + p
        n = sp.pmul(a.n, b.n)
        if sp.rulemask:
            return R.make(sp, n, tuple(sorted(d.items())), self.k * o.k)
        return R.make(sp, n, tuple(sorted(d.items())), self.k * o.k)

    def inv(self):
        sp = self.sp
        g, p = sp.primitive(self.n)
        n = {0: self.k if g > 0 else -self.k}
        for i, e in self.d:
            for _ in range(e):
                n = sp.pmul(n, sp.atoms[i])
        if len(p) == 1 and 0 in p:
            return R.make(sp, n, (), abs(g))
        c, at = sp.factor_into_atoms(p)
        g *= c
        if c < 0:
            n = {m: -x for m, x in n.items()}
        return R.make(sp, n, tuple(sorted(at.items())), abs(g))

    def div(self, o):
        return self.mul(o.inv())

    def signpoly(self):
        """Poly with the same sign as the value (k>0): num * odd atoms, as list of factors."""
        return [self.n] + [self.sp.atoms[i] for i, p in self.d if p & 1]

    def __repr__(self):
        return pstr(self.sp, self.n) + ('' if not self.d and self.k == 1 else '/(%d*%s)' % (
            self.k, '*'.join('(%s)^%d' % (pstr(self.sp, self.sp.atoms[i]), p) for i, p in self.d)))


def pstr(sp, p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), reverse=True)[:12]:
        s = str(c)
        i = 0
        while m:
            e = m & FM
            if e:
                s += '*' + sp.names[i] + ('^%d' % e if e > 1 else '')
            m >>= FB
            i += 1
        out.append(s)
    if len(p) > 12:
        out.append('...(%d terms)' % len(p))
    return ' + '.join(out)


_rat_cache = {}


def rationalise(x):
    """The fraction a double literal stands for: p/q with q <= 1000 (or a short
    decimal) when x is the double nearest to it, else the exact dyadic value."""
    r = _rat_cache.get(x)
    if r is not None:
        return r
    f = Fraction(x)
    r = f
    if f.denominator > 1024:
        g = f.limit_denominator(1000)
        if g != 0 and float(g) == x:
            r = g
        else:
            s = repr(x)
            man = s.split('e')[0].replace('.', '').replace('-', '').strip('0')
            if len(man) <= 6:
                r = Fraction(s)
    _rat_cache[x] = r
    return r
