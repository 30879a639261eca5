"""Numeric abstract domain: linear forms over atoms, and zones (difference bounds)
with intervals, disequalities and a few general linear facts.

A linear form of width w stands for its value modulo 2**w; bounds are those of the
mathematical (unwrapped) form."""
from math import gcd

INF = float('inf')


class Lin:
    __slots__ = ('c', 't', 'rng', '_h')

    def __init__(self, c, t=(), rng=None):
        self.c = c
        self.t = t
        self.rng = rng
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def is_const(self):
        return not self.t

    def __repr__(self):
        s = ' '.join('%+d*a%d' % (k, a) for a, k in self.t)
        return '(%s %+d)' % (s, self.c) if s else str(self.c)


def K(c):
    return Lin(c)


def atom(a):
    return Lin(0, ((a, 1),))


def add(a, b, kb=1):
    if not b.t:
        return Lin(a.c + kb * b.c, a.t)
    if not a.t and kb == 1:
        return Lin(a.c + b.c, b.t)
    d = dict(a.t)
    for x, k in b.t:
        n = d.get(x, 0) + kb * k
        if n:
            d[x] = n
        else:
            del d[x]
    return Lin(a.c + kb * b.c, tuple(sorted(d.items())))


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if k == 0:
        return Lin(0)
    return Lin(a.c * k, tuple((x, c * k) for x, c in a.t))


def neg(a):
    return scale(a, -1)


def addc(a, c):
    return Lin(a.c + c, a.t)


def subst(l, m):
    """replace atoms by linear forms"""
    r = Lin(l.c)
    hit = False
    for x, k in l.t:
        if x in m:
            r = add(r, m[x], k)
            hit = True
        else:
            r = add(r, Lin(0, ((x, 1),)), k)
    return r if hit else l


class Zone:
    __slots__ = ('lo', 'hi', 'd', 'r', 'neq', 'facts')

    def __init__(self):
        self.lo = {}
        self.hi = {}
        self.d = {}
        self.r = {}
        self.neq = ()      # normalised Lin != 0
        self.facts = ()    # Lin <= 0

    def copy(self):
        z = Zone()
        z.lo = self.lo.copy()
        z.hi = self.hi.copy()
        z.d = self.d.copy()
        z.r = self.r.copy()
        z.neq = self.neq
        z.facts = self.facts
        return z

    def new(self, a, lo, hi):
        self.lo[a] = lo
        self.hi[a] = hi

    # -- x - y <= ?
    def db(self, x, y):
        if x == y:
            return 0
        b = self.hi[x] - self.lo[y]
        dx = self.d.get(x)
        if dx is not None:
            e = dx.get(y)
            if e is not None and e < b:
                return e
        return b

    # -- upper bound of a linear form
    def ub(self, l, facts=True):
        best = self._ub(l)
        if facts and self.facts and len(l.t) > 1:
            la = {x for x, _ in l.t}
            for f in self.facts:
                for x, k in f.t:
                    if x in la:
                        break
                else:
                    continue
                kl = dict(l.t).get(x)
                if kl is None or kl * k <= 0 or kl % k:
                    continue
                q = kl // k
                v = self._ub(add(l, f, -q))
                if v < best:
                    best = v
        return best

    def lb(self, l):
        return -self.ub(neg(l))

    def _ub(self, l):
        t = l.t
        if not t:
            return l.c
        if len(t) == 1:
            x, k = t[0]
            return l.c + (k * self.hi[x] if k > 0 else k * self.lo[x])
        pos = [(x, k) for x, k in t if k > 0]
        ng = [(x, -k) for x, k in t if k < 0]
        if len(pos) + len(ng) > 7:
            return l.c + sum(k * self.hi[x] for x, k in pos) - sum(k * self.lo[x] for x, k in ng)
        return l.c + self._match(pos, ng)

    def _match(self, pos, ng):
        if not pos:
            return -sum(k * self.lo[x] for x, k in ng)
        if not ng:
            return sum(k * self.hi[x] for x, k in pos)
        (x, k) = pos[0]
        best = k * self.hi[x] + self._match(pos[1:], ng)
        dx = self.d.get(x)
        if dx:
            for i, (y, m) in enumerate(ng):
                e = dx.get(y)
                if e is None:
                    continue
                q = min(k, m)
                np = pos[1:] if q == k else [(x, k - q)] + pos[1:]
                nn = ng[:i] + ng[i + 1:] if q == m else ng[:i] + [(y, m - q)] + ng[i + 1:]
                v = q * e + self._match(np, nn)
                if v < best:
                    best = v
        return best

    # -- raw updates; return False when empty
    def _setd(self, x, y, c):
        dx = self.d.get(x)
        if dx is None:
            self.d[x] = {y: c}
        else:
            dx = dx.copy()
            dx[y] = c
            self.d[x] = dx
        ry = self.r.get(y)
        if ry is None:
            self.r[y] = frozenset((x,))
        elif x not in ry:
            self.r[y] = ry | {x}

    def _hi(self, x, c):
        if c < self.hi[x]:
            self.hi[x] = c
            if c < self.lo[x]:
                return False
            for u in self.r.get(x, ()):
                v = c + self.d[u][x]
                if v < self.hi[u]:
                    self.hi[u] = v
                    if v < self.lo[u]:
                        return False
        return True

    def _lo(self, x, c):
        if c > self.lo[x]:
            self.lo[x] = c
            if c > self.hi[x]:
                return False
            for v, k in self.d.get(x, {}).items():
                w = c - k
                if w > self.lo[v]:
                    self.lo[v] = w
                    if w > self.hi[v]:
                        return False
        return True

    def _diff(self, x, y, c):
        if c >= self.db(x, y):
            return True
        if c + self.db(y, x) < 0:
            return False
        X = [(x, 0)] + [(u, self.d[u][x]) for u in self.r.get(x, ())]
        Y = [(y, 0)] + list(self.d.get(y, {}).items())
        for u, a in X:
            for v, b in Y:
                w = a + c + b
                if u == v:
                    if w < 0:
                        return False
                    continue
                if w < self.db(u, v):
                    self._setd(u, v, w)
        for u, a in X:
            for v, b in Y:
                if u == v:
                    continue
                w = a + c + b
                if not self._hi(u, self.hi[v] + w):
                    return False
                if not self._lo(v, self.lo[u] - w):
                    return False
        return True

    def _le(self, l):
        """l <= 0"""
        t = l.t
        if not t:
            return l.c <= 0
        g = 0
        for _, k in t:
            g = gcd(g, k)
        if g > 1:
            l = Lin(-((-l.c) // g), tuple((x, k // g) for x, k in t))
            t = l.t
        if len(t) == 1:
            x, k = t[0]
            if k > 0:
                return self._hi(x, -l.c)
            return self._lo(x, l.c)
        if len(t) == 2 and t[0][1] + t[1][1] == 0 and abs(t[0][1]) == 1:
            (x, kx), (y, ky) = t
            if kx < 0:
                x, y = y, x
            return self._diff(x, y, -l.c)
        if self.ub(l) <= 0:
            return True
        if self.lb(l) > 0:
            return False
        if l not in self.facts:
            self.facts = self.facts + (l,)
        # derived bounds
        for i, (x, k) in enumerate(t):
            rest = Lin(l.c, t[:i] + t[i + 1:])
            m = self.lb_nf(rest)
            if k > 0:
                if not self._hi(x, (-m) // k):
                    return False
            else:
                if not self._lo(x, -((-m) // (-k))):
                    return False
        if len(t) <= 4:
            for i in range(len(t)):
                for j in range(len(t)):
                    if t[i][1] == 1 and t[j][1] == -1:
                        rest = Lin(l.c, tuple(t[q] for q in range(len(t)) if q != i and q != j))
                        if not self._diff(t[i][0], t[j][0], -self.lb_nf(rest)):
                            return False
        return True

    def lb_nf(self, l):
        return -self._ub(neg(l))

    def _tighten(self):
        # disequalities and facts against current bounds
        for _ in range(12):
            ch = False
            if self.neq:
                keep = []
                for l in self.neq:
                    u = self.ub(l)
                    if u < 0:
                        continue
                    m = self.lb(l)
                    if m > 0:
                        continue
                    if u == 0:
                        if not self._le(addc(l, 1)):
                            return False
                        ch = True
                    elif m == 0:
                        if not self._le(addc(neg(l), 1)):
                            return False
                        ch = True
                    else:
                        keep.append(l)
                if len(keep) != len(self.neq):
                    self.neq = tuple(keep)
            for f in self.facts:
                if self.lb_nf(f) > 0:
                    return False
            if not ch:
                break
        return True

    # -- public
    def assume_le(self, l):
        return self._le(l) and self._tighten()

    def assume_eq(self, l):
        return self._le(l) and self._le(neg(l)) and self._tighten()

    @staticmethod
    def norm(l):
        if l.t and l.t[0][1] < 0:
            return neg(l)
        return l

    def assume_ne(self, l):
        if not l.t:
            return l.c != 0
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if l.c % g:
            return True
        if g > 1:
            l = Lin(l.c // g, tuple((x, k // g) for x, k in l.t))
        l = self.norm(l)
        if l not in self.neq:
            self.neq = self.neq + (l,)
        return self._tighten()

    def decide_eq0(self, l):
        """True/False/None: l == 0"""
        if not l.t:
            return l.c == 0
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if l.c % g:
            return False
        if g > 1:
            l = Lin(l.c // g, tuple((x, k // g) for x, k in l.t))
        u = self.ub(l)
        if u < 0:
            return False
        m = self.lb(l)
        if m > 0:
            return False
        if u == 0 and m == 0:
            return True
        if self.norm(l) in self.neq:
            return False
        if self.neq:
            # modulo known equalities with other atoms
            for n in self.neq:
                d = sub(self.norm(l), n)
                if self.ub(d) == 0 and self.lb(d) == 0:
                    return False
                d = add(self.norm(l), n)
                if self.ub(d) == 0 and self.lb(d) == 0:
                    return False
        return None

    def decide_le0(self, l):
        if self.ub(l) <= 0:
            return True
        if self.lb(l) > 0:
            return False
        return None

    def const(self, l):
        if not l.t:
            return l.c
        for x, k in l.t:
            if self.lo[x] != self.hi[x]:
                break
        else:
            return l.c + sum(k * self.lo[x] for x, k in l.t)
        return None

    def forget(self, atoms):
        atoms = set(atoms)
        for x in atoms:
            self.lo.pop(x, None)
            self.hi.pop(x, None)
            dx = self.d.pop(x, None)
            if dx:
                for y in dx:
                    ry = self.r.get(y)
                    if ry:
                        self.r[y] = ry - {x}
            rx = self.r.pop(x, None)
            if rx:
                for u in rx:
                    du = self.d.get(u)
                    if du and x in du:
                        du = du.copy()
                        del du[x]
                        self.d[u] = du
        if self.neq:
            self.neq = tuple(l for l in self.neq if not any(a in atoms for a, _ in l.t))
        if self.facts:
            self.facts = tuple(l for l in self.facts if not any(a in atoms for a, _ in l.t))

    def define(self, a, l, others):
        """fresh atom a := l (exact rows against `others`)"""
        self.new(a, self.lb(l), self.ub(l))
        la = Lin(0, ((a, 1),))
        for y in others:
            if y == a or y not in self.lo:
                continue
            ly = Lin(0, ((y, 1),))
            u = self.ub(sub(l, ly))
            if u < self.hi[a] - self.lo[y]:
                self._setd(a, y, u)
            u = self.ub(sub(ly, l))
            if u < self.hi[y] - self.lo[a]:
                self._setd(y, a, u)
