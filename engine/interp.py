"""Abstract interpreter over LLVM IR: zone domain, path-partitioned states, joins and
widening at loop heads.  It never executes the program and calls no solver."""
import time, os
from math import gcd
from domain import Lin, K, atom, add, sub, scale, neg, addc, subst, Zone
import llvmir


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Cat:
    """little-endian concatenation of (bytes, value)"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = tuple(p)

    def __eq__(self, o):
        return isinstance(o, Cat) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return 'Cat%r' % (self.p,)


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'Agg%r' % (self.v,)


class Slice:
    __slots__ = ('c', 'o')

    def __init__(self, c, o):
        self.c, self.o = c, o

    def __eq__(self, x):
        return isinstance(x, Slice) and self.c is x.c and self.o == x.o

    def __hash__(self):
        return hash((id(self.c), self.o))

    def __repr__(self):
        return 'Slice(%x,%r)' % (id(self.c) & 0xffff, self.o)


class Fill:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __eq__(self, x):
        return isinstance(x, Fill) and self.b == x.b

    def __hash__(self):
        return hash(('F', self.b))


class Content:
    __slots__ = ('base', 'cells', 'log', 'size')

    def __init__(self, base, size, cells=None, log=()):
        self.base, self.size = base, size
        self.cells = cells if cells is not None else {}
        self.log = log


class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'addr', 'const', 'gname')


class Fork(Exception):
    def __init__(self, alts, why=''):
        self.alts = alts
        self.why = why


class Dead(Exception):
    """the path is infeasible / ends here silently"""


class Alarm(Exception):
    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg


class EngineError(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'blk', 'idx', 'regs', 'prev', 'retins', 'tag', 'allocas', 'uid')

    def clone(self):
        f = Frame()
        f.fn, f.blk, f.idx, f.prev, f.retins, f.tag, f.uid = self.fn, self.blk, self.idx, self.prev, self.retins, self.tag, self.uid
        f.regs = self.regs.copy()
        f.allocas = self.allocas
        return f


class State:
    __slots__ = ('frames', 'mem', 'z', 'lazy', 'watch', 'loops', 'path', 'pend', 'pi', 'und', 'ui', 'cbdone', 'incb', 'norm', 'opt', 'steps', 'gobj', 'snaps', 'calls', 'dep')

    def clone(self):
        s = State()
        s.frames = self.frames[:-1] + [self.frames[-1].clone()]
        s.mem = self.mem.copy()
        s.z = self.z.copy()
        s.lazy = self.lazy.copy()
        s.watch = self.watch
        s.loops = self.loops.copy()
        s.path = self.path
        s.pend = self.pend
        s.und = self.und
        s.ui = 0
        s.pi = self.pi
        s.cbdone = self.cbdone
        s.incb = self.incb
        s.norm = self.norm.copy()
        s.opt = self.opt
        s.steps = self.steps
        s.gobj = self.gobj.copy()
        s.snaps = self.snaps
        s.calls = self.calls
        s.dep = self.dep
        return s


M64 = 1 << 64
EFFECT_FREE = ('fprintf', 'printf', 'puts', 'putchar', 'fputc', 'fputs', 'fwrite', 'fflush', 'perror', 'vfprintf')


class Engine:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.opts = dict(unroll=16, detunroll=700, maxsteps=6_000_000, maxtime=600, oob=False, effects=None)
        if opts:
            self.opts.update(opts)
        self.nat = 0
        self.objs = []
        self.addr_obj = {}
        self.ainfo = {}
        self.inv = {}
        self.excl = {}
        self.seenvals = {}
        self.violations = []
        self.vkeys = set()
        self.checks = {}
        self.reach = {}
        self.notes = {}
        self.instrs = 0
        self.paths = 0
        self.fncov = set()
        self.joins = 0
        self.forks = 0
        self.loopcov = set()
        self.nbase = 0
        self.frameuid = 0
        self.externs = {}
        self.trace = os.environ.get('VF_TRACE')
        self.entry = ''
        self.facts = {}
        self.maxiter = {}
        self.accesses = 0
        self.repo_calls = 0
        self.remembered = set()
        self.src = os.environ.get('VF_REPO', '/repo') + '/src/'
        big = [x for b in self.opts.get('sizes', ()) for x in range(max(b - 2, 0), b + 4)]
        self.thresholds = sorted(set([0, 1, 2, 3, 4, 5, 1 << 31, (1 << 32) - 1, 1 << 60, 1 << 61, 1 << 62, (1 << 63) - 1, (1 << 64) - 1] + big))

    # ------------------------------------------------------------ atoms, objects
    def newatom(self, st, lo, hi, info=''):
        self.nat += 1
        a = self.nat
        st.z.new(a, lo, hi)
        if info:
            self.ainfo[a] = info
        return a

    def fresh(self, st, nbytes, info=''):
        return Lin(0, ((self.newatom(st, 0, (1 << (8 * nbytes)) - 1, info), 1),))

    def newobj(self, st, name, size, kind, base, const=False):
        o = Obj()
        o.id = len(self.objs)
        o.name, o.size, o.kind, o.const = name, size, kind, const
        o.gname = None
        self.objs.append(o)
        self.nat += 1
        o.addr = self.nat
        self.addr_obj[o.addr] = o
        st.z.new(o.addr, 1 << 20, 1 << 46)
        st.mem[o.id] = Content(base, size)
        return o

    def newbase(self):
        self.nbase += 1
        return ('lazy', self.nbase)

    def globalobj(self, st, name):
        oid = st.gobj.get(name)
        if oid is not None:
            return self.objs[oid]
        fn = self.mod.fns.get(name)
        if fn is not None:
            o = self.newobj(st, fn.dem, 1, 'func', ('undef',), True)
            o.gname = name
        elif name in self.mod.globals:
            t, init, const = self.mod.global_init(name)
            any_value = init is not None and self.mod.remembers(name, self.src)
            o = self.newobj(st, name, t.size, 'global', ('zero',) if init is not None and not any_value else self.newbase(), const)
            o.gname = name
            st.gobj[name] = o.id
            if any_value:
                self.remembered.add(name)
            elif init is not None:
                cells = {}
                self.flatten(st, init, 0, cells)
                st.mem[o.id] = Content(('zero',), t.size, cells)
        else:
            o = self.newobj(st, name, 1 << 20, 'global', self.newbase())
            o.gname = name
        st.gobj[name] = o.id
        return o

    def flatten(self, st, d, off, cells):
        k = d[0]
        if k == 'c':
            cells[off] = (max(1, d[2] // 8), K(d[1]))
        elif k == 'g':
            cells[off] = (8, addc(atom(self.globalobj(st, d[1]).addr), d[2]))
        elif k == 'agg':
            t = d[1]
            if t.k == 's':
                for (o, _), e in zip(t.elems, d[2]):
                    self.flatten(st, e, off + o, cells)
            else:
                es = t.elems[0].size
                for i, e in enumerate(d[2]):
                    self.flatten(st, e, off + i * es, cells)

    # ------------------------------------------------------------ numeric decisions
    def choose(self, st, n, why=''):
        if st.pi < len(st.pend):
            v = st.pend[st.pi]
            st.pi += 1
            return v
        raise Fork([[('push', i)] for i in range(n)], why)

    def eq0(self, st, l, why=''):
        r = st.z.decide_eq0(l)
        if r is None:
            raise Fork([[('eq', l)], [('ne', l)]], why)
        return r

    def le0(self, st, l, why=''):
        r = st.z.decide_le0(l)
        if r is None:
            raise Fork([[('le', l)], [('le', addc(neg(l), 1))]], why)
        return r

    def addrs(self, l):
        return [(x, k) for x, k in l.t if x in self.addr_obj]

    def lin(self, st, v, nbytes=8):
        """value -> Lin"""
        if isinstance(v, Lin):
            return v
        if v is UNDEF:
            return self.unk(st, nbytes, 'undef')
        if isinstance(v, Cat):
            r = K(0)
            sh = 0
            for n, p in v.p:
                q = self.norm_u(st, self.lin(st, p, n), 8 * n)
                if self.addrs(q) and sh:
                    return self.unk(st, nbytes, 'mixed')
                r = add(r, q, 1 << (8 * sh))
                sh += n
            return r
        return self.unk(st, nbytes, 'opaque')

    def unk(self, st, nbytes, info):
        """an unknown value; the same one when the instruction is executed again after a fork"""
        i = st.ui
        st.ui += 1
        if i < len(st.und) and st.und[i][0] == nbytes:
            return st.und[i][1]
        v = self.fresh(st, nbytes, info)
        st.und = st.und[:i] + ((nbytes, v),)
        return v

    def norm_u(self, st, l, w, signed=False):
        M = 1 << w
        H = M >> 1 if signed else 0
        if not l.t:
            c = (l.c + H) % M - H
            return l if c == l.c else Lin(c)
        if self.addrs(l):
            ad = self.addrs(l)
            if w == 64 and len(ad) == 1 and ad[0][1] == 1:
                return l
            if len(ad) == 2 and sorted(k for _, k in ad) == [-1, 1] and w == 64:
                return self.opaque(st, l, w, signed)
            return self.opaque(st, l, w, signed)
        lo, hi = st.z.lb(l), st.z.ub(l)
        a, b = (lo + H) // M, (hi + H) // M
        if a == b:
            return l if a == 0 else Lin(l.c - a * M, l.t, l.rng)
        if b - a <= 2:
            cut = (a + 1) * M - H
            # l < cut | l >= cut
            self.le0(st, addc(l, 1 - cut), 'wrap')
            return self.norm_u(st, l, w, signed)
        return self.opaque(st, l, w, signed)

    def norm_s(self, st, l, w):
        return self.norm_u(st, l, w, True)

    def opaque(self, st, l, w, signed=False):
        key = (l, w, signed)
        a = st.norm.get(key)
        if a is None or a not in st.z.lo:
            H = 1 << (w - 1) if signed else 0
            a = self.newatom(st, -H, (1 << w) - 1 - H, 'opaque')
            st.norm[key] = a
        return Lin(0, ((a, 1),))

    def icmp(self, st, pred, a, b, w, why):
        nb = (w + 7) // 8
        a = self.lin(st, a, nb)
        b = self.lin(st, b, nb)
        if a == b:
            return pred in ('eq', 'uge', 'ule', 'sge', 'sle')
        d = sub(a, b)
        ad = self.addrs(d)
        if ad:
            if pred in ('eq', 'ne'):
                if len(ad) <= 2:
                    return pred == 'ne'
                return bool(self.choose(st, 2, why))
            if len(ad) == 1 and ad[0][1] == 1:
                return pred in ('ugt', 'uge', 'sgt', 'sge')
            if len(ad) == 1 and ad[0][1] == -1:
                return pred in ('ult', 'ule', 'slt', 'sle')
            return bool(self.choose(st, 2, why))
        if pred in ('eq', 'ne'):
            M = 1 << w
            lo, hi = st.z.lb(d), st.z.ub(d)
            k1 = -((-lo) // M)
            k2 = hi // M
            if k1 > k2:
                return pred == 'ne'
            if k1 == k2:
                r = self.eq0(st, addc(d, -k1 * M), why)
                return r if pred == 'eq' else not r
            a, b = self.norm_u(st, a, w), self.norm_u(st, b, w)
            r = self.eq0(st, sub(a, b), why)
            return r if pred == 'eq' else not r
        s = pred[0] == 's'
        a, b = self.norm_u(st, a, w, s), self.norm_u(st, b, w, s)
        op = pred[1:]
        if op == 'lt':
            return self.le0(st, addc(sub(a, b), 1), why)
        if op == 'le':
            return self.le0(st, sub(a, b), why)
        if op == 'gt':
            return self.le0(st, addc(sub(b, a), 1), why)
        return self.le0(st, sub(b, a), why)

    # ------------------------------------------------------------ memory
    def rel(self, st, off, n, eo, en):
        """relation of access [off,off+n) to entry [eo,eo+en): ('dis',) ('in',delta) ('part',)"""
        D = sub(off, eo)
        z = st.z
        if not D.t:
            c = D.c
            if c >= en or c <= -n:
                return ('dis', None)
            if 0 <= c and c + n <= en:
                return ('in', D)
            return ('part', None)
        g = 0
        for _, k in D.t:
            g = gcd(g, k)
        r = D.c % g
        if r >= en and g - r >= n:
            return ('dis', None)
        lo, hi = z.lb(D), z.ub(D)
        if lo >= en or hi <= -n:
            return ('dis', None)
        if lo >= 0 and hi <= en - n:
            return ('in', D if lo != hi else K(lo))
        vals = []
        v = -n + 1 + ((r - (-n + 1)) % g)
        while v < en and len(vals) < 3:
            vals.append(v)
            v += g
        if len(vals) == 1 and 0 <= vals[0] <= en - n:
            v = vals[0]
            e = z.decide_eq0(addc(D, -v))
            if e is True:
                return ('in', K(v))
            if e is False:
                return ('dis', None)
            raise Fork([[('eq', addc(D, -v))], [('ne', addc(D, -v))]], 'alias')
        if self.le0(st, addc(D, n), 'alias'):
            return ('dis', None)
        if self.le0(st, addc(neg(D), en), 'alias'):
            return ('dis', None)
        if n < en and self.le0(st, neg(D), 'alias') and self.le0(st, addc(D, n - en), 'alias'):
            lo, hi = z.lb(D), z.ub(D)
            return ('in', D if lo != hi else K(lo))
        return ('part', None)

    def extract(self, st, ev, delta, n, en):
        if isinstance(ev, Slice):
            return self.read_content(st, ev.c, add(ev.o, delta), n)
        if isinstance(ev, Fill):
            b = ev.b
            if b == 0:
                return K(0)
            return K(int.from_bytes(bytes([b]) * n, 'little'))
        if ev is UNDEF:
            return UNDEF
        if delta.t:
            return self.fresh(st, n, 'symbolic subfield')
        d = delta.c
        if d == 0 and n == en:
            return ev
        if isinstance(ev, Cat):
            o = 0
            parts = []
            for m, p in ev.p:
                if o < d + n and d < o + m:
                    a, b = max(o, d), min(o + m, d + n)
                    parts.append((b - a, self.extract(st, p, K(a - o), b - a, m)))
                o += m
            if len(parts) == 1:
                return parts[0][1]
            return Cat(parts)
        if isinstance(ev, Lin):
            if not ev.t:
                return K((ev.c % (1 << (8 * en)) >> (8 * d)) & ((1 << (8 * n)) - 1))
            if d == 0 and not self.addrs(ev):
                return ev
        return self.fresh(st, n, 'subfield')

    def read_content(self, st, c, off, n):
        for eo, en, ev in reversed(c.log):
            k, dl = self.rel(st, off, n, eo, en)
            if k == 'dis':
                continue
            if k == 'in':
                return self.extract(st, ev, dl, n, en)
            return self.split_read(st, c, off, n)
        if not off.t:
            o = off.c
            e = c.cells.get(o)
            if e is not None and e[0] == n and not isinstance(e[1], (Slice, Fill)):
                return e[1]
            if c.cells:
                hit = False
                for co, (cn, cv) in c.cells.items():
                    if o < co + cn and co < o + n:
                        if co <= o and o + n <= co + cn:
                            return self.extract(st, cv, K(o - co), n, cn)
                        hit = True
                if hit:
                    return self.split_read(st, c, off, n)
        else:
            for co, (cn, cv) in sorted(c.cells.items()):
                k, dl = self.rel(st, off, n, K(co), cn)
                if k == 'dis':
                    continue
                if k == 'in':
                    return self.extract(st, cv, dl, n, cn)
                return self.split_read(st, c, off, n)
        b = c.base
        if b[0] == 'undef':
            return UNDEF
        if b[0] == 'zero':
            return K(0)
        if b[0] == 'vol':
            return self.vol_read(st, b, off, n)
        bid = b[1]
        memo = st.lazy.get(bid, ())
        for mo, mn, mv in memo:
            if mo == off and mn == n:
                return mv
        for mo, mn, mv in memo:
            k, dl = self.rel(st, off, n, mo, mn)
            if k == 'dis':
                continue
            if k == 'in':
                return self.extract(st, mv, dl, n, mn)
            return self.split_read(st, c, off, n)
        v = self.fresh(st, n, 'in%d' % bid)
        st.lazy[bid] = memo + ((off, n, v),)
        return v

    def vol_read(self, st, b, off, n):
        if not off.t:
            for lo, m, a, z in b[1]:
                if off.c == lo and n == m:
                    return Lin(0, ((self.newatom(st, a, z, 'volatile'), 1),))
        return self.fresh(st, n, 'volatile')

    def split_read(self, st, c, off, n):
        if n == 1:
            return self.fresh(st, n, 'overlap')
        h = n // 2
        a = self.read_content(st, c, off, h)
        b = self.read_content(st, c, addc(off, h), n - h)
        pa = a.p if isinstance(a, Cat) else ((h, a),)
        pb = b.p if isinstance(b, Cat) else ((n - h, b),)
        return Cat(pa + pb)

    def write_content(self, st, c, off, n, v):
        if not off.t and not c.log:
            o = off.c
            e = c.cells.get(o)
            cells = c.cells.copy()
            if e is None or e[0] != n:
                for co, (cn, cv) in list(cells.items()):
                    if o < co + cn and co < o + n:
                        del cells[co]
                        if co < o:
                            cells[co] = (o - co, self.piece(st, cv, 0, o - co, cn))
                        if co + cn > o + n:
                            cells[o + n] = (co + cn - o - n, self.piece(st, cv, o + n - co, co + cn - o - n, cn))
            cells[o] = (n, v)
            return Content(c.base, c.size, cells)
        log = []
        for e in c.log:
            eo, en, ev = e
            if en <= n:
                D = sub(eo, off)
                if (not D.t and 0 <= D.c and D.c + en <= n) or (D.t and st.z.lb(D) >= 0 and st.z.ub(D) <= n - en):
                    continue
            log.append(e)
        log.append((off, n, v))
        return Content(c.base, c.size, c.cells, tuple(log))

    def piece(self, st, v, d, n, en):
        if isinstance(v, Slice):
            return Slice(v.c, addc(v.o, d))
        if isinstance(v, Fill) or v is UNDEF:
            return v
        return self.extract(st, v, K(d), n, en)

    def ptr(self, st, v, what):
        if not isinstance(v, Lin):
            raise Alarm('pointer', '%s through an undefined pointer' % what)
        ad = self.addrs(v)
        if len(ad) != 1 or ad[0][1] != 1:
            c = st.z.const(v) if v.t else v.c
            if c == 0 and not ad:
                raise Alarm('pointer', '%s through a null pointer' % what)
            raise Alarm('pointer', '%s through an invalid pointer (%r)' % (what, v))
        o = self.addr_obj[ad[0][0]]
        off = Lin(v.c, tuple(x for x in v.t if x[0] != o.addr))
        return o, off, v.rng

    def access(self, st, v, n, what):
        """bounds check; returns obj, offset"""
        o, off, rng = self.ptr(st, v, what)
        self.accesses += 1
        if o.id not in st.mem:
            raise Alarm('lifetime', '%s of %d bytes of %s after its lifetime ended' % (what, n, o.name))
        if not self.le0(st, neg(off), 'bounds') or not self.le0(st, addc(off, n - o.size), 'bounds'):
            raise Alarm('bounds', '%s of %d bytes outside %s (size %d)' % (what, n, o.name, o.size))
        if rng is not None and self.opts['oob']:
            lo, sz = rng
            D = sub(off, lo)
            if not self.le0(st, neg(D), 'bounds') or not self.le0(st, addc(D, n - sz), 'bounds'):
                raise Alarm('bounds', '%s of %d bytes outside the array of %d bytes inside %s' % (what, n, sz, o.name))
        return o, off

    def check_watch(self, st, o, off, n, write, atomic=False):
        if write and o.kind == 'global' and st.opt.get('noglobals') and '/verif/' not in (st.frames[-1].fn.file or '') and n:
            raise Alarm('effect', 'write to the static object %s' % o.name)
        if st.incb or not st.watch:
            return
        for w in st.watch:
            kind, oid, lo, ln, data = w
            if oid != o.id:
                continue
            if kind == 'nowrite':
                if not write:
                    continue
                if n == 0:
                    continue
                if self.rel(st, off, n, lo, ln)[0] != 'dis':
                    raise Alarm('effect', 'write of %d bytes to %s: %s' % (n, o.name, data))
            elif kind == 'noaccess':
                if self.rel(st, off, n, lo, ln)[0] != 'dis':
                    raise Alarm('effect', 'access of %d bytes of %s: %s' % (n, o.name, data))
            elif kind == 'noplain':
                if not atomic and self.rel(st, off, n, lo, ln)[0] != 'dis':
                    raise Alarm('effect', 'non-atomic %s of %d bytes of %s: %s' % ('write' if write else 'read', n, o.name, data))

    def watch_cb(self, st, v, n, kinds):
        """callback frames to push before this access"""
        if st.incb or not st.watch or not isinstance(v, Lin):
            return False
        if st.cbdone:
            return False
        todo = []
        for w in st.watch:
            kind, oid, lo, ln, data = w
            if kind in kinds:
                o, off, _ = self.ptr(st, v, 'access')
                if o.id == oid and self.rel(st, off, n, lo, ln)[0] != 'dis':
                    todo.append((kinds.index(kind), data, o, off))
        if not todo:
            return False
        todo.sort(key=lambda t: t[0])
        if len(todo) > 1 and todo[0][0] == todo[1][0]:
            raise EngineError('several callbacks on one access')
        _, data, o, off = todo[0]
        fr = self.push(st, data, [v, K(n)], None, 'cb')
        st.incb += 1
        return True

    def load(self, st, v, n, atomic=False, what='read'):
        o, off = self.access(st, v, n, what)
        self.check_watch(st, o, off, n, False, atomic)
        r = self.read_content(st, st.mem[o.id], off, n)
        return r

    def store(self, st, v, n, val, atomic=False, what='write'):
        o, off = self.access(st, v, n, what)
        if o.const:
            raise Alarm('bounds', 'write to constant %s' % o.name)
        self.check_watch(st, o, off, n, True, atomic)
        st.mem[o.id] = self.write_content(st, st.mem[o.id], off, n, val)

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        so, soff = self.access(st, s, n, 'memcpy read')
        do, doff = self.access(st, d, n, 'memcpy write')
        if do.const:
            raise Alarm('bounds', 'write to constant %s' % do.name)
        self.check_watch(st, so, soff, n, False)
        self.check_watch(st, do, doff, n, True)
        if n <= 8 and n in (1, 2, 4, 8):
            val = self.read_content(st, st.mem[so.id], soff, n)
        else:
            c = st.mem[so.id]
            val = None
            if not soff.t and not c.log:
                e = c.cells.get(soff.c)
                if e is not None and e[0] == n:
                    val = e[1]
            if val is None:
                val = Slice(c, soff)
        st.mem[do.id] = self.write_content(st, st.mem[do.id], doff, n, val)

    # ------------------------------------------------------------ frames
    def push(self, st, fn, args, retins, tag=None):
        blocks = self.mod.body(fn)
        f = Frame()
        f.fn, f.blk, f.idx, f.prev, f.retins, f.tag = fn, 0, 0, -1, retins, tag
        f.regs = {}
        f.allocas = ()
        self.frameuid += 1
        f.uid = self.frameuid
        for (rid, t), a in zip(fn.params, args):
            f.regs[rid] = a
        if tag is None and retins is not None and '/verif/' not in (fn.file or '/verif/'):
            self.repo_calls += 1
            st.calls = (st.calls, fn.dem, retins.file, retins.line)
        if len(st.frames) > 200:
            raise Alarm('recursion', 'call depth exceeds 200 at %s' % fn.dem)
        st.frames.append(f)
        self.fncov.add(fn.name)
        return f

    def pop(self, st, val):
        f = st.frames.pop()
        if f.allocas:
            for oid in f.allocas:
                st.mem.pop(oid, None)
            dead = set(f.allocas)
            st.z.forget([self.objs[o].addr for o in f.allocas if not self.escaped(o)])
        # drop loop counters of the frame
        dep = len(st.frames)
        if st.loops:
            for k in [k for k in st.loops if k[0] > dep]:
                del st.loops[k]
        if not st.frames:
            self.paths += 1
            return False
        st.frames[-1] = p = st.frames[-1].clone()
        if f.tag == 'cb':
            st.incb -= 1
            st.cbdone = True
            return 'cb'
        if f.tag == 'post':
            st.incb -= 1
            return True
        ins = f.retins
        if ins is None:
            return True
        if ins.ty.k != 'v':
            p.regs[ins.id] = val
        if ins.op == 'invoke':
            return self.goto(st, ins.x[2])
        p.idx += 1
        return True

    def escaped(self, oid):
        return True

    def goto(self, st, b):
        """branch in the top frame; False when the path is subsumed"""
        f = st.frames[-1]
        old = f.blk
        blk = f.fn.blocks[b]
        if blk.phis:
            new = [(p.id, self.val(st, f, p.ops[old])) for p in blk.phis]
            for i, v in new:
                f.regs[i] = v
        f.prev, f.blk, f.idx = old, b, 0
        if blk.loophead:
            return self.loophead(st, f, blk, old)
        d = st.dep
        if d is not None and d[2] == f.uid and old in d[3] and b not in d[3]:
            # out of a loop: once it is known what the loop does
            for i, s in enumerate(self.work):
                if s.dep is not None and s.dep[0] == d[0]:
                    st.dep = d[:2] + (None, ())
                    self.work.insert(i, st)
                    return False
        return True

    def val(self, st, f, o):
        k = o[0]
        if k == 'r':
            return f.regs[o[1]]
        if k == 'c':
            w = o[2]
            c = o[1]
            if w > 1 and c >= 1 << (w - 1) and w <= 64:
                c -= 1 << w
            if w > 64:
                return Cat([(8, K((c >> (64 * i)) & (M64 - 1))) for i in range(w // 64)])
            return K(c)
        if k == 'g':
            ob = self.globalobj(st, o[1])
            return Lin(o[2], ((ob.addr, 1),))
        if k == 'undef':
            if o[1].k == 's':
                return Agg([UNDEF] * o[1].n)
            return UNDEF
        if k == 'zero':
            t = o[1]
            if t.k == 's':
                return Agg([K(0)] * t.n)
            return K(0)
        if k == 'agg':
            return Agg([self.val(st, f, e) for e in o[2]])
        if k == 'f':
            return UNDEF
        return UNDEF

    # ------------------------------------------------------------ run
    def where(self, st):
        out = []
        for f in reversed(st.frames):
            b = f.fn.blocks[f.blk]
            if f.idx < len(b.ins):
                i = b.ins[f.idx]
                out.append((i.file or f.fn.file, i.line or 0, f.fn.dem))
            else:
                out.append((f.fn.file, 0, f.fn.dem))
        return out

    def violation(self, st, kind, msg, label=None):
        w = self.where(st)
        # innermost frame in the repository
        site = None
        for x in w:
            if '/verif/' not in x[0] and '/usr/' not in x[0] and x[0]:
                site = x
                break
        calls = []
        c = st.calls
        while c and len(calls) < 60:
            calls.append((c[2], c[3], 'call of ' + c[1]))
            c = c[0]
        if site is None and calls:
            # the check is in the harness: point at the last call into the repository
            for x in calls:
                if '/verif/' in x[0] or site is None:
                    site = x
                    break
        key = (kind, label or msg, w[0][0], w[0][1])
        if key in self.vkeys:
            return
        self.vkeys.add(key)
        path = []
        p = st.path
        while p and len(path) < 400:
            path.append(p[1])
            p = p[0]
        path.reverse()
        self.violations.append(dict(kind=kind, msg=msg, label=label, entry=self.entry, site=site, stack=w, path=path, calls=calls))

    def initial(self):
        st = State()
        st.frames = []
        st.mem = {}
        st.z = Zone()
        st.lazy = {}
        st.watch = ()
        st.loops = {}
        st.path = None
        st.pend = st.und = ()
        st.ui = 0
        st.pi = 0
        st.cbdone = False
        st.incb = 0
        st.norm = {}
        st.opt = {}
        st.steps = 0
        st.gobj = {}
        st.snaps = {}
        st.calls = None
        st.dep = None
        return st

    def run(self, name):
        self.entry = name
        self.t0 = time.time()
        fn = self.mod.fns.get(name)
        if fn is None or fn.decl:
            raise EngineError('no entry ' + name)
        st = self.initial()
        self.push(st, fn, [], None)
        work = self.work = [st]
        while work:
            st = work.pop()
            if st.dep is not None and self.inv[st.dep[0]][1] != st.dep[1]:
                # what it follows from is part of what the head of that loop is visited with by now
                continue
            try:
                self.step_path(st, work)
            except Dead:
                pass
            if self.instrs > self.opts['maxsteps']:
                raise EngineError('step budget exceeded in %s' % name)
            if time.time() - self.t0 > self.opts['maxtime']:
                raise EngineError('time budget exceeded in %s' % name)

    def step_path(self, st, work):
        D = self.DISP
        while True:
            f = st.frames[-1]
            ins = f.fn.blocks[f.blk].ins[f.idx]
            st.pi = st.ui = 0
            self.instrs += 1
            if self.trace:
                print('%*s%s:%d %s' % (len(st.frames), '', f.fn.dem[:40], ins.line, ins))
            try:
                h = D.get(ins.op)
                if h is None:
                    raise EngineError('unsupported instruction %s in %s' % (ins.op, f.fn.dem))
                r = h(self, st, f, ins)
                if r is None:
                    f.idx += 1
                elif r is False:
                    return
                if r != 'again':
                    if st.pend:
                        st.pend = ()
                    if st.und:
                        st.und = ()
                    if r != 'cb':
                        st.cbdone = False
            except Fork as e:
                self.forks += 1
                alts = e.alts
                alive = []
                for i, alt in enumerate(alts):
                    s = st.clone() if i < len(alts) - 1 else st
                    if e.why not in ('wrap', 'alias', 'bounds') or True:
                        s.path = (s.path, (ins.file, ins.line, e.why, i))
                    if self.apply(s, alt):
                        alive.append(s)
                if not alive:
                    return
                for s in reversed(alive[1:]):
                    work.append(s)
                st = alive[0]
                if self.instrs > self.opts['maxsteps'] or time.time() - self.t0 > self.opts['maxtime']:
                    raise EngineError('budget exceeded')
            except Alarm as a:
                if st.opt.get('liveness') and a.kind not in ('termination', 'recursion', 'check'):
                    # only whether it ends is asked
                    return
                self.violation(st, a.kind, a.msg)
                return
            if not st.frames:
                self.paths += 1
                return

    def apply(self, s, alt):
        for k, a in alt:
            if k == 'push':
                s.pend = s.pend + (a,)
            elif k == 'eq':
                if not s.z.assume_eq(a):
                    return False
            elif k == 'ne':
                if not s.z.assume_ne(a):
                    return False
            elif k == 'le':
                if not s.z.assume_le(a):
                    return False
        return True

    # ------------------------------------------------------------ instructions
    def i_alloca(self, st, f, ins):
        cnt = self.val(st, f, ins.ops[0])
        n = st.z.const(self.lin(st, cnt))
        if n is None:
            raise EngineError('variable-length alloca')
        o = self.newobj(st, '%s:alloca(%s:%d)' % (f.fn.dem.split('(')[0][-40:], os.path.basename(f.fn.file), f.fn.line), ins.x.size * n, 'stack', ('undef',))
        f.allocas = f.allocas + (o.id,)
        f.regs[ins.id] = atom(o.addr)

    def conv_load(self, st, v, t):
        return v

    def i_load(self, st, f, ins):
        p = self.val(st, f, ins.ops[0])
        t = ins.ty
        n = t.store
        at = ins.x[0] != 'na'
        if self.watch_cb(st, p, n, ('cb_load', 'cb_any')):
            return 'cb'
        if at:
            self.atomic_note(st, ins, p, 'load', ins.x[0], None, n)
        if t.k == 's':
            f.regs[ins.id] = Agg([self.load(st, addc(p, o), e.store, at) for o, e in t.elems])
            return
        v = self.load(st, p, n, at)
        if t.k == 'i' and t.w > 64 and isinstance(v, Lin) and not v.t:
            v = Cat([(8, K((v.c >> (64 * i)) & (M64 - 1))) for i in range(t.w // 64)])
        f.regs[ins.id] = v

    def i_store(self, st, f, ins):
        p = self.val(st, f, ins.ops[1])
        v = self.val(st, f, ins.ops[0])
        t = ins.x[1]
        at = ins.x[0] != 'na'
        if self.watch_cb(st, p, t.store, ('cb_store', 'cb_any')):
            return 'cb'
        if at:
            self.atomic_note(st, ins, p, 'store', ins.x[0], None, t.store)
        if isinstance(v, Agg):
            if t.k == 's':
                for (o, e), x in zip(t.elems, v.v):
                    self.store(st, addc(p, o), e.store, x, at)
                return
            raise EngineError('aggregate store')
        if t.k == 'f':
            v = UNDEF
        if isinstance(v, Lin) and v.rng is not None and False:
            pass
        self.store(st, p, t.store, v, at)

    def i_gep(self, st, f, ins):
        off, var, arr = ins.x
        p = self.val(st, f, ins.ops[0])
        if p is UNDEF or not isinstance(p, Lin):
            p = self.lin(st, p)
        rng = p.rng
        r = Lin(p.c + off, p.t)
        pre = None
        for i, (sc, k, w) in enumerate(var):
            x = self.lin(st, self.val(st, f, ins.ops[k]), (w + 7) // 8)
            if w < 64:
                x = self.norm_s(st, x, w)
            if arr is not None and arr[1] == i:
                pre = r
            r = add(r, x, sc)
        if arr is not None:
            if pre is None:
                pre = r
            # start of the innermost array, as an offset from its object
            base = add(pre, K(arr[0] - off))
            ad = self.addrs(base)
            if len(ad) == 1:
                rng = (Lin(base.c, tuple(x for x in base.t if x[0] != ad[0][0])), arr[2])
                # single-element access
        elif var and not ins.ops:
            rng = None
        r.rng = rng
        f.regs[ins.id] = r

    def ar(self, st, f, ins):
        w = ins.ty.w
        nb = (w + 7) // 8
        a = self.val(st, f, ins.ops[0])
        b = self.val(st, f, ins.ops[1])
        return self.lin(st, a, nb), self.lin(st, b, nb), w

    def fit(self, l, w):
        """keep constants small"""
        M = 1 << w
        H = M >> 1
        if -H <= l.c < H:
            return l
        return Lin((l.c + H) % M - H, l.t, l.rng)

    def i_add(self, st, f, ins):
        a, b, w = self.ar(st, f, ins)
        r = add(a, b)
        f.regs[ins.id] = self.fit(r, w)
        if ins.x:
            self.nsw(st, f, ins, a, b, r, w)

    def i_sub(self, st, f, ins):
        a, b, w = self.ar(st, f, ins)
        r = sub(a, b)
        f.regs[ins.id] = self.fit(r, w)
        if ins.x:
            self.nsw(st, f, ins, a, b, r, w, True)

    def nsw(self, st, f, ins, a, b, r, w, sub_=False):
        H = 1 << (w - 1)
        z = st.z
        if r.t and not self.addrs(r) and (a.t or b.t):
            if sub_ and a.t and b.t and not self.addrs(a) and not self.addrs(b):
                # as signed numbers, of which the difference is one
                a = self.norm_s(st, a, w)
                b = self.norm_s(st, b, w)
                r = sub(a, b)
            if z.lb(a) >= -H and z.ub(a) < H and z.lb(b) >= -H and z.ub(b) < H:
                if z.ub(r) >= H or z.lb(r) < -H:
                    # signed overflow is undefined behaviour: assumed absent
                    if not z.assume_le(addc(r, 1 - H)) or not z.assume_le(addc(neg(r), -H)):
                        raise Dead()
                    self.notes['signed overflow assumed absent'] = self.notes.get('signed overflow assumed absent', 0) + 1
                f.regs[ins.id] = r

    def i_mul(self, st, f, ins):
        a, b, w = self.ar(st, f, ins)
        ca, cb = st.z.const(a), st.z.const(b)
        if cb is not None:
            r = scale(a, cb)
        elif ca is not None:
            r = scale(b, ca)
        else:
            x, y = (a, b) if repr(a) <= repr(b) else (b, a)
            r = self.opaque(st, Lin(0, (('mul', x, y),)) if False else Lin(hash((x, y)) & 0xffffffff, x.t), w) if False else self.nonlin(st, ('mul', x, y), w)
        f.regs[ins.id] = self.fit(r, w)
        if ins.x and (cb is not None or ca is not None):
            self.nsw(st, f, ins, a, b, r, w)

    def nonlin(self, st, key, w, lo=0, hi=None):
        key = key + (w,)
        a = st.norm.get(key)
        if a is None or a not in st.z.lo:
            a = self.newatom(st, lo, (1 << w) - 1 if hi is None else hi, str(key[0]))
            st.norm[key] = a
        return Lin(0, ((a, 1),))

    def divmod_(self, st, f, ins, signed):
        a, b, w = self.ar(st, f, ins)
        a, b = self.norm_u(st, a, w, signed), self.norm_u(st, b, w, signed)
        c = st.z.const(b)
        if c == 0:
            raise Alarm('arith', 'division by zero')
        if c is None:
            if not signed:
                # x % y with x < y, or x < 2y
                if not self.le0(st, addc(neg(b), 1), 'div by zero'):
                    raise Alarm('arith', 'division by zero')
                if self.le0(st, addc(sub(a, b), 1), 'div'):
                    return K(0), a
                if self.le0(st, addc(add(a, b, -2), 1), 'div'):
                    return K(1), sub(a, b)
                q = self.nonlin(st, ('udiv', a, b), w)
                r = self.nonlin(st, ('urem', a, b), w)
                if not st.z.assume_le(addc(sub(r, b), 1)):
                    raise Dead()
                return q, r
            return self.nonlin(st, ('sdiv', a, b), w, -(1 << (w - 1)), (1 << (w - 1)) - 1), self.nonlin(st, ('srem', a, b), w, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        if c < 0:
            return self.nonlin(st, ('sdiv', a, b), w, -(1 << (w - 1)), (1 << (w - 1)) - 1), self.nonlin(st, ('srem', a, b), w, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        ca = st.z.const(a)
        if ca is not None:
            q = abs(ca) // c
            if ca < 0:
                q = -q
            return K(q), K(ca - q * c)
        if signed and not self.le0(st, neg(a), 'sign'):
            # negative dividend: truncate towards zero
            q, r = self.udivc(st, neg(a), c, w)
            return neg(q), neg(r)
        return self.udivc(st, a, c, w)

    def udivc(self, st, a, c, w):
        lo, hi = st.z.lb(a), st.z.ub(a)
        q0, q1 = lo // c, hi // c
        if q0 == q1:
            return K(q0), addc(a, -q0 * c)
        if q1 - q0 <= 2:
            cut = (q0 + 1) * c
            self.le0(st, addc(a, 1 - cut), 'div')
            return self.udivc(st, a, c, w)
        key = ('divc', a, c)
        q = self.nonlin(st, key, w, q0, q1)
        r = addc(add(a, q, -c), 0)
        rk = ('remc', a, c)
        new = rk + (w,) not in st.norm
        ra = self.nonlin(st, rk, w, 0, c - 1)
        if new:
            if not st.z.assume_eq(sub(r, ra)):
                raise Dead()
        return q, r

    def i_udiv(self, st, f, ins):
        f.regs[ins.id] = self.divmod_(st, f, ins, False)[0]

    def i_urem(self, st, f, ins):
        f.regs[ins.id] = self.divmod_(st, f, ins, False)[1]

    def i_sdiv(self, st, f, ins):
        f.regs[ins.id] = self.divmod_(st, f, ins, True)[0]

    def i_srem(self, st, f, ins):
        f.regs[ins.id] = self.divmod_(st, f, ins, True)[1]

    def i_bit(self, st, f, ins):
        w = ins.ty.w
        if w > 64:
            return self.i_wide(st, f, ins)
        a, b, w = self.ar(st, f, ins)
        ca, cb = st.z.const(a), st.z.const(b)
        M = (1 << w) - 1
        op = ins.op
        if ca is not None and cb is not None:
            ca &= M
            cb &= M
            r = ca & cb if op == 'and' else ca | cb if op == 'or' else ca ^ cb
            f.regs[ins.id] = self.fit(K(r), w) if w > 1 else K(r)
            return
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if cb is not None:
            c = cb & M
            if op == 'and':
                if c == 0:
                    r = K(0)
                elif c == M:
                    r = a
                elif c & (c + 1) == 0:
                    u = self.norm_u(st, a, w)
                    r = u if st.z.ub(u) <= c else self.udivc(st, u, c + 1, w)[1]
                else:
                    r = self.nonlin(st, ('and', a, c), w, 0, c)
            elif op == 'or':
                r = a if c == 0 else K(-1) if c == M else self.nonlin(st, ('or', a, c), w)
            else:
                r = a if c == 0 else addc(neg(a), -1) if c == M else self.nonlin(st, ('xor', a, c), w)
                if w == 1 and c == 1:
                    r = addc(neg(a), 1)
        else:
            if a == b:
                r = K(0) if op == 'xor' else a
            else:
                x, y = (a, b) if repr(a) <= repr(b) else (b, a)
                r = self.nonlin(st, (op, x, y), w)
        f.regs[ins.id] = r

    def i_wide(self, st, f, ins):
        a = self.val(st, f, ins.ops[0])
        b = self.val(st, f, ins.ops[1])
        n = ins.ty.w // 64
        if ins.op in ('shl', 'lshr'):
            c = self.val(st, f, ins.ops[1])
            k = c.p[0][1].c if isinstance(c, Cat) else c.c
            if k % 64 == 0 and isinstance(a, Cat) and all(m == 8 for m, _ in a.p):
                k //= 64
                z = [(8, K(0))] * k
                f.regs[ins.id] = Cat(list(a.p[k:]) + z) if ins.op == 'lshr' else Cat((z + list(a.p))[:n])
                return
        if ins.op == 'or' and isinstance(a, Cat) and isinstance(b, Cat) and len(a.p) == len(b.p):
            out = []
            for (m, x), (m2, y) in zip(a.p, b.p):
                if x == K(0):
                    out.append((m, y))
                elif y == K(0):
                    out.append((m, x))
                else:
                    out.append((m, self.fresh(st, m)))
            f.regs[ins.id] = Cat(out)
            return
        f.regs[ins.id] = Cat([(8, self.fresh(st, 8)) for _ in range(n)])

    def i_shl(self, st, f, ins):
        if ins.ty.w > 64:
            return self.i_wide(st, f, ins)
        a, b, w = self.ar(st, f, ins)
        c = st.z.const(b)
        if c is None:
            f.regs[ins.id] = self.nonlin(st, ('shl', a, b), w)
        else:
            f.regs[ins.id] = self.fit(scale(a, 1 << (c % w)), w)

    def i_lshr(self, st, f, ins):
        if ins.ty.w > 64:
            return self.i_wide(st, f, ins)
        a, b, w = self.ar(st, f, ins)
        c = st.z.const(b)
        if c is None:
            f.regs[ins.id] = self.nonlin(st, ('lshr', a, b), w)
        else:
            f.regs[ins.id] = self.udivc(st, self.norm_u(st, a, w), 1 << c, w)[0]

    def i_ashr(self, st, f, ins):
        a, b, w = self.ar(st, f, ins)
        c = st.z.const(b)
        if c is None:
            f.regs[ins.id] = self.nonlin(st, ('ashr', a, b), w, -(1 << (w - 1)), (1 << (w - 1)) - 1)
            return
        a = self.norm_s(st, a, w)
        if self.le0(st, neg(a), 'sign'):
            f.regs[ins.id] = self.udivc(st, a, 1 << c, w)[0]
        else:
            f.regs[ins.id] = self.nonlin(st, ('ashr', a, c), w, -(1 << (w - 1)), -1)

    def i_trunc(self, st, f, ins):
        v = self.val(st, f, ins.ops[0])
        w0, w = ins.x.w, ins.ty.w
        if isinstance(v, Cat):
            if w0 > 64 or w < w0:
                n = w // 8
                if n:
                    v = self.extract(st, v, K(0), n, w0 // 8)
                    f.regs[ins.id] = v
                    return
        v = self.lin(st, v, (w0 + 7) // 8)
        if self.addrs(v):
            v = self.nonlin(st, ('tr', v), w)
        if w == 1:
            c = st.z.const(v)
            if c is not None:
                v = K(c & 1)
            elif st.z.lb(v) >= 0 and st.z.ub(v) <= 1:
                v = K(0) if self.eq0(st, v, 'bool') else K(1)
            else:
                u = self.norm_u(st, v, w0)
                if st.z.ub(u) <= 1:
                    v = K(0) if self.eq0(st, u, 'bool') else K(1)
                else:
                    v = K(self.choose(st, 2, 'bool'))
        f.regs[ins.id] = v

    def i_zext(self, st, f, ins):
        w0, w = ins.x.w, ins.ty.w
        v = self.val(st, f, ins.ops[0])
        if w > 64:
            v = self.norm_u(st, self.lin(st, v, (w0 + 7) // 8), w0)
            f.regs[ins.id] = Cat([(8, v)] + [(8, K(0))] * (w // 64 - 1))
            return
        v = self.lin(st, v, (w0 + 7) // 8)
        if w0 == 1 and v.t:
            v = self.norm_u(st, v, 1)
        f.regs[ins.id] = self.norm_u(st, v, w0)

    def i_sext(self, st, f, ins):
        w0 = ins.x.w
        v = self.lin(st, self.val(st, f, ins.ops[0]), (w0 + 7) // 8)
        f.regs[ins.id] = self.norm_s(st, v, w0)

    def i_copy(self, st, f, ins):
        f.regs[ins.id] = self.val(st, f, ins.ops[0])

    def i_freeze(self, st, f, ins):
        v = self.val(st, f, ins.ops[0])
        f.regs[ins.id] = self.lin(st, v) if v is UNDEF else v

    def i_fp(self, st, f, ins):
        n = max(1, ins.ty.size)
        f.regs[ins.id] = self.fresh(st, n, 'fp') if ins.ty.k == 'i' else UNDEF

    def i_fcmp(self, st, f, ins):
        f.regs[ins.id] = K(self.choose(st, 2, 'fcmp'))

    def desc(self, ins):
        return ''

    def i_icmp(self, st, f, ins):
        a = self.val(st, f, ins.ops[0])
        b = self.val(st, f, ins.ops[1])
        pred, w = ins.x
        if a is UNDEF or b is UNDEF:
            raise Alarm('undef', 'comparison of an uninitialised value')
        f.regs[ins.id] = K(1 if self.icmp(st, pred, a, b, w, pred) else 0)

    def cond(self, st, v):
        if v is UNDEF:
            raise Alarm('undef', 'branch on an uninitialised value')
        v = self.lin(st, v, 1)
        c = st.z.const(v)
        if c is not None:
            return c & 1
        return 0 if self.eq0(st, v, 'cond') else 1

    def i_select(self, st, f, ins):
        c = self.cond(st, self.val(st, f, ins.ops[0]))
        f.regs[ins.id] = self.val(st, f, ins.ops[1] if c else ins.ops[2])

    def i_br(self, st, f, ins):
        if ins.ops:
            c = self.cond(st, self.val(st, f, ins.ops[0]))
            b = ins.x[0] if c else ins.x[1]
        else:
            b = ins.x[0]
        return self.goto(st, b)

    def i_switch(self, st, f, ins):
        dflt, cases, w = ins.x
        v = self.val(st, f, ins.ops[0])
        if v is UNDEF:
            raise Alarm('undef', 'switch on an uninitialised value')
        v = self.norm_u(st, self.lin(st, v, (w + 7) // 8), w)
        for c, b in cases:
            if self.eq0(st, addc(v, -c), 'case %d' % c):
                return self.goto(st, b)
        return self.goto(st, dflt)

    def i_ret(self, st, f, ins):
        v = self.val(st, f, ins.ops[0]) if ins.ops else None
        return self.pop(st, v)

    def i_unreachable(self, st, f, ins):
        return False

    def i_extractvalue(self, st, f, ins):
        v = self.val(st, f, ins.ops[0])
        for i in ins.x:
            if isinstance(v, Agg):
                v = v.v[i]
            else:
                v = UNDEF
        f.regs[ins.id] = v

    def i_insertvalue(self, st, f, ins):
        v = self.val(st, f, ins.ops[0])
        x = self.val(st, f, ins.ops[1])
        if len(ins.x) != 1 or not isinstance(v, Agg):
            f.regs[ins.id] = UNDEF
            return
        l = list(v.v)
        l[ins.x[0]] = x
        f.regs[ins.id] = Agg(l)

    def i_fence(self, st, f, ins):
        pass

    def atomic_note(self, st, ins, p, kind, o1, o2, n):
        self.facts.setdefault('atomics', {}).setdefault((ins.file, ins.line, kind, o1, o2, n), 0)
        h = st.opt.get('atomic_ord')
        if h and not st.incb:
            oid, lo, ln = h
            o, off, _ = self.ptr(st, p, 'atomic')
            if o.id == oid and self.rel(st, off, n, lo, ln)[0] != 'dis':
                bad = None
                if kind == 'load' and o1 not in ('acquire', 'seq_cst', 'acq_rel'):
                    bad = 'load %s' % o1
                if kind == 'store':
                    bad = 'plain atomic store'
                if kind == 'cmpxchg' and (o1 not in ('acq_rel', 'seq_cst') and not o1 == 'release' or o2 not in ('acquire', 'seq_cst')):
                    bad = 'compare-exchange %s/%s' % (o1, o2)
                if kind == 'rmw' and o1 not in ('acq_rel', 'seq_cst', 'release'):
                    bad = 'read-modify-write %s' % o1
                if n != ln:
                    bad = 'partial access of %d of %d bytes' % (n, ln)
                k = ('ord', kind)
                self.checks.setdefault('atomic:' + kind, [0, 0])
                self.checks['atomic:' + kind][0] += 1
                if bad:
                    raise Alarm('ordering', 'shared ring state accessed by %s' % bad)

    def i_cmpxchg(self, st, f, ins):
        p = self.val(st, f, ins.ops[0])
        exp = self.val(st, f, ins.ops[1])
        new = self.val(st, f, ins.ops[2])
        t = ins.x[2]
        n = t.store
        if self.watch_cb(st, p, n, ('cb_cas', 'cb_any', 'cb_load')):
            return 'cb'
        self.atomic_note(st, ins, p, 'cmpxchg', ins.x[0], ins.x[1], n)
        cur = self.load(st, p, n, True, 'compare-exchange')
        eq = self.veq(st, cur, exp, n)
        if eq:
            self.store(st, p, n, new, True, 'compare-exchange')
        f.regs[ins.id] = Agg([cur, K(1 if eq else 0)])
        if not st.incb:
            for kind, oid, lo, ln, data in st.watch:
                if kind == 'cb_post':
                    o, off, _ = self.ptr(st, p, 'cas')
                    if o.id == oid and self.rel(st, off, n, lo, ln)[0] != 'dis':
                        f.idx += 1
                        self.push(st, data, [K(1 if eq else 0)], None, 'post')
                        st.incb += 1
                        return 'next'

    def i_atomicrmw(self, st, f, ins):
        p = self.val(st, f, ins.ops[0])
        x = self.val(st, f, ins.ops[1])
        t = ins.x[2]
        n = t.store
        if self.watch_cb(st, p, n, ('cb_store', 'cb_any', 'cb_load')):
            return 'cb'
        self.atomic_note(st, ins, p, 'rmw', ins.x[0], None, n)
        cur = self.load(st, p, n, True, 'atomic update')
        op = ins.x[1]
        if op == 'xchg':
            r = x
        elif op in ('add', 'sub'):
            r = add(self.lin(st, cur, n), self.lin(st, x, n), 1 if op == 'add' else -1)
        else:
            r = self.fresh(st, n)
        self.store(st, p, n, r, True, 'atomic update')
        f.regs[ins.id] = cur

    def parts(self, st, v, n):
        if isinstance(v, Cat):
            return v.p
        if n == 16 and isinstance(v, Lin) and not v.t:
            return ((8, K(v.c & (M64 - 1))), (8, K((v.c >> 64) & (M64 - 1))))
        return ((n, v),)

    def veq(self, st, a, b, n):
        pa, pb = self.parts(st, a, n), self.parts(st, b, n)
        if [m for m, _ in pa] != [m for m, _ in pb]:
            return bool(self.choose(st, 2, 'wide compare'))
        for (m, x), (_, y) in zip(pa, pb):
            if not self.icmp(st, 'eq', x, y, 8 * m, 'compare-exchange'):
                return False
        return True

    # ------------------------------------------------------------ calls
    def i_call(self, st, f, ins):
        cv = ins.x[0]
        if cv[0] == 'g':
            name = cv[1]
            fn = self.mod.fns.get(name)
        else:
            if cv[0] == 'asm':
                # only barriers and hints are understood
                if ins.ty.k == 'v' and not ins.ops:
                    return None
                raise EngineError('inline assembly')
            v = self.val(st, f, cv)
            o, off, _ = self.ptr(st, v, 'call')
            if o.kind != 'func' or off.t or off.c:
                raise Alarm('pointer', 'call through an invalid function pointer')
            name = o.gname
            fn = self.mod.fns.get(name)
        h = self.BUILTIN.get(name)
        if h is None and name.startswith('llvm.'):
            for pre, hh in self.INTRIN:
                if name.startswith(pre):
                    h = hh
                    break
            else:
                raise EngineError('intrinsic ' + name)
        if h is None and (fn is None or fn.decl):
            h = Engine.b_extern
        args = [self.val(st, f, o) if o[0] != 'meta' else UNDEF for o in ins.ops]
        if h is not None:
            r = h(self, st, f, ins, args, name)
            if r == 'cb' or r is False:
                return r
            if ins.ty.k != 'v':
                f.regs[ins.id] = r if r is not None else UNDEF
            if ins.op == 'invoke':
                return self.goto(st, ins.x[2])
            return None
        eff = self.opts.get('effects')
        if eff is not None and not st.incb:
            eff(self, st, fn.dem, False)
        self.push(st, fn, args, ins)
        return 'next'

    def b_extern(self, st, f, ins, args, name):
        dem = llvmir.demangle(name)
        self.externs[dem] = self.externs.get(dem, 0) + 1
        eff = self.opts.get('effects')
        if eff is not None and not st.incb:
            eff(self, st, dem, True)
        if name in EFFECT_FREE or name in ('sched_yield', 'vf_sink', 'pthread_yield', '__cxa_atexit', '__cxa_guard_abort'):
            return K(0) if name == 'sched_yield' else self.fresh(st, 4)
        if name in ('__assert_fail', 'abort', 'exit', '_exit', '__stack_chk_fail'):
            raise Alarm('abort', 'call to %s' % name)
        if name in ('__cxa_throw', '__cxa_rethrow', '_ZSt9terminatev') or name.startswith('_ZSt') and '__throw' in name:
            raise Alarm('throw', 'exception thrown: %s' % dem)
        if name in ('__cxa_guard_acquire',):
            o, off = self.access(st, args[0], 1, 'guard')
            v = self.lin(st, self.read_content(st, st.mem[o.id], off, 1), 1)
            return K(1) if self.eq0(st, v, 'guard') else K(0)
        if name in ('__cxa_guard_release',):
            self.store(st, args[0], 1, K(1))
            return None
        if name in ('strlen', 'strcmp', 'strchr', 'memcmp'):
            return self.fresh(st, ins.ty.size or 4)
        # an unmodelled external: may write through its pointer arguments
        self.notes['unmodelled external ' + dem] = self.notes.get('unmodelled external ' + dem, 0) + 1
        for a in args:
            if isinstance(a, Lin):
                for x, k in self.addrs(a):
                    o = self.addr_obj[x]
                    if o.id in st.mem and o.kind != 'func' and not o.const:
                        self.havoc(st, o, K(0), o.size)
        if ins.ty.k == 'v':
            return None
        return self.fresh(st, ins.ty.size)

    def havoc(self, st, o, off, n, keepptr=True):
        c = st.mem[o.id]
        keep = {}
        if not off.t:
            for co, (cn, cv) in self.flat(st, c).items():
                inside = off.c <= co and co + cn <= off.c + n
                if inside and keepptr and isinstance(cv, Lin) and self.addrs(cv):
                    keep[co] = (cn, cv)
        whole = not off.t and off.c == 0 and n >= o.size
        if whole:
            st.mem[o.id] = Content(self.newbase(), c.size, keep)
        else:
            tmp = Content(self.newbase(), c.size)
            c2 = self.write_content(st, c, off, n, Slice(tmp, off))
            for co, (cn, cv) in keep.items():
                if not off.t and off.c <= co and co + cn <= off.c + n:
                    c2 = self.write_content(st, c2, K(co), cn, cv)
            st.mem[o.id] = c2

    # --- intrinsics
    def n_const(self, st, v, what):
        c = st.z.const(self.lin(st, v))
        if c is None:
            raise EngineError('symbolic length in ' + what)
        return c

    def b_memcpy(self, st, f, ins, args, name):
        n = self.n_const(st, args[2], 'memcpy')
        if n:
            if self.watch_cb(st, args[0], n, ('cb_store', 'cb_any')):
                return 'cb'
            if not st.cbdone and self.watch_cb(st, args[1], n, ('cb_load', 'cb_any')):
                return 'cb'
        self.memcpy(st, args[0], args[1], n)
        return args[0]

    def b_memset(self, st, f, ins, args, name):
        n = self.n_const(st, args[2], 'memset')
        b = self.n_const(st, args[1], 'memset') & 255
        if n:
            o, off = self.access(st, args[0], n, 'memset')
            self.check_watch(st, o, off, n, True)
            st.mem[o.id] = self.write_content(st, st.mem[o.id], off, n, Fill(b))
        return args[0]

    def b_nop(self, st, f, ins, args, name):
        return UNDEF

    def b_trap(self, st, f, ins, args, name):
        raise Alarm('abort', 'trap')

    def b_expect(self, st, f, ins, args, name):
        return args[0]

    def b_minmax(self, st, f, ins, args, name):
        w = ins.ty.w
        k = name.split('.')[1]
        r = self.icmp(st, {'smin': 'sle', 'smax': 'sge', 'umin': 'ule', 'umax': 'uge'}[k], args[0], args[1], w, k)
        return args[0] if r else args[1]

    def b_ovf(self, st, f, ins, args, name):
        w = ins.ty.elems[0][1].w
        op = name.split('.')[1]
        a, b = self.lin(st, args[0]), self.lin(st, args[1])
        s = op[0] == 's'
        a, b = self.norm_u(st, a, w, s), self.norm_u(st, b, w, s)
        r = add(a, b) if 'add' in op else sub(a, b) if 'sub' in op else None
        if r is None:
            return Agg([self.fresh(st, w // 8), K(self.choose(st, 2, 'overflow'))])
        H = 1 << (w - 1)
        lo, hi = (-H, H - 1) if s else (0, (1 << w) - 1)
        bad = not self.le0(st, addc(r, -hi), 'ovf') or not self.le0(st, addc(neg(r), lo), 'ovf')
        return Agg([r, K(1 if bad else 0)])

    def b_abs(self, st, f, ins, args, name):
        w = ins.ty.w
        return args[0] if self.icmp(st, 'sge', args[0], K(0), w, 'abs') else neg(self.norm_u(st, self.lin(st, args[0]), w, True))

    def b_any(self, st, f, ins, args, name):
        return self.fresh(st, ins.ty.size)

    INTRIN = [('llvm.memcpy', b_memcpy), ('llvm.memmove', b_memcpy), ('llvm.memset', b_memset), ('llvm.trap', b_trap),
              ('llvm.expect', b_expect), ('llvm.smin', b_minmax), ('llvm.smax', b_minmax), ('llvm.umin', b_minmax), ('llvm.umax', b_minmax),
              ('llvm.sadd.with', b_ovf), ('llvm.uadd.with', b_ovf), ('llvm.ssub.with', b_ovf), ('llvm.usub.with', b_ovf),
              ('llvm.smul.with', b_ovf), ('llvm.umul.with', b_ovf),
              ('llvm.abs', b_abs), ('llvm.x86.sse2.pause', b_nop), ('llvm.prefetch', b_nop), ('llvm.assume', b_nop), ('llvm.lifetime', b_nop),
              ('llvm.x86.sse2.mfence', b_nop), ('llvm.x86.sse2.lfence', b_nop), ('llvm.x86.sse.sfence', b_nop),
              ('llvm.ctpop', b_any), ('llvm.ctlz', b_any), ('llvm.cttz', b_any), ('llvm.bswap', b_any), ('llvm.stacksave', b_nop), ('llvm.stackrestore', b_nop), ('llvm.donothing', b_nop), ('llvm.va_', b_nop), ('llvm.eh.', b_nop)]

    # --- vf_* contract language
    def cstr(self, st, v):
        o, off, _ = self.ptr(st, v, 'label')
        c = st.mem[o.id]
        out = []
        i = off.c
        while True:
            e = c.cells.get(i)
            if e is None or e[1].c == 0:
                break
            out.append(chr(e[1].c & 255))
            i += 1
        return ''.join(out)

    def v_int(self, st, f, ins, args, name):
        n = ins.ty.size
        return self.fresh(st, n, 'input')

    def v_bool(self, st, f, ins, args, name):
        return K(self.choose(st, 2, 'either'))

    def v_choice(self, st, f, ins, args, name):
        return K(self.choose(st, self.n_const(st, args[0], 'choice'), 'choice'))

    def v_range(self, st, f, ins, args, name):
        """vf_range(lo, hi): any value lo..hi"""
        lo = self.n_const(st, args[0], 'range')
        hi = self.n_const(st, args[1], 'range')
        return Lin(0, ((self.newatom(st, lo, hi, 'input'), 1),))

    def v_assume(self, st, f, ins, args, name):
        if not self.cond(st, args[0]):
            return False

    def v_check(self, st, f, ins, args, name):
        lab = self.cstr(st, args[1])
        c = self.checks.setdefault(lab, [0, 0])
        ok = self.cond(st, args[0])
        c[0] += 1
        if not ok:
            c[1] += 1
            self.violation(st, 'check', lab, lab)
            return False

    def v_reach(self, st, f, ins, args, name):
        lab = self.cstr(st, args[0])
        self.reach[lab] = self.reach.get(lab, 0) + 1

    def v_end(self, st, f, ins, args, name):
        return False

    def v_havoc(self, st, f, ins, args, name):
        n = self.n_const(st, args[1], 'havoc')
        o, off = self.access(st, args[0], n, 'havoc')
        self.havoc(st, o, off, n)

    def v_gen(self, st, f, ins, args, name):
        """forgets how the value of a cell came about, in all places that hold it: any value within its bounds"""
        n = self.n_const(st, args[1], 'gen')
        o, off = self.access(st, args[0], n, 'gen')
        v = self.read_content(st, st.mem[o.id], off, n)
        if not isinstance(v, Lin) or not v.t or self.addrs(v):
            return
        lo, hi = st.z.lb(v), st.z.ub(v)
        new = Lin(0, ((self.newatom(st, lo, hi, 'gen'), 1),))
        def sub(x):
            if isinstance(x, Lin):
                return new if x == v else x
            if isinstance(x, Slice):
                c = subc(x.c)
                return x if c is x.c else Slice(c, x.o)
            return x

        def subc(c):
            hit = {}
            for co, (cn, cv) in c.cells.items():
                w = sub(cv)
                if w is not cv:
                    hit[co] = (cn, w)
            log = tuple((eo, en, sub(ev)) for eo, en, ev in c.log)
            if not hit and all(x[2] is y[2] for x, y in zip(log, c.log)):
                return c
            return Content(c.base, c.size, {**c.cells, **hit}, log)
        for oid, c in list(st.mem.items()):
            n = subc(c)
            if n is not c:
                st.mem[oid] = n
        for i, fr in enumerate(st.frames):
            hit = {r: new for r, x in fr.regs.items() if isinstance(x, Lin) and x == v}
            if hit:
                if i < len(st.frames) - 1:
                    st.frames[i] = fr = fr.clone()
                fr.regs = {**fr.regs, **hit}

    def regwidth(self, fn, r):
        for b in fn.blocks:
            for ins in list(b.phis) + list(b.ins):
                if ins.id == r:
                    return ins.ty.w if ins.ty.k == 'i' else 0
        return 0

    def v_round(self, st, f, ins, args, name):
        """a loop comes around: what it counts (constants on its frames that differ from those of the round before) may have any value"""
        tag = ('round', self.cstr(st, args[0]))
        now = {}
        for oid, c in st.mem.items():
            o = self.objs[oid]
            if o.kind == 'stack' or o.kind == 'global' and o.gname in self.mod.globals and self.mod.global_file(o.gname).startswith(self.src):
                for off, (n, v) in c.cells.items():
                    if isinstance(v, Lin) and not v.t:
                        now[oid, off] = (n, v)
        for i, fr in enumerate(st.frames):
            if (fr.fn.file or '').startswith(self.src):
                for r, v in fr.regs.items():
                    if isinstance(v, Lin) and not v.t:
                        now['reg', fr.uid, r] = (i, v)
        old = st.opt.get(tag)
        if old is not None:
            for k, (n, v) in old.items():
                if k not in now or now[k][0] != n or now[k][1] == v:
                    continue
                self.notes['counted rounds generalised'] = self.notes.get('counted rounds generalised', 0) + 1
                if k[0] == 'reg':
                    fr = st.frames[n]
                    w = self.regwidth(fr.fn, k[2])
                    if not w:
                        continue
                    if n < len(st.frames) - 1:
                        st.frames[n] = fr = fr.clone()
                    fr.regs = {**fr.regs, k[2]: Lin(0, ((self.newatom(st, 0, (1 << w) - 1, 'round'), 1),))}
                else:
                    st.mem[k[0]] = self.write_content(st, st.mem[k[0]], K(k[1]), n, self.fresh(st, n, 'round'))
                del now[k]
        st.opt = dict(st.opt)
        st.opt[tag] = now

    def v_watch(self, st, f, ins, args, name):
        kind = name[3:]
        n = self.n_const(st, args[1], 'watch')
        o, off = self.access(st, args[0], n, 'watch')
        data = args[2]
        if kind.startswith('cb'):
            fo, _, _ = self.ptr(st, data, 'callback')
            data = self.mod.fns[fo.gname]
        else:
            data = self.cstr(st, data)
        st.watch = st.watch + ((kind, o.id, off, n, data),)

    def v_unwatch(self, st, f, ins, args, name):
        o, off, _ = self.ptr(st, args[0], 'unwatch')
        st.watch = tuple(w for w in st.watch if w[1] != o.id)

    def v_unwatch_all(self, st, f, ins, args, name):
        st.watch = ()

    def v_atomic(self, st, f, ins, args, name):
        n = self.n_const(st, args[1], 'atomic')
        o, off = self.access(st, args[0], n, 'watch')
        st.opt = dict(st.opt, atomic_ord=(o.id, off, n))

    def v_volatile(self, st, f, ins, args, name):
        """every scalar of the object may change between reads; pointers are stable"""
        n = self.n_const(st, args[1], 'volatile')
        o, off = self.access(st, args[0], n, 'volatile')
        c = st.mem[o.id]
        keep = {}
        for co, (cn, cv) in self.flat(st, c).items():
            if isinstance(cv, Lin) and self.addrs(cv):
                keep[co] = (cn, cv)
        st.mem[o.id] = Content(('vol', ()), c.size, keep)

    def flat(self, st, c, lo=None, n=None, depth=0):
        """known scalars of a content (constant offsets, memcpy'd parts resolved): offset -> (size, value)"""
        out = {}

        def put(o, m, v):
            for k in [k for k, (kn, _) in out.items() if k < o + m and o < k + kn]:
                del out[k]
            if isinstance(v, Cat):
                for w, p in v.p:
                    out[o] = (w, p)
                    o += w
            elif isinstance(v, Slice):
                if not v.o.t and depth < 8:
                    for k, (kn, kv) in self.flat(st, v.c, v.o.c, m, depth + 1).items():
                        out[o + k - v.o.c] = (kn, kv)
            elif v is not UNDEF and not isinstance(v, Fill):
                out[o] = (m, v)
        if c.base[0] == 'lazy':
            for mo, mn, mv in st.lazy.get(c.base[1], ()):
                if not mo.t:
                    put(mo.c, mn, mv)
        for co, (cn, cv) in c.cells.items():
            put(co, cn, cv)
        for eo, en, ev in c.log:
            if not eo.t:
                put(eo.c, en, ev)
            else:
                a, b = st.z.lb(eo), st.z.ub(eo) + en
                for k in [k for k, (kn, _) in out.items() if k < b and a < k + kn]:
                    del out[k]
        if lo is not None:
            out = {k: e for k, e in out.items() if lo <= k and k + e[0] <= lo + n}
        return out

    def v_vrange(self, st, f, ins, args, name):
        """vf_vrange(ptr, len, lo, hi): values read from a volatile field"""
        n = self.n_const(st, args[1], 'vrange')
        lo = self.n_const(st, args[2], 'vrange')
        hi = self.n_const(st, args[3], 'vrange')
        o, off = self.access(st, args[0], n, 'vrange')
        c = st.mem[o.id]
        st.mem[o.id] = Content(('vol', c.base[1] + ((off.c, n, lo, hi),)), c.size, c.cells, c.log)

    def v_opt(self, st, f, ins, args, name):
        st.opt = dict(st.opt)
        st.opt[self.cstr(st, args[0])] = self.n_const(st, args[1], 'opt')

    def v_sameobj(self, st, f, ins, args, name):
        a = self.addrs(self.lin(st, args[0]))
        b = self.addrs(self.lin(st, args[1]))
        return K(1 if len(a) == 1 and a == b else 0)

    def v_alive(self, st, f, ins, args, name):
        a = self.addrs(self.lin(st, args[0]))
        return K(1 if len(a) == 1 and a[0][1] == 1 and self.addr_obj[a[0][0]].id in st.mem else 0)

    def v_isptr(self, st, f, ins, args, name):
        a = self.addrs(self.lin(st, args[0]))
        return K(1 if len(a) == 1 and a[0][1] == 1 else 0)

    def v_kill(self, st, f, ins, args, name):
        o, off, _ = self.ptr(st, args[0], 'kill')
        st.mem.pop(o.id, None)

    def v_print(self, st, f, ins, args, name):
        print('VF', self.cstr(st, args[0]), [(a, [(self.ainfo.get(x), st.z.lo.get(x), st.z.hi.get(x)) for x, _ in a.t] if isinstance(a, Lin) else '') for a in args[1:]])

    def v_snap(self, st, f, ins, args, name):
        """vf_snap(slot, ptr, len): remember the current content"""
        k = self.n_const(st, args[0], 'snap')
        n = self.n_const(st, args[2], 'snap')
        o, off = self.access(st, args[1], n, 'snap')
        st.snaps = dict(st.snaps)
        st.snaps[k] = (st.mem[o.id], off, n)

    def v_same(self, st, f, ins, args, name):
        """vf_same(slot, ptr): every scalar of the remembered region is unchanged"""
        k = self.n_const(st, args[0], 'same')
        c0, off0, n = st.snaps[k]
        o, off = self.access(st, args[1], n, 'same')
        c1 = st.mem[o.id]
        if c0 is c1 and off0 == off:
            return K(1)
        # compare at every position written since (and those the snapshot knows)
        pos = []
        for c, b in ((c1, off), (c0, off0)):
            for co, (cn, cv) in c.cells.items():
                pos.append((sub(K(co), b), cn, cv))
            for eo, en, ev in c.log:
                pos.append((sub(eo, b), en, ev))
        if c0.base != c1.base and not (c0.base[0] == c1.base[0] and c0.base[0] != 'lazy'):
            return K(0)
        seen = set()
        for p, m, cv in pos:
            for q in self.scalars(cv, m):
                d, w = q
                key = (addc(p, d), w)
                if key in seen:
                    continue
                seen.add(key)
                # outside the region?
                if self.rel(st, key[0], w, K(0), n)[0] == 'dis':
                    continue
                x = self.read_content(st, c0, add(off0, key[0]), w)
                y = self.read_content(st, c1, add(off, key[0]), w)
                if x is UNDEF or y is UNDEF:
                    if x is not y:
                        return K(0)
                    continue
                if x == y:
                    continue
                if not self.veq(st, x, y, w):
                    return K(0)
        return K(1)

    def scalars(self, cv, m):
        if isinstance(cv, Cat):
            q = 0
            out = []
            for w, _ in cv.p:
                out.append((q, w))
                q += w
            return out
        if m in (1, 2, 4, 8):
            return [(0, m)]
        if isinstance(cv, Slice):
            # positions known in the source
            out = set()
            c = cv.c
            if not cv.o.t:
                for co, (cn, v) in c.cells.items():
                    d = co - cv.o.c
                    if 0 <= d and d + cn <= m and cn <= 8:
                        out.add((d, cn))
            if out:
                return sorted(out)
        out = []
        q = 0
        while q + 8 <= m:
            out.append((q, 8))
            q += 8
        while q + 4 <= m:
            out.append((q, 4))
            q += 4
        while q < m:
            out.append((q, 1))
            q += 1
        return out

    BUILTIN = {}
    DISP = {}

    # ------------------------------------------------------------ loops
    def ctx(self, st):
        return tuple((f.uid, f.blk if i < len(st.frames) - 1 else -1, f.idx if i < len(st.frames) - 1 else -1) for i, f in enumerate(st.frames))

    def loophead(self, st, f, blk, old):
        dep = len(st.frames)
        key = (dep, f.uid, blk.i)
        inside = blk.inloop is not None and old in blk.inloop
        self.loopcov.add((f.fn.name, blk.i))
        if not inside:
            st.loops[key] = 0
            # reset inner loops of this frame
            for k in [k for k in st.loops if k[0] == dep and k[1] == f.uid and k[2] != blk.i and k[2] in (blk.inloop or ())]:
                del st.loops[k]
        n = st.loops.get(key, 0) + 1
        st.loops[key] = n
        lk = (f.fn.name, blk.i)
        if n > self.maxiter.get(lk, 0):
            self.maxiter[lk] = n
        mt = st.opt.get('must_terminate')
        if mt and n > mt and not st.incb:
            raise Alarm('termination', 'loop in %s still running after %d iterations' % (f.fn.dem.split('(')[0], n))
        limit = st.opt.get('unroll', self.opts['unroll'])
        if n <= limit:
            return True
        # deterministic loops (nothing was forked since the previous visit) are unrolled further
        dk = ('det',) + key
        p = st.norm.get(dk)
        st.norm[dk] = st.path
        if n < self.opts['detunroll'] and not st.opt.get('nodet') and (p is st.path or n == limit + 1):
            return True
        return self.join_at(st, f, blk, key)

    def locations(self, st):
        """all scalar locations of a state: key -> value"""
        loc = {}
        for i, fr in enumerate(st.frames):
            live = None
            b = fr.fn.blocks[fr.blk]
            if i == len(st.frames) - 1:
                live = fr.fn.live[fr.blk] | {p.id for p in b.phis}
            for r, v in fr.regs.items():
                if live is not None and r not in live:
                    continue
                loc[('r', i, r)] = v
        for oid, c in st.mem.items():
            if self.objs[oid].const:
                continue
            for co, (cn, cv) in c.cells.items():
                loc[('m', oid, co, cn)] = cv
            for j, (eo, en, ev) in enumerate(c.log):
                loc[('lo', oid, j, en)] = eo
                loc[('lv', oid, j, en)] = ev
        return loc

    def shape(self, st):
        return tuple(sorted((oid, c.base if c.base[0] != 'lazy' else ('lazy', c.base[1])) for oid, c in st.mem.items() if not self.objs[oid].const))

    def partkey(self, st, hk, loc, counters=()):
        ex = self.excl.setdefault(hk, set())
        seen = self.seenvals.get(hk)
        sig = []
        if seen is None:
            # only what the first visit knows takes part
            seen = self.seenvals[hk] = {k: set() for k in loc if k[0] == 'r' or k[0] == 'm' and self.objs[k[1]].size <= 1024}
        for k, v in loc.items():
            if k not in seen and not (isinstance(v, Lin) and v.t and (k[0] == 'r' or k[0] == 'm' and self.objs[k[1]].size <= 1024)):
                continue
            if isinstance(v, Lin) and v.t and k not in ex:
                # which object a pointer designates, and where in it
                a = self.addrs(v)
                if a:
                    s = seen.setdefault(k, set())
                    t = (tuple(a), v.c if len(a) == len(v.t) else None)
                    s.add(t)
                    if len(s) > 12:
                        ex.add(k)
                    else:
                        sig.append((k, repr(t)))
                    continue
            if k not in seen:
                continue
            if isinstance(v, Lin) and not v.t and -16 <= v.c <= 16 and k not in ex and k not in counters:
                if k[0] == 'm' and self.objs[k[1]].kind in ('global', 'stack') or k[0] == 'r':
                    s = seen.setdefault(k, set())
                    s.add(v.c)
                    if len(s) > 5:
                        ex.add(k)
                    else:
                        sig.append((k, repr(v.c)))
        return tuple(sorted((repr(a), b) for a, b in sig if a not in ex))

    def join_at(self, st, f, blk, key):
        hk = (self.ctx(st), blk.i)
        st.opt = st.opt
        loc = self.locations(st)
        sig = self.partkey(st, hk, loc, {('r', len(st.frames) - 1, i) for i in blk.counters})
        ik = (hk, sig, st.opt.get('x'), tuple(sorted(st.mem)), st.watch, st.incb)
        I = self.inv.get(ik)
        self.joins += 1
        if I is None:
            self.inv[ik] = [st.clone(), 0]
            st.dep = (ik, 0, f.uid, blk.inloop)
            return True
        inv, cnt = I
        new = self.join(inv, st, ik, cnt >= 1, loc)
        if new is None:
            return False
        self.inv[ik] = [new.clone(), cnt + 1]
        # continue from the joined state: overwrite st in place
        for a in State.__slots__:
            setattr(st, a, getattr(new, a))
        st.loops[key] = st.opt.get('unroll', self.opts['unroll']) + 5
        st.dep = (ik, cnt + 1, f.uid, blk.inloop)
        if cnt > 60:
            raise EngineError('no fixpoint at loop in %s' % f.fn.dem)
        return True

    def join(self, I, S, hk, widen, locS):
        locI = self.locations(I)
        R = I.clone()
        zi, zs = I.z.copy(), S.z.copy()
        subI = {}
        phis = {}
        changed = False
        newvals = {}
        drop = []
        havoc_objs = set()
        subsumed = set()
        for oid in I.mem:
            if self.objs[oid].const:
                continue
            ci, cs = I.mem[oid], S.mem.get(oid)
            if ci is cs:
                continue
            if cs is None:
                raise EngineError('object set mismatch at join')
            if self.is_havoc(I, ci):
                # anything but for the cells it keeps: those are joined, the rest covers every content
                fs = self.flat(S, cs)
                for k in [k for k in locS if k[0] != 'r' and k[1] == oid]:
                    del locS[k]
                for o, (n, v) in ci.cells.items():
                    e = fs.get(o)
                    if e is not None and e[0] == n:
                        locS[('m', oid, o, n)] = e[1]
                continue
            if ci.base != cs.base or len(ci.log) != len(cs.log) or any(a[1] != b[1] for a, b in zip(ci.log, cs.log)):
                havoc_objs.add(oid)
            elif {(o, v[0]) for o, v in ci.cells.items()} != {(o, v[0]) for o, v in cs.cells.items()}:
                if ci.base[0] == 'undef':
                    pass
                else:
                    havoc_objs.add(oid)
        havoc_cells = {}
        for oid in havoc_objs:
            fi, fs = self.flat(I, I.mem[oid]), self.flat(S, S.mem[oid])
            both = [o for o, e in fi.items() if fs.get(o, (0,))[0] == e[0] and isinstance(e[1], Lin) and isinstance(fs[o][1], Lin) and e[0] <= 8]
            if len(both) > 64:
                both = [o for o in both if fi[o] == fs[o] and (self.addrs(fi[o][1]) or not fi[o][1].t)]
            for L in (locI, locS):
                for k in [k for k in L if k[0] != 'r' and k[1] == oid]:
                    del L[k]
            for o in both:
                if self.addrs(fi[o][1]) != self.addrs(fs[o][1]):
                    continue
                k = ('m', oid, o, fi[o][0])
                locI[k], locS[k] = fi[o][1], fs[o][1]
                havoc_cells.setdefault(oid, {})[o] = fi[o]
        for k, vi in locI.items():
            if k not in locS:
                drop.append(k)
                continue
            vs = locS[k]
            if vi is vs or vi == vs:
                continue
            pk = (hk, k)
            if isinstance(vi, Lin) and isinstance(vs, Lin) and not self.addrs_diff(vi, vs):
                ad = self.addrs(vi)
                base = Lin(0, tuple(ad))
                di, ds = sub(vi, base), sub(vs, base)
                v0, sc = K(0), 1
                form = self.ainfo.get(('form', pk))
                if form is None:
                    # a constant step: count the steps, so that the stride is not lost
                    d = sub(ds, di)
                    if not d.t and abs(d.c) > 1:
                        form = (Lin(di.c % abs(d.c), di.t), d.c)
                    else:
                        form = 'plain'
                    self.ainfo[('form', pk)] = form
                if form != 'plain':
                    qi, qs = self.quot(sub(di, form[0]), form[1]), self.quot(sub(ds, form[0]), form[1])
                    if qi is None or qs is None or (qi.t and len(qi.t) != 1) or not all(x in zi.lo and x in zs.lo for x, _ in form[0].t):
                        form = self.ainfo[('form', pk)] = 'plain'
                    else:
                        v0, sc = form
                        di, ds = qi, qs
                pk = (pk, form == 'plain')
                a = self.ainfo.get(pk)
                if a is not None and a in zi.lo and di != Lin(0, ((a, 1),)):
                    a = None
                if a is None:
                    self.nat += 1
                    a = self.nat
                    self.ainfo[pk] = a
                    self.ainfo[a] = 'loop:%r' % (k,)
                phis[k] = (a, di, ds, (add(base, v0), sc), vi.rng if vi.rng == vs.rng else None)
            else:
                newvals[k] = self.unknown_like(vi, k)
                if newvals[k] is not vi and newvals[k] != vi:
                    changed = True
        # zone of S with temporaries for the phis
        tmp = {}
        common = set(zi.lo) & set(zs.lo)
        phiat = {a for a, *_ in phis.values()}
        others = [y for y in common if y not in self.addr_obj]
        taus = []
        # values that are the same, or a known distance apart, stay so
        seenI, seenS = set(others), set(others)
        ownI = [x for p in phis.values() for x, _ in p[1].t if not (x in seenI or seenI.add(x))]
        ownS = [x for p in phis.values() for x, _ in p[2].t if not (x in seenS or seenS.add(x))]
        for k, (a, vi, vs, base, rng) in phis.items():
            self.nat += 1
            t = self.nat
            tmp[a] = t
            zs.define(t, vs, others + taus + ownS)
            taus.append(t)
        new_in_I = []
        for k, (a, vi, vs, base, rng) in phis.items():
            if a in zi.lo and vi == Lin(0, ((a, 1),)):
                continue
            if a in zi.lo:
                raise EngineError('phi reused at another value')
            zi.define(a, vi, others + [x for x in phiat if x in zi.lo] + ownI)
            new_in_I.append(a)
        # project zs: drop old phi atoms, rename tau -> phi
        zs.forget([a for a in phiat if a in zs.lo])
        ren = {t: a for a, t in tmp.items()}
        keepat = (common - phiat) | phiat
        zj = Zone()
        hk_thr = self.thresholds
        inv = {a: tmp.get(a, a) for a in keepat}
        for a in keepat:
            b = inv[a]
            lo_i, hi_i, lo_s, hi_s = zi.lo[a], zi.hi[a], zs.lo[b], zs.hi[b]
            lo, hi = min(lo_i, lo_s), max(hi_i, hi_s)
            # no execution is long enough to get that far
            lo, hi = max(lo, min(lo_i, -(1 << 130))), min(hi, max(hi_i, 1 << 130))
            if lo < lo_i or hi > hi_i:
                changed = True
            if widen:
                if lo < lo_i:
                    lo = max([-t for t in hk_thr if -t <= lo] + [t for t in hk_thr if t <= lo] + [-(1 << 130)])
                if hi > hi_i:
                    hi = min([t for t in hk_thr if t >= hi] + [-t for t in hk_thr if -t >= hi] + [1 << 130])
            zj.lo[a], zj.hi[a] = lo, hi
        for x, dx in zi.d.items():
            if x not in keepat:
                continue
            for y, c in dx.items():
                if y not in keepat:
                    continue
                cs = zs.db(inv[x], inv[y])
                c = min(c, zi.hi[x] - zi.lo[y])
                if cs > c:
                    if c < zi.hi[x] - zi.lo[y]:
                        changed = changed or cs > zi.db(x, y)
                    if widen:
                        cs = None if not (-4 < cs <= 4) else (cs if cs in (0,) else None)
                        if cs is None:
                            # small thresholds
                            v = zs.db(inv[x], inv[y])
                            cs = next((t for t in (-1, 0, 1) if t >= v), None)
                if cs is None:
                    continue
                c2 = max(c, cs)
                if c2 < zj.hi[x] - zj.lo[y]:
                    zj._setd(x, y, c2)
        if not widen:
            for x, dx in zs.d.items():
                rx = ren.get(x, x)
                if rx not in keepat or (x in phiat and x not in ren):
                    continue
                for y, c in dx.items():
                    ry = ren.get(y, y)
                    if ry not in keepat or (y in phiat and y not in ren):
                        continue
                    ci = zi.db(rx, ry)
                    c2 = max(c, ci)
                    if c2 < zj.db(rx, ry):
                        zj._setd(rx, ry, c2)
        # what the bounds alone said of the merged values
        moved = [a for a in keepat if zi.lo[a] != zs.lo[inv[a]] or zi.hi[a] != zs.hi[inv[a]]]
        ints = [a for a in keepat if a not in self.addr_obj]
        for m in moved[:60]:
            if m in self.addr_obj:
                continue
            for o in ints:
                for x, y in ((m, o), (o, m)):
                    c = zi.hi[x] - zi.lo[y]
                    if x == y or c >= 3 or y in zi.d.get(x, ()):
                        continue
                    cs = zs.db(inv[x], inv[y])
                    if cs > c and widen:
                        cs = next((t for t in (-1, 0, 1) if t >= cs), None)
                        if cs is None:
                            continue
                    if max(c, cs) < zj.db(x, y):
                        zj._setd(x, y, max(c, cs))
        # disequalities and facts valid in both
        nn = []
        for l in zi.neq:
            ls = subst(l, {a: Lin(0, ((t, 1),)) for a, t in tmp.items()})
            if all(x in keepat for x, _ in l.t) and zs.decide_eq0(ls) is False:
                nn.append(l)
            elif any(x in keepat for x, _ in l.t):
                changed = True
        zj.neq = tuple(nn)
        ff = []
        for l in zi.facts:
            ls = subst(l, {a: Lin(0, ((t, 1),)) for a, t in tmp.items()})
            if all(x in keepat for x, _ in l.t) and zs.ub(ls) <= 0:
                ff.append(l)
            else:
                changed = True
        zj.facts = tuple(ff)
        if set(zi.lo) - set(new_in_I) - keepat:
            pass
        # lazily read inputs: keep what both know
        lz = {}
        for bid, memo in I.lazy.items():
            ms = S.lazy.get(bid, ())
            keep = tuple(m for m in memo if m in ms)
            if len(keep) != len(memo):
                changed = True
            lz[bid] = keep
        if new_in_I or drop or havoc_objs:
            changed = True
        if not changed:
            return None
        # build the result
        R.z = zj
        R.lazy = lz
        R.norm = {k: v for k, v in I.norm.items() if S.norm.get(k) == v and (not isinstance(v, int) or v in zj.lo)}
        R.path = S.path
        mem = dict(R.mem)
        for oid in havoc_objs:
            mem[oid] = self.havoc_join(oid, I.mem[oid], havoc_cells.get(oid, {}))
        for k in drop:
            if k[0] == 'm':
                c = mem[k[1]]
                cells = c.cells.copy()
                cells.pop(k[2], None)
                mem[k[1]] = Content(c.base, c.size, cells, c.log)

        def put(k, v):
            if k[0] == 'r':
                R.frames[k[1]].regs[k[2]] = v
            elif k[0] == 'm':
                c = mem[k[1]]
                cells = c.cells.copy()
                cells[k[2]] = (k[3], v)
                mem[k[1]] = Content(c.base, c.size, cells, c.log)
            else:
                c = mem[k[1]]
                log = list(c.log)
                e = log[k[2]]
                log[k[2]] = (v, e[1], e[2]) if k[0] == 'lo' else (e[0], e[1], v)
                mem[k[1]] = Content(c.base, c.size, c.cells, tuple(log))
        R.frames = [fr.clone() for fr in R.frames]
        for fi, fr in enumerate(R.frames):
            for r in drop:
                if r[0] == 'r' and r[1] == fi:
                    fr.regs.pop(r[2], None)
        # keep only live registers of the top frame
        for k, (a, vi, vs, base, rng) in phis.items():
            v = add(base[0], Lin(0, ((a, 1),)), base[1])
            v.rng = rng
            put(k, v)
        for k, v in newvals.items():
            if v == 'fresh':
                v = self.fresh(R, k[3] if len(k) > 3 and k[3] <= 8 else 8, 'join')
            put(k, v)
        R.mem = mem
        # every atom referenced must exist
        self.fix_atoms(R)
        return R

    @staticmethod
    def quot(l, s):
        if l.c % s or any(k % s for _, k in l.t):
            return None
        return Lin(l.c // s, tuple((x, k // s) for x, k in l.t))

    def addrs_diff(self, a, b):
        return self.addrs(a) != self.addrs(b)

    def unknown_like(self, v, k):
        if isinstance(v, Slice) and v.c.base[0] == 'lazy' and not v.c.cells and not v.c.log and getattr(v.c, 'base')[1] in self.facts.get('joinbases', ()):
            return v
        if k[0] == 'm' and (k[3] > 8 or isinstance(v, Slice)):
            b = self.newbase()
            self.facts.setdefault('joinbases', set()).add(b[1])
            return Slice(Content(b, k[3] + 0), K(0))
        if v is UNDEF:
            return UNDEF
        return 'fresh'

    def havoc_join(self, oid, ci, keep):
        self.notes['object %s havocked at a loop join' % self.objs[oid].name] = 1
        b = self.newbase()
        self.facts.setdefault('havocbases', set()).add(b[1])
        return Content(b, ci.size, dict(keep))

    def is_havoc(self, I, c):
        """a content nothing else refers to and of which nothing but its cells is known"""
        if c.base[0] != 'lazy' or c.base[1] not in self.facts.get('havocbases', ()) or c.log or I.lazy.get(c.base[1]):
            return False
        seen = set()

        def refs(v):
            if isinstance(v, Slice):
                return crefs(v.c)
            if isinstance(v, (Cat, Agg)):
                return any(refs(p[1] if isinstance(v, Cat) else p) for p in (v.p if isinstance(v, Cat) else v.v))
            return False

        def crefs(d):
            if id(d) in seen:
                return False
            seen.add(id(d))
            return d.base == c.base or inner(d)

        def inner(d):
            return any(refs(v) for _, v in d.cells.values()) or any(refs(e[2]) for e in d.log)
        for oid, d in I.mem.items():
            if d is c:
                if inner(d):
                    return False
            elif crefs(d):
                return False
        return not any(refs(v) for fr in I.frames for v in fr.regs.values())

    def fix_atoms(self, R):
        z = R.z

        def ok(v):
            if isinstance(v, Lin):
                for x, _ in v.t:
                    if x not in z.lo:
                        return False
            elif isinstance(v, Cat):
                return all(ok(p) for _, p in v.p)
            elif isinstance(v, Agg):
                return all(ok(p) for p in v.v)
            elif isinstance(v, Slice):
                return ok(v.o)
            return True
        for fr in R.frames:
            for r in list(fr.regs):
                if not ok(fr.regs[r]):
                    del fr.regs[r]
        for oid, c in list(R.mem.items()):
            bad = [o for o, (n, v) in c.cells.items() if not ok(v)]
            if bad:
                cells = c.cells.copy()
                for o in bad:
                    n = cells[o][0]
                    if n <= 8:
                        cells[o] = (n, self.fresh(R, n, 'join'))
                    else:
                        cells[o] = (n, Slice(Content(self.newbase(), n), K(0)))
                R.mem[oid] = c = Content(c.base, c.size, cells, c.log)
            if any(not ok(e[0]) or not ok(e[2]) for e in c.log):
                R.mem[oid] = Content(self.newbase(), c.size, {o: e for o, e in c.cells.items() if isinstance(e[1], Lin) and self.addrs(e[1])})
        for bid, memo in list(R.lazy.items()):
            R.lazy[bid] = tuple(m for m in memo if ok(m[0]) and ok(m[2]))
        R.watch = R.watch


Engine.DISP = {'alloca': Engine.i_alloca, 'load': Engine.i_load, 'store': Engine.i_store, 'gep': Engine.i_gep, 'add': Engine.i_add,
               'sub': Engine.i_sub, 'mul': Engine.i_mul, 'udiv': Engine.i_udiv, 'urem': Engine.i_urem, 'sdiv': Engine.i_sdiv,
               'srem': Engine.i_srem, 'and': Engine.i_bit, 'or': Engine.i_bit, 'xor': Engine.i_bit, 'shl': Engine.i_shl,
               'lshr': Engine.i_lshr, 'ashr': Engine.i_ashr, 'trunc': Engine.i_trunc, 'zext': Engine.i_zext, 'sext': Engine.i_sext,
               'bitcast': Engine.i_copy, 'ptrtoint': Engine.i_copy, 'inttoptr': Engine.i_copy, 'freeze': Engine.i_freeze,
               'icmp': Engine.i_icmp, 'select': Engine.i_select, 'br': Engine.i_br, 'switch': Engine.i_switch, 'ret': Engine.i_ret,
               'unreachable': Engine.i_unreachable, 'extractvalue': Engine.i_extractvalue, 'insertvalue': Engine.i_insertvalue,
               'fence': Engine.i_fence, 'cmpxchg': Engine.i_cmpxchg, 'atomicrmw': Engine.i_atomicrmw, 'call': Engine.i_call,
               'invoke': Engine.i_call, 'fcmp': Engine.i_fcmp}
for _o in ('fneg', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext'):
    Engine.DISP[_o] = Engine.i_fp
B = Engine.BUILTIN
for _n in ('vf_i64', 'vf_u64', 'vf_i32', 'vf_u32', 'vf_u8', 'vf_u16'):
    B[_n] = Engine.v_int
B.update(vf_bool=Engine.v_bool, vf_choice=Engine.v_choice, vf_range=Engine.v_range, vf_assume=Engine.v_assume, vf_check=Engine.v_check,
         vf_reach=Engine.v_reach, vf_end=Engine.v_end, vf_havoc=Engine.v_havoc, vf_gen=Engine.v_gen, vf_round=Engine.v_round, vf_nowrite=Engine.v_watch, vf_noaccess=Engine.v_watch,
         vf_noplain=Engine.v_watch, vf_cb_load=Engine.v_watch, vf_cb_store=Engine.v_watch, vf_cb_any=Engine.v_watch, vf_cb_cas=Engine.v_watch,
         vf_cb_post=Engine.v_watch, vf_unwatch=Engine.v_unwatch, vf_unwatch_all=Engine.v_unwatch_all, vf_atomic=Engine.v_atomic,
         vf_volatile=Engine.v_volatile, vf_vrange=Engine.v_vrange, vf_opt=Engine.v_opt, vf_sameobj=Engine.v_sameobj,
         vf_alive=Engine.v_alive, vf_isptr=Engine.v_isptr, vf_kill=Engine.v_kill, vf_print=Engine.v_print, vf_snap=Engine.v_snap,
         vf_same=Engine.v_same, memcpy=Engine.b_memcpy, memmove=Engine.b_memcpy, memset=Engine.b_memset)
