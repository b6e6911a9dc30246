"""Contracts of the std::vector operations the code uses (libstdc++ bodies, compiled from the installed headers, are verified like the rest)."""
import re
from spec import *

IT = {8: 'i8', 16: 'i16', 32: 'i32', 64: 'i64'}


class Push(Contract):
    """push_back: one element more, the others kept"""
    optional = True     # a library contract: nothing to prove when the compiled sources do not use it

    def __init__(self, elt, esz, arg=None):
        self.elt, self.esz = elt, esz
        self.dem = 'std::vector<%s, std::allocator<%s>>::push_back(%s)' % (elt, elt, arg or elt + ' const&')

    def setup(self, ex, st, g):
        b = ex.newblk(st, 'heap', 'vec', 24)
        g.v = VecV(b, 0, self.esz, name='vec').setup(ex, st)
        g.x = ex.newblk(st, 'heap', 'arg', self.esz)
        return [Ptr(b, 0), Ptr(g.x, 0)]

    def rel(self, ex, v, s0, s1, x):
        n = v.size(ex, s0)
        return [('one element more', eq(v.size(ex, s1), add(n, 1))), ('the new element is last', eq(v.at(ex, s1, n), x)),
                ('the other elements are kept', all_k(0, n, lambda k: eq(v.at(ex, s1, k), v.at(ex, s0, k))))] + v.wf(ex, s1)

    def post(self, ex, g, st0, st1, ret):
        return self.rel(ex, g.v, st0, st1, cell(st0, g.x, 0, self.esz * 8))

    def modifies(self, ex, g, st0):
        return g.v.mod()

    def frees(self, ex, g, st0):
        return [g.v.buf0]

    def call(self, ex, st, args):
        this, xp = args
        rs = ex.resolve(st, this)
        if len(rs) != 1:
            raise Undecided('vector not identified')
        this = Ptr(rs[0][1], this.o)
        ex.checkaccess(st, this.b, this.o, 24, 'vector object')
        v = VecV(this.b, this.o, self.esz, name='vec')
        for lb, f in v.wf(ex, st):
            ex.oblige(st, 'requires of push_back: ' + lb, f, 'pre')
        n = v.size(ex, st)
        ex.oblige(st, 'requires of push_back: representable size', lt(n, 2 * LIM), 'pre')
        out = []
        for s, b in ex.resolve(st, xp):
            ex.checkaccess(s, b, xp.o, self.esz, 'argument of push_back')
            x = a_read(s.mem[b].arr(self.esz * 8), div(xp.o, self.esz))
            s0 = s.snap()
            v.move(ex, s, add(n, 1))
            for lb, f in self.rel(ex, v, s0, s, x):
                s.assume(f)
            out.append(('ret', s, None))
        return out


def pushes(elt, esz):
    return [Push(elt, esz), Push(elt, esz, elt + '&&')]


def vecof(t):
    return 'std::vector<%s, std::allocator<%s>>' % (t, t)


class Resize(Contract):
    """resize to a size not smaller than the present one: the elements are kept, the new ones have the default value"""
    optional = True

    def __init__(self, elt, esz, default=lambda: 0, widths=None):
        self.elt, self.esz, self.default = elt, esz, default
        self.widths = widths or {esz * 8: default}
        self.dem = vecof(elt) + '::resize(unsigned long)'

    def setup(self, ex, st, g):
        b = ex.newblk(st, 'heap', 'vec', 24)
        g.v = VecV(b, 0, self.esz, name='vec').setup(ex, st)
        g.n = u('newsize', 0, LIM)
        st.assume(le(g.v.n0, g.n))
        return [Ptr(b, 0), g.n]

    def post(self, ex, g, st0, st1, ret):
        v = g.v
        return [('the requested size', eq(v.size(ex, st1), g.n)), ('the elements are kept', all_k(0, v.n0, lambda k: eq(v.at(ex, st1, k), v.at(ex, st0, k)))),
                ('new elements have the default value', all_k(v.n0, g.n, lambda k: eq(v.at(ex, st1, k), self.default())))] + v.wf(ex, st1)

    def modifies(self, ex, g, st0):
        return g.v.mod()

    def frees(self, ex, g, st0):
        return [g.v.buf0]

    def inv(self, ex, lc):
        if not hasattr(ex.g, 'v'):
            return []
        L, v0, st0 = [], ex.g.v, ex.g.st0
        for key, nm in lc.ptrs.items():
            e = lc.ev[key]
            if not isinstance(e.b, int) or e.b == 0:
                continue
            def filled(v, s, key=key, e=e):
                return all_k(div(e.o, self.esz), div(v[key].o, self.esz), lambda k: eq(cell(s, e.b, k, self.esz * 8), self.default()))
            def before(v, s, key=key, e=e):
                return all_k(0, div(e.o, self.esz), lambda k: eq(cell(s, e.b, k, self.esz * 8), cell(lc.entry, e.b, k, self.esz * 8)))
            L += [('filled up to %s' % nm, filled), ('kept before the start of %s' % nm, before)]
        return L

    def call(self, ex, st, args):
        this, n = args
        rs = ex.resolve(st, this)
        if len(rs) != 1:
            raise Undecided('vector not identified')
        this = Ptr(rs[0][1], this.o)
        v = VecV(this.b, this.o, self.esz, name='vec')
        for lb, f in v.wf(ex, st):
            ex.oblige(st, 'requires of resize: ' + lb, f, 'pre')
        n0 = v.size(ex, st)
        ex.oblige(st, 'requires of resize: not smaller than before, representable', AND(le(n0, n), lt(n, 2 * LIM)), 'pre')
        old = v.ptrs(ex, st)[0]
        if isinstance(old.b, int) and old.b == 0:
            src = {w: a_base('none', w) for w in self.widths}
        else:
            oblk = st.mem[old.b] if isinstance(old.b, int) else v.member(ex, st, old)
            src = {w: oblk.arr(w) for w in self.widths}
        nb = v.move(ex, st, n)
        for w, dflt in self.widths.items():
            per = 3 if isinstance(w, str) else self.esz * 8 // w
            a = a_copy(a_base(freshname('rs'), w), 0, mulc(n0, per), src[w], div(old.o, self.esz // per))
            ex.setarr(st, nb, w, a_fill(a, mulc(n0, per), mulc(n, per), dflt()))
        return [('ret', st, None)]


class ResizeNull(Resize):
    """resize of a vector that never had a buffer"""
    call = Contract.call

    def __init__(self, *a, **k):
        Resize.__init__(self, *a, **k)
        self.title = self.dem + ' of a vector without a buffer'

    def setup(self, ex, st, g):
        b = ex.newblk(st, 'heap', 'vec', 24)
        g.v = VecV(b, 0, self.esz, name='vec')
        for o in (0, 8, 16):
            fput(ex, st, b, o, 'ptr', NULL)
        g.v.n0, g.v.buf0 = 0, None
        g.n = u('newsize', 0, LIM)
        return [Ptr(b, 0), g.n]

    def post(self, ex, g, st0, st1, ret):
        v = g.v
        if isinstance(v.ptrs(ex, st1)[0].b, int) and v.ptrs(ex, st1)[0].b == 0:
            return [('no elements requested', eq(g.n, 0))] + v.wf(ex, st1)
        return [('the requested size', eq(v.size(ex, st1), g.n)), ('new elements have the default value', all_k(0, g.n, lambda k: eq(v.at(ex, st1, k), self.default())))] + v.wf(ex, st1)

    def modifies(self, ex, g, st0):
        return {g.v.b: [('ptr', 0, 3)]}

    def frees(self, ex, g, st0):
        return []


class BitV:
    """logical view of a std::vector<bool>: a sequence of bits (assumed representation: one cell of a separate buffer per bit)"""
    def __init__(self, b, off, name='bits'):
        self.b, self.off, self.name = b, off, name

    def setup(self, ex, st, n):
        self.n0 = n
        self.buf0 = ex.newblk(st, 'heap', self.name, n)
        self.put(ex, st, self.buf0, n)
        return self

    def put(self, ex, st, buf, n):
        fput(ex, st, self.b, add(self.off, 0), 'ptr', Ptr(buf, 0))
        fput(ex, st, self.b, add(self.off, 16), 'ptr', Ptr(buf, n))

    def size(self, ex, st):
        return fget(ex, st, self.b, add(self.off, 16), 'ptr').o

    def buf(self, ex, st):
        p = fget(ex, st, self.b, add(self.off, 0), 'ptr')
        rs = ex.resolve(st, p)
        if len(rs) != 1:
            raise Undecided('bits of an unknown vector')
        return rs[0][1]

    def at(self, ex, st, k):
        return a_read(st.mem[self.buf(ex, st)].arr(8), k)


def bitsof(ex, st, p):
    rs = ex.resolve(st, p)
    if len(rs) != 1:
        raise Undecided('unknown vector of bool')
    ex.checkaccess(st, rs[0][1], p.o, 40, 'vector<bool> object')
    return BitV(rs[0][1], p.o)


def vb_push(ex, st, a, i, d):
    v = bitsof(ex, st, a[0])
    n = v.size(ex, st)
    old = v.buf(ex, st)
    x = a[1]
    x = ite(x, 1, 0) if isinstance(x, bool) or getattr(x, 'isb', False) else x
    nb = ex.newblk(st, 'heap', 'bits', add(n, 1))
    ex.setarr(st, nb, 8, a_store(a_copy(a_base(freshname('bits'), 8), 0, n, st.mem[old].arr(8), 0), n, x))
    v.put(ex, st, nb, add(n, 1))
    return None


def vb_index(ex, st, a, i, d):
    """operator[]: reference to one bit"""
    v = bitsof(ex, st, a[0])
    ex.oblige(st, 'requires of vector<bool>::operator[]: index within the size', lt(a[1], v.size(ex, st)), 'pre')
    return v, a[1]


def vb_get(ex, st, a, i, d):
    v, k = vb_index(ex, st, a, i, d)
    return eq(v.at(ex, st, k), 1)


def vb_ref(ex, st, a, i, d):
    v, k = vb_index(ex, st, a, i, d)
    return Agg([Ptr(v.buf(ex, st), k), 1])


def vb_size(ex, st, a, i, d):
    return bitsof(ex, st, a[0]).size(ex, st)


VB = r'std::vector<bool, std::allocator<bool>>::'
BITS = [(re.compile(VB + r'push_back\(bool\)'), vb_push), (re.compile(VB + r'operator\[\]\(unsigned long\) const'), vb_get),
        (re.compile(VB + r'operator\[\]\(unsigned long\)$'), vb_ref), (re.compile(VB + r'size\(\) const'), vb_size)]


class InsertEnd(Push):
    """insert at the end: one element more, the others kept, the result is the position of the new element"""

    def __init__(self, elt, esz, arg=None):
        self.elt, self.esz = elt, esz
        self.dem = '%s::insert(__gnu_cxx::__normal_iterator<%s const*, %s>, %s)' % (vecof(elt), elt, vecof(elt), arg or elt + '&&')

    def setup(self, ex, st, g):
        this, xp = Push.setup(self, ex, st, g)
        return [this, g.v.ptrs(ex, st)[1], xp]

    def post(self, ex, g, st0, st1, ret):
        p = g.v.ptrs(ex, st1)[0]
        return Push.post(self, ex, g, st0, st1, ret) + [('the position of the new element', AND(eq(ret.b, p.b), eq(ret.o, add(p.o, mulc(g.v.size(ex, st0), self.esz)))))]

    def call(self, ex, st, args):
        this, it, xp = args
        rs = ex.resolve(st, this)
        if len(rs) != 1:
            raise Undecided('vector not identified')
        v = VecV(rs[0][1], this.o, self.esz, name='vec')
        e = v.ptrs(ex, st)[1]
        ex.oblige(st, 'requires of insert: at the end', AND(eq(e.b, it.b), eq(e.o, it.o)), 'pre')
        n = v.size(ex, st)
        out = []
        for kind, s, r in Push.call(self, ex, st, [this, xp]):
            p = v.ptrs(ex, s)[0]
            out.append((kind, s, Ptr(p.b, add(p.o, mulc(n, self.esz)))))
        return out
