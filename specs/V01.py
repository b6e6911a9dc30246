"""V01: heap allocation: fresh, zeroed, disjoint storage; nothing allocated earlier changes."""
from spec import *

LEVEL = 'proof'
TUS = ['cas/lowlevel_fsheap.cpp', 'cas/internal_typeshortcuts.cpp']
ELT = {'unsigned int': 32, 'char16_t': 16, 'char': 8, 'short': 16, 'long': 64}
H = 'uima::lowlevel::internal::Heap<%s>::'
F = 'uima::lowlevel::FSHeap::'


class Grow(Contract):
    """increaseHeap(n): returns the old top, advances it by n, keeps old cells, new cells are zero"""
    cost = 3

    def __init__(self, elt):
        self.elt, self.w = elt, ELT[elt]
        self.dem = (H % elt) + 'increaseHeap(unsigned int)'

    def setup(self, ex, st, g):
        b = ex.newblk(st, 'heap', 'heapobj', 112)
        g.h = HeapV(ex, b, 0, self.elt, self.w, 'heap').setup(ex, st)
        g.n = u('n', 0, LIM)
        return [Ptr(b, 0), g.n]

    def post(self, ex, g, st0, st1, ret):
        return [('returns the index of the first reserved cell', eq(ret, g.h.top(ex, st0)))] + g.h.grown(ex, st0, st1, g.n)

    def modifies(self, ex, g, st0):
        return {g.h.b: [('ptr', g.h.o_buf // 8, g.h.o_buf // 8 + 1), (32, g.h.o_top // 4, g.h.o_top // 4 + 1), (32, g.h.o_cells // 4, g.h.o_cells // 4 + 1)]}

    def frees(self, ex, g, st0):
        return (g.h.buf0,)

    # at call sites: only the postcondition above is known
    def call(self, ex, st, args):
        this, n = args
        if not isinstance(this.b, int) or not isinstance(this.o, int):
            raise Undecided('heap object not identified')
        h = HeapV(ex, this.b, this.o, self.elt, self.w, 'heap')
        st0 = st.snap()
        t0 = h.top(ex, st)
        for lb, f in h.wf(ex, st):
            ex.oblige(st, 'requires of increaseHeap: ' + lb, f, 'pre')
        ex.oblige(st, 'requires of increaseHeap: size fits in 32-bit cell counts', le(n, 2 * LIM), 'pre')
        old = h.buf(ex, st)
        c1 = fresh('cells', 1)
        st.assume(le(c1, 4294967295))
        nb = ex.newblk(st, 'heap', 'grown', mulc(c1, h.sz))
        ob = st.mem[old.b].copy()
        ob.live = False
        st.mem[old.b] = ob
        fput(ex, st, h.b, h.o_buf, 'ptr', Ptr(nb, 0))
        t1 = fresh('top', 1, (1 << 32) - 1)
        fput(ex, st, h.b, h.o_top, 'i32', t1)
        fput(ex, st, h.b, h.o_cells, 'i32', c1)
        for lb, f in h.grown(ex, st0, st, n):
            st.assume(f)
        return [('ret', st, t0)]


class HeapCtor(Contract):
    def __init__(self, elt):
        self.elt, self.w = elt, ELT[elt]
        self.dem = (H % elt) + 'Heap(unsigned int, int)'

    def setup(self, ex, st, g):
        b = ex.newblk(st, 'heap', 'heapobj', 112)
        g.b = b
        g.cells = u('cells', 1, LIM)
        g.h = HeapV(ex, b, 0, self.elt, self.w, 'heap')
        return [Ptr(b, 0), g.cells, 0]

    def post(self, ex, g, st0, st1, ret):
        return [('the first free cell is cell 1', eq(g.h.top(ex, st1), 1)),
                ('capacity is the requested page size', eq(g.h.cells(ex, st1), g.cells))] + g.h.wf(ex, st1) + \
               [('cell 0 (the null reference) is zero', eq(g.h.at(ex, st1, 0), 0))]

    def modifies(self, ex, g, st0):
        return {g.b: None}


class HeapReset(Contract):
    def __init__(self, elt):
        self.elt, self.w = elt, ELT[elt]
        self.dem = (H % elt) + 'reset()'

    def setup(self, ex, st, g):
        b = ex.newblk(st, 'heap', 'heapobj', 112)
        g.h = HeapV(ex, b, 0, self.elt, self.w, 'heap').setup(ex, st)
        return [Ptr(b, 0)]

    def post(self, ex, g, st0, st1, ret):
        return [('the heap is empty again', eq(g.h.top(ex, st1), 1)), ('cell 0 (the null reference) stays zero', IMP(eq(g.h.at(ex, st0, 0), 0), eq(g.h.at(ex, st1, 0), 0)))] + g.h.wf(ex, st1)

    def modifies(self, ex, g, st0):
        return {g.h.b: [(32, g.h.o_top // 4, g.h.o_top // 4 + 1)], g.h.buf0: None}

    def call(self, ex, st, args):
        this, = args
        h = HeapV(ex, this.b, this.o, self.elt, self.w, 'heap')
        for lb, f in h.wf(ex, st):
            ex.oblige(st, 'requires of reset: ' + lb, f, 'pre')
        null = h.at(ex, st, 0)
        bb = h.buf(ex, st).b
        blk = st.mem[bb].copy()
        blk.arrs[self.w] = a_havoc(blk.arr(self.w), freshname('reset'))
        st.mem[bb] = blk
        fput(ex, st, h.b, h.o_top, 'i32', 1)
        for lb, f in h.wf(ex, st):
            st.assume(f)
        st.assume(IMP(eq(null, 0), eq(h.at(ex, st, 0), 0)))
        return [('ret', st, None)]


class FSC(Contract):
    """contracts over a whole FSHeap"""

    def base(self, ex, st, g):
        g.ts = TSV(ex, st)
        g.H = FSHeapV(ex, st, g.ts)
        return Ptr(g.H.b, 0)

    def used(self, g):
        return []

    def modifies(self, ex, g, st0):
        m = {}
        for h in self.used(g):
            m.setdefault(h.b, []).extend([('ptr', h.o_buf // 8, h.o_buf // 8 + 1), (32, h.o_top // 4, h.o_top // 4 + 1), (32, h.o_cells // 4, h.o_cells // 4 + 1)])
            m[h.buf0] = None
        return m

    def frees(self, ex, g, st0):
        return [h.buf0 for h in self.used(g)]

    def rest(self, ex, g, st0, st1):
        L = []
        for h in g.H.h.values():
            if h not in self.used(g):
                L += h.same(ex, st0, st1)
        return L


class CreateFS(FSC):
    dem = F + 'createFS(unsigned int, unsigned int)'

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        g.type, g.n = u('type'), u('nfeat', 0, 1 << 20)
        return [this, g.type, g.n]

    def used(self, g):
        return [g.H.fs]

    def post(self, ex, g, st0, st1, ret):
        t0 = g.H.fs.top(ex, st0)
        return [('returns a fresh non-null reference', AND(eq(ret, t0), ge(ret, 1)))] + \
            g.H.fs.grown(ex, st0, st1, add(g.n, 1), lambda k: ite(eq(k, t0), g.type, 0)) + self.rest(ex, g, st0, st1)


class CreateFS1(CreateFS):
    dem = F + 'createFS(unsigned int)'

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        g.type = u('type', 1)
        st.assume(lt(g.type, g.ts.nt))
        g.n = g.ts.featnum(st, g.type)
        st.assume(le(g.n, 1 << 20))
        return [this, g.type]


class CreateArray(FSC):
    dem = F + 'createArrayFS(unsigned int, unsigned long)'
    cost = 5

    def __init__(self, kind):
        self.kind = kind
        self.title = self.dem + ' for %s arrays' % kind

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        g.n = var('size', 0, LIM)
        ty = lambda nm: gconst(ex, st, nm)
        T = {'long': 'gs_tyLongArrayType', 'double': 'gs_tyDoubleArrayType', 'boolean': 'gs_tyBooleanArrayType', 'byte': 'gs_tyByteArrayType', 'short': 'gs_tyShortArrayType'}
        if self.kind in T:
            g.type = ty(T[self.kind])
        else:
            g.type = u('type', 1)
            for x in T.values():
                st.assume(ne(g.type, ty(x)))
        g.side = {'long': g.H.h64, 'double': g.H.h64, 'boolean': g.H.h8, 'byte': g.H.h8, 'short': g.H.h16}.get(self.kind)
        return [this, g.type, g.n]

    def used(self, g):
        return [g.H.fs] + ([g.side] if g.side else [])

    def post(self, ex, g, st0, st1, ret):
        fs = g.H.fs
        t0 = fs.top(ex, st0)
        L = [('returns a fresh non-null reference', AND(eq(ret, t0), ge(ret, 1)))]
        if g.side is None:
            L += fs.grown(ex, st0, st1, add(g.n, 2), lambda k: ite(eq(k, t0), g.type, ite(eq(k, add(t0, 1)), g.n, 0)))
        else:
            s0 = g.side.top(ex, st0)
            L += fs.grown(ex, st0, st1, 3, lambda k: ite(eq(k, t0), g.type, ite(eq(k, add(t0, 1)), g.n, s0)))
            L += g.side.grown(ex, st0, st1, g.n)
        return L + self.rest(ex, g, st0, st1)


class AddString(FSC):
    dem = F + 'addString(uima::UnicodeStringRef const&)'
    cost = 4

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        g.len = u('len', 0, LIM // 2)
        g.src = ex.newblk(st, 'heap', 'chars', mulc(g.len, 2))
        b = ex.newblk(st, 'heap', 'ref', 16)
        fput(ex, st, b, ex.P.off('uima::UnicodeStringRef', 'iv_pUChars'), 'ptr', Ptr(g.src, 0))
        fput(ex, st, b, ex.P.off('uima::UnicodeStringRef', 'iv_uiLength'), 'i32', g.len)
        return [this, Ptr(b, 0)]

    def used(self, g):
        return [g.H.str]

    def post(self, ex, g, st0, st1, ret):
        s = g.H.str
        t0 = s.top(ex, st0)
        return [('returns the offset of the copy', eq(ret, t0))] + \
            s.grown(ex, st0, st1, add(g.len, 1), lambda k: ite(lt(k, add(t0, g.len)), cell(st0, g.src, sub(k, t0), 16), 0)) + self.rest(ex, g, st0, st1)


class AddLong(FSC):
    def __init__(self, dbl):
        self.dbl = dbl
        self.dem = F + ('addDouble(double)' if dbl else 'addLong(long)')

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        g.v = u('v', 0, (1 << 64) - 1)
        return [this, g.v]

    def used(self, g):
        return [g.H.h64]

    def post(self, ex, g, st0, st1, ret):
        h = g.H.h64
        t0, t1 = h.top(ex, st0), h.top(ex, st1)
        return [('returns a fresh non-null cell', AND(eq(ret, t0), ge(ret, 1))), ('the cell holds the value', eq(h.at(ex, st1, ret), g.v)),
                ('the cell is reserved', lt(ret, t1)),
                ('every cell allocated before keeps its value', all_k(0, t0, lambda k: eq(h.at(ex, st1, k), h.at(ex, st0, k))))] + h.wf(ex, st1) + self.rest(ex, g, st0, st1)


class FSReset(FSC):
    dem = F + 'reset()'
    cost = 4

    def setup(self, ex, st, g):
        return [self.base(ex, st, g)]

    def used(self, g):
        return list(g.H.h.values())

    def frees(self, ex, g, st0):
        return ()

    def post(self, ex, g, st0, st1, ret):
        L = []
        for h in g.H.h.values():
            L.append(('%s is empty again' % h.name, eq(h.top(ex, st1), 1)))
            L += h.wf(ex, st1)
        return L


class FSCtor(Contract):
    def __init__(self, five):
        self.five = five
        self.dem = F + 'FSHeap(uima::lowlevel::TypeSystem const&, unsigned long, unsigned long, unsigned long%s)' % (', unsigned long' if five else '')

    def setup(self, ex, st, g):
        g.ts = TSV(ex, st)
        o = ex.P.off(FSHeapV.CLS, 'iv_rclTypeSystem')
        g.b = ex.newblk(st, 'heap', 'heap', o + 8)
        g.sz = [var('page%d' % k, 1, LIM) for k in range(4 if self.five else 3)]
        return [Ptr(g.b, 0), Ptr(g.ts.b, 0)] + g.sz

    def post(self, ex, g, st0, st1, ret):
        L = []
        for f, (elt, w) in HEAPT.items():
            h = HeapV(ex, g.b, ex.P.off(FSHeapV.CLS, f), elt, w, f.replace('iv_clTemporary', ''))
            L.append(('%s starts empty' % h.name, eq(h.top(ex, st1), 1)))
            L += h.wf(ex, st1)
        p = fget(ex, st1, g.b, ex.P.off(FSHeapV.CLS, 'iv_rclTypeSystem'), 'ptr')
        L.append(('refers to the given type system', AND(eq(p.b, g.ts.b), eq(p.o, 0))))
        return L

    def modifies(self, ex, g, st0):
        return {g.b: None}


CONTRACTS = [Grow(e) for e in ELT] + [HeapCtor(e) for e in ELT] + [HeapReset(e) for e in ELT] + \
    [CreateFS(), CreateFS1()] + [CreateArray(k) for k in ('long', 'double', 'boolean', 'byte', 'short', '32-bit')] + \
    [AddString(), AddLong(False), AddLong(True), FSReset(), FSCtor(False), FSCtor(True)]
REPLAY = 'V01.cpp'
STUBS = []
