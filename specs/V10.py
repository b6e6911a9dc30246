"""V10: binary CAS serialization: a blob holds exactly the heaps and indexed structures of the CAS, and reading it back restores them, in either byte order."""
from api import *
import stl

LEVEL = 'proof'
TUS = ['cas/internal_casserializer.cpp', 'cas/internal_casdeserializer.cpp', 'cas/internal_casimpl.cpp', 'cas/lowlevel_fsheap.cpp', 'cas/internal_typeshortcuts.cpp', 'cas/cas.cpp']
REPLAY = 'V10.cpp'
SER = 'uima::internal::CASSerializer::'
DES = 'uima::internal::CASDeserializer::'
NS = 'uima::internal::'
SCAS = 'uima::internal::SerializedCAS'
VU = stl.vecof('unsigned int')
NUM = 'unsigned int'
KEY = 0x55494D41


def bswap(x, n):
    """the value with the n bytes of x in reverse order"""
    r = 0
    for k in range(n):
        r = add(r, mulc(mod(div(x, 256 ** k), 256), 256 ** (n - 1 - k)))
    return r


def bs(x, n):
    """byte reversal as an uninterpreted function (swap2/swap4/swap8 are proved to compute it)"""
    if isinstance(x, int):
        return bswap(x, n)
    return uf('bswap%d' % n, x, lo=0, hi=256 ** n - 1)


class Swap(Contract):
    """swapN: reverses the bytes of its argument"""
    def __init__(self, n):
        self.n = n
        self.dem = NS + {2: 'swap2(short)', 4: 'swap4(int)', 8: 'swap8(long)'}[n]

    def setup(self, ex, st, g):
        g.x = u('x', 0, 256 ** self.n - 1)
        return [g.x]

    def post(self, ex, g, st0, st1, ret):
        return [('byte %d of the result is byte %d of the argument' % (self.n - 1 - k, k), eq(byte(ret, self.n - 1 - k), byte(g.x, k))) for k in range(self.n)] + \
               [('the result is the argument with its bytes reversed', eq(ret, bswap(g.x, self.n)))]

    def call(self, ex, st, args):
        return [('ret', st, bs(args[0], self.n))]


def byte(x, k):
    return bytesof(x, 8)[k]


class SwapInverse(Contract):
    """lemma: reversing the bytes twice gives the value back (so a blob that is swapped by its reader has the values its writer gave)"""
    dem = None
    title = 'lemma: byte reversal is its own inverse'

    def setup(self, ex, st, g):
        return []

    def lemmas(self, ex, g, st):
        for n in (2, 4, 8):
            bytes_ = [u('b%d' % k, 0, 255) for k in range(n)]
            x = 0
            for k, b in enumerate(bytes_):
                x = add(x, mulc(b, 256 ** k))
            y = 0
            for k, b in enumerate(bytes_):
                y = add(y, mulc(b, 256 ** (n - 1 - k)))
            z = sum_([mulc(byte_of_sum(bytes_[::-1], k), 256 ** (n - 1 - k)) for k in range(n)])
            ex.oblige(st, '%d bytes' % n, eq(z, x), 'post')


def sum_(L):
    r = 0
    for x in L:
        r = add(r, x)
    return r


def byte_of_sum(bytes_, k):
    x = sum_([mulc(b, 256 ** j) for j, b in enumerate(bytes_)])
    return mod(div(x, 256 ** k), 256)


class SwapArr(Contract):
    """intSwap/shortSwap/longSwap: reverses the bytes of each of the count cells, in place"""
    cost = 2

    def __init__(self, n):
        self.n = n
        self.w = 8 * n
        self.dem = NS + {2: 'shortSwap(short*, int)', 4: 'intSwap(int*, int)', 8: 'longSwap(long*, int)'}[n]

    def setup(self, ex, st, g):
        g.n = u('count', 0, LIM)
        g.cap = u('cells', 0, LIM)
        g.lo = u('first', 0, LIM)
        st.assume(le(add(g.lo, g.n), g.cap))
        g.b = ex.newblk(st, 'heap', 'buffer', mulc(g.cap, self.n))
        return [Ptr(g.b, mulc(g.lo, self.n)), g.n]

    def post(self, ex, g, st0, st1, ret):
        return [('every cell of the range has its bytes reversed', all_k(g.lo, add(g.lo, g.n), lambda k: eq(cell(st1, g.b, k, self.w), bs(cell(st0, g.b, k, self.w), self.n))))]

    def modifies(self, ex, g, st0):
        return {g.b: [(self.w, g.lo, add(g.lo, g.n))]}

    def inv(self, ex, lc):
        g = ex.g
        if not hasattr(g, 'cap'):
            return []
        c = lambda s, k: cell(s, g.b, k, self.w)
        st0 = g.st0
        L = [('cells outside the range are as before', lambda v, s: all_k(0, g.cap, lambda k: OR(AND(le(g.lo, k), lt(k, add(g.lo, g.n))), eq(c(s, k), c(st0, k)))))]
        def both(pos, nm_):
            end = add(g.lo, g.n)
            L.append(('cells before %s are swapped' % nm_, lambda v, s: all_k(g.lo, pos(v), lambda k: eq(c(s, k), bs(c(st0, k), self.n)))))
            L.append(('cells from %s on are as before' % nm_, lambda v, s: all_k(pos(v), end, lambda k: eq(c(s, k), c(st0, k)))))
            L.append(('%s lies in the range' % nm_, lambda v, s: AND(le(g.lo, pos(v)), le(pos(v), end))))
            # loops that run down
            L.append(('cells from %s on are swapped' % nm_, lambda v, s: all_k(pos(v), end, lambda k: eq(c(s, k), bs(c(st0, k), self.n)))))
            L.append(('cells before %s are as before' % nm_, lambda v, s: all_k(g.lo, pos(v), lambda k: eq(c(s, k), c(st0, k)))))
        for key, (nm_, w) in lc.ints.items():
            both(lambda v, key=key: add(g.lo, v[key]), nm_)
            both(lambda v, key=key: sub(add(g.lo, g.n), v[key]), 'count - ' + nm_)
        for key, nm_ in lc.ptrs.items():
            e = lc.ev[key]
            if isinstance(e.b, int) and e.b == g.b:
                both(lambda v, key=key: div(v[key].o, self.n), nm_)
        return L

    def call(self, ex, st, args):
        p, n = args
        n = ex.sgn(st, n, 32)
        rs = ex.resolve(st, p)
        if len(rs) != 1:
            raise Undecided('buffer not identified')
        st, b = rs[0]
        ex.oblige(st, 'requires of the swap of an array: count not negative', le(0, n), 'pre')
        lo = div(p.o, self.n)
        blk = st.mem[b]
        if blk.allow is not None:
            ex.oblige(st, 'requires of the swap of an array: every cell is one of a section of this width', all_k(0, n, lambda k: blk.allow(add(p.o, mulc(k, self.n)), self.n)), 'pre')
        else:
            ex.oblige(st, 'requires of the swap of an array: inside the buffer', AND(le(0, p.o), le(add(p.o, mulc(n, self.n)), blk.size)), 'pre')
        ex.setarr(st, b, self.w, a_map(blk.arr(self.w), lo, add(lo, n), lambda x: bs(x, self.n)))
        return [('ret', st, None)]



# ------------------------------------------------------------------ the blob
SEC = ('F', 'S', 'R', 'I', 'B', 'H', 'L')      # FS heap, strings, string references, indexed structures, 8, 16 and 64 bit heaps


class Layout:
    """word positions of the sections of a blob with the given number of cells in each heap"""

    def __init__(self, n):
        self.n = n
        self.dF = 3
        self.pS = add(3, n['F'])
        self.dS = add(self.pS, 1)
        self.hS = div(add(n['S'], 1), 2)
        self.pR = add(self.dS, self.hS)
        self.dR = add(self.pR, 1)
        self.pI = add(self.dR, n['R'])
        self.dI = add(self.pI, 1)
        self.pB = add(self.dI, n['I'])
        self.dB = add(self.pB, 1)
        self.qB = div(add(n['B'], 3), 4)
        self.pH = add(self.dB, self.qB)
        self.dH = add(self.pH, 1)
        self.qH = div(add(n['H'], 1), 2)
        self.pL = add(self.dH, self.qH)
        self.dL = add(self.pL, 1)
        self.end = add(self.dL, mulc(n['L'], 2))
        self.bytes = mulc(self.end, 4)
        # section -> (cell width, first cell, length word)
        self.sec = {'F': (32, 3, 2), 'S': (16, mulc(self.dS, 2), self.pS), 'R': (32, self.dR, self.pR), 'I': (32, self.dI, self.pI),
                    'B': (8, mulc(self.dB, 4), self.pB), 'H': (16, mulc(self.dH, 2), self.pH), 'L': (64, div(self.dL, 2), self.pL)}

    def typed(self, size):
        """permitted accesses: single cells at a place of their width (64-bit cells are only accessed as such), blocks anywhere inside"""
        def allow(off, n):
            inb = AND(le(0, off), le(add(off, n), size))
            if n == 4 and isinstance(n, int):
                k = div(off, 4)
                return AND(inb, eq(mod(off, 4), 0), OR(lt(k, self.dS), AND(le(self.pR, k), lt(k, self.dB)), eq(k, self.pH), eq(k, self.pL)))
            if n == 2 and isinstance(n, int):
                k = div(off, 2)
                return AND(inb, eq(mod(off, 2), 0), OR(AND(le(mulc(self.dS, 2), k), lt(k, mulc(self.pR, 2))), AND(le(mulc(self.dH, 2), k), lt(k, mulc(self.pL, 2)))))
            if n == 8 and isinstance(n, int):
                return AND(inb, le(mulc(self.dL, 4), off), eq(mod(sub(off, mulc(self.dL, 4)), 8), 0))
            return inb
        return allow


def heapof(g, x):
    H = g.H
    return {'F': H.fs, 'S': H.str, 'R': H.ref, 'B': H.h8, 'H': H.h16, 'L': H.h64}[x]


NAME = {'F': 'FS heap', 'S': 'string heap', 'R': 'string reference heap', 'I': 'indexed structures', 'B': '8-bit heap', 'H': '16-bit heap', 'L': '64-bit heap'}


def serialize_indexed(ex, st, args, i, dem):
    """assumed: fills the vector with the indexed structures; nothing else changes"""
    this, cas, vec = args
    v = VecV(vec.b, vec.o, 4, name='indexed')
    n = u(freshname('indexed'), 0, LIM)
    v.move(ex, st, n)
    g = ex.g
    return [('ret', st, None)]


class BlobC(ApiC):
    inline_callee = lambda self, dem: dem == self.dem

    def world(self, ex, st, g):
        self.cas(ex, st, g)
        P = ex.P
        g.base = ex.newblk(st, 'heap', 'base CAS', st.mem[g.cas].size)
        for b in (g.cas, g.base):
            fput(ex, st, b, P.off('uima::CAS', 'iv_heap'), 'ptr', Ptr(g.H.b, 0))
            fput(ex, st, b, P.off('uima::CAS', 'iv_baseCas'), 'ptr', Ptr(g.base, 0))
        for h in g.H.h.values():
            st.assume(eq(h.at(ex, st, 0), 0))       # the null cell (V01: zero from construction on)


class BlobSer(BlobC):
    def setup(self, ex, st, g):
        self.world(ex, st, g)
        g.ser = ex.newblk(st, 'heap', 'CASSerializer', 256)
        g.o = ex.P.off('uima::internal::CASSerializer', 'iv_vecIndexedFSs')
        g.vec = VecV(g.ser, g.o, 4, name='indexed').setup(ex, st)
        return [Ptr(g.ser, 0), Ptr(g.cas, 0)]

    def lay(self, ex, g, st):
        n = {x: heapof(g, x).top(ex, st) for x in SEC if x != 'I'}
        n['I'] = VecV(g.ser, g.o, 4, name='indexed').size(ex, st)
        return Layout(n)


class GetBlobSize(BlobSer):
    dem = SER + 'getBlobSize(uima::CAS&)'

    def post(self, ex, g, st0, st1, ret):
        return [('the size of the blob in bytes', eq(ret, self.lay(ex, g, st1).bytes))] + self.kept(ex, g, st0, st1)

    def modifies(self, ex, g, st0):
        m = ApiC.modifies(self, ex, g, st0)
        m.update(g.vec.mod())
        return m

    def frees(self, ex, g, st0):
        return [g.vec.buf0]


class GetBlob(BlobSer):
    dem = SER + 'getBlob(uima::CAS&, void*, unsigned long)'

    def setup(self, ex, st, g):
        a = BlobSer.setup(self, ex, st, g)
        g.max = u('maxSize', 0, 1 << 40)
        g.lay = l = self.lay(ex, g, st)
        g.buf = ex.newblk(st, 'heap', 'blob', g.max)
        st.mem[g.buf].allow = l.typed(g.max)
        return a + [Ptr(g.buf, 0), g.max]

    def post(self, ex, g, st0, st1, ret):
        l = g.lay
        fit = le(l.bytes, g.max)
        c = lambda k, w: cell(st1, g.buf, k, w)
        L = [('returns the size of the blob, or 0 exactly when the buffer is too small', eq(ret, ite(fit, l.bytes, 0))),
             ('the blob starts with the key', IMP(fit, eq(c(0, 32), KEY))), ('the version is 1', IMP(fit, eq(c(1, 32), 1)))]
        # recorded lengths: string, 8 and 16 bit sections are padded to whole words
        ln = {'F': l.n['F'], 'S': mulc(l.hS, 2), 'R': l.n['R'], 'I': l.n['I'], 'B': mulc(l.qB, 4), 'H': mulc(l.qH, 2), 'L': l.n['L']}
        for x in SEC:
            w, d, p = l.sec[x]
            L.append(('%s: recorded length' % NAME[x], IMP(fit, eq(c(p, 32), ln[x]))))
            if x == 'I':
                val = lambda k: g.vec.at(ex, st0, k)
            else:
                val = lambda k, x=x: heapof(g, x).at(ex, st0, k)
            L.append(('%s: every cell is stored' % NAME[x], IMP(fit, all_k(0, l.n[x], lambda k: eq(c(add(d, k), w), val(k))))))
        return L + self.kept(ex, g, st0, st1)

    def modifies(self, ex, g, st0):
        m = ApiC.modifies(self, ex, g, st0)
        m[g.buf] = [('bytes', 0, ite(le(g.lay.bytes, g.max), g.lay.bytes, 0))]
        return m



class BlobDes(BlobC):
    def blob(self, ex, st, g, foreign):
        """a blob in memory: any lengths; its header words give them in the byte order of the blob"""
        n = {x: u('n' + x, 0, 1 << 20) for x in SEC}
        g.lay = l = Layout(n)
        g.blob = ex.newblk(st, 'heap', 'blob', l.bytes)
        st.mem[g.blob].allow = l.typed(l.bytes)
        g.foreign = foreign
        c = lambda k: bs(cell(st, g.blob, k, 32), 4) if foreign else cell(st, g.blob, k, 32)
        for x in SEC:
            st.assume(eq(c(l.sec[x][2]), n[x]))
        if foreign:
            st.assume(eq(cell(st, g.blob, 0, 32), bswap(KEY, 4)))
            st.assume(eq(bs(cell(st, g.blob, 0, 32), 4), KEY))
        else:
            st.assume(eq(cell(st, g.blob, 0, 32), KEY))
        st.assume(eq(c(1), 1))
        z = lambda x: st.assume(eq(self.content(ex, g, st, x, 0), 0))
        for x in ('F', 'S', 'R'):       # cell 0 of each heap is the null cell
            st.assume(IMP(lt(0, n[x]), eq(self.content(ex, g, st, x, 0), 0)))

    def content(self, ex, g, st, x, k):
        """cell k of section x of the blob, in the byte order of this machine"""
        w, d, p = g.lay.sec[x]
        v = cell(st, g.blob, add(d, k), w)
        return bs(v, w // 8) if g.foreign and w > 8 else v

    def swapped(self, g):
        """[(width, predicate)]: the cells whose bytes are reversed"""
        l = g.lay
        return [(32, lambda k: OR(lt(k, l.dS), AND(le(l.pR, k), lt(k, l.dB)), eq(k, l.pH), eq(k, l.pL))),
                (16, lambda k: OR(AND(le(mulc(l.dS, 2), k), lt(k, add(mulc(l.dS, 2), l.n['S']))), AND(le(mulc(l.dH, 2), k), lt(k, add(mulc(l.dH, 2), l.n['H']))))),
                (64, lambda k: AND(le(div(l.dL, 2), k), lt(k, add(div(l.dL, 2), l.n['L'])))),
                (8, lambda k: False)]


class SwapBlob(BlobDes):
    dem = DES + 'swapBlob(void*)'

    def setup(self, ex, st, g):
        self.blob(ex, st, g, True)
        g.this = ex.newblk(st, 'heap', 'CASDeserializer', max(ex.P.layouts['uima::internal::CASDeserializer'].values()) + 64)
        return [Ptr(g.this, 0), Ptr(g.blob, 0)]

    def post(self, ex, g, st0, st1, ret):
        l = g.lay
        L = [('the key, the version and the first length are in this byte order', AND(*[eq(cell(st1, g.blob, k, 32), bs(cell(st0, g.blob, k, 32), 4)) for k in range(3)]))]
        for x in SEC:
            w, d, p = l.sec[x]
            L.append(('%s: its length is in this byte order' % NAME[x], eq(cell(st1, g.blob, p, 32), l.n[x])))
            L.append(('%s: every cell is in this byte order' % NAME[x], all_k(0, l.n[x], lambda k: eq(cell(st1, g.blob, add(d, k), w), self.content(ex, g, st0, x, k)))))
        return L

    def modifies(self, ex, g, st0):
        return {g.blob: None}

    def call(self, ex, st, args):
        g = ex.g
        this, p = args
        ex.oblige(st, 'requires of swapBlob: the blob, in the other byte order', AND(eq(p.b, g.blob), eq(p.o, 0)) if getattr(g, 'foreign', False) else False, 'pre')
        if st.dead:
            return []
        st0 = g.st0
        blk0 = st.mem[g.blob]
        for w, _ in self.swapped(g):
            if blk0.arr(w) is not st0.mem[g.blob].arr(w):
                raise Undecided('swapBlob on a blob that was changed before')
        for w, which in self.swapped(g):
            if w == 8:
                continue
            a = blk0.arr(w)
            ex.setarr(st, g.blob, w, lam(w, (lambda a, which, w: lambda k: ite(which(k), bs(a_read(a, k), w // 8), a_read(a, k)))(a, which, w)))
        return [('ret', st, None)]


def deserialize_indexed(ex, st, args, i, dem):
    """assumed contract of deserializeIndexedFSs: needs all heaps restored and the indexed structures of the blob; changes no heap"""
    this, vec, cas = args
    g, c = ex.g, ex.curcontract
    if not hasattr(g, 'ghost'):
        raise Undecided('deserializeIndexedFSs called outside its contract')
    l = g.lay
    v = VecV(vec.b, vec.o, 4, name='indexed')
    ex.oblige(st, 'requires of deserializeIndexedFSs: the indexed structures of the blob', AND(eq(v.size(ex, st), l.n['I']), all_k(0, l.n['I'], lambda k: eq(v.at(ex, st, k), c.content(ex, g, g.st0, 'I', k)))), 'pre')
    ex.oblige(st, 'requires of deserializeIndexedFSs: the base CAS', AND(eq(cas.b, g.base), eq(cas.o, 0)), 'pre')
    for lb, f in c.restored(ex, g, st):
        ex.oblige(st, 'requires of deserializeIndexedFSs (index order depends on the values): ' + lb, f, 'pre')
    fput(ex, st, g.ghost, 0, 'i32', add(fget(ex, st, g.ghost, 0, 'i32'), 1))
    return [('ret', st, None)]


class Deserialize(BlobDes):
    cost = 4

    def __init__(self, foreign):
        self.foreign = foreign
        self.dem = DES + 'deserializeBlob(void*, uima::CAS&)'
        self.title = self.dem + (' for a blob in the other byte order' if foreign else ' for a blob in this byte order')

    def setup(self, ex, st, g):
        self.world(ex, st, g)
        self.blob(ex, st, g, self.foreign)
        g.ghost = ex.newblk(st, 'heap', 'ghost', 8)
        fput(ex, st, g.ghost, 0, 'i32', 0)
        g.this = ex.newblk(st, 'heap', 'CASDeserializer', max(ex.P.layouts['uima::internal::CASDeserializer'].values()) + 64)
        return [Ptr(g.this, 0), Ptr(g.blob, 0), Ptr(g.cas, 0)]

    def restored(self, ex, g, st):
        L = []
        for x in SEC:
            if x == 'I':
                continue
            h, n = heapof(g, x), g.lay.n[x]
            mn = 0 if x == 'L' else 1
            L.append(('%s: as many cells as the blob has' % NAME[x], eq(h.top(ex, st), ite(le(1, n), n, 1))))
            L.append(('%s: every cell is the cell of the blob' % NAME[x], all_k(0, n, lambda k: OR(le(n, mn), eq(h.at(ex, st, k), self.content(ex, g, g.st0, x, k))))))
            L += h.wf(ex, st)
        return L

    def post(self, ex, g, st0, st1, ret):
        return self.restored(ex, g, st1) + [('the indexes are built exactly when there are indexed structures', eq(fget(ex, st1, g.ghost, 0, 'i32'), ite(lt(0, g.lay.n['I']), 1, 0)))]

    def grown(self, g):
        return list(g.H.h.values())

    def modifies(self, ex, g, st0):
        m = ApiC.modifies(self, ex, g, st0)
        m[g.ghost] = None
        if g.foreign:
            m[g.blob] = None
        return m


# ------------------------------------------------------------------ the SerializedCAS form
ARRAYS = {'F': ('createFSHeap', 'iv_vecFSHeapArray', 4), 'B': ('createByteHeap', 'iv_vecByteHeapArray', 1), 'H': ('createShortHeap', 'iv_vecShortHeapArray', 2), 'L': ('createLongHeap', 'iv_vecLongHeapArray', 8)}


class CreateHeap(BlobC):
    """the heap holds exactly the cells of the serialized array"""
    def __init__(self, x):
        self.x = x
        fn, self.field, self.esz = ARRAYS[x]
        self.dem = DES + fn + '(%s const&, uima::CAS&)' % SCAS

    def setup(self, ex, st, g):
        self.world(ex, st, g)
        g.scas = ex.newblk(st, 'heap', 'SerializedCAS', max(ex.P.layouts[SCAS].values()) + 64)
        g.v = VecV(g.scas, ex.P.off(SCAS, self.field), self.esz, name='array').setup(ex, st)
        if self.x == 'F':
            st.assume(lt(0, g.v.n0))
        st.assume(IMP(lt(0, g.v.n0), eq(g.v.at(ex, st, 0), 0)))
        g.this = ex.newblk(st, 'heap', 'CASDeserializer', max(ex.P.layouts['uima::internal::CASDeserializer'].values()) + 64)
        return [Ptr(g.this, 0), Ptr(g.scas, 0), Ptr(g.cas, 0)]

    def grown(self, g):
        return [heapof(g, self.x)]

    def post(self, ex, g, st0, st1, ret):
        h, n = heapof(g, self.x), g.v.n0
        return [('as many cells as the array has', eq(h.top(ex, st1), ite(le(1, n), n, 1))),
                ('every cell is the cell of the array', all_k(0, n, lambda k: eq(h.at(ex, st1, k), g.v.at(ex, st0, k))))] + h.wf(ex, st1) + self.kept(ex, g, st0, st1)

    def inv(self, ex, lc):
        g = ex.g
        if not hasattr(g, 'v'):
            return []
        h, L, e = heapof(g, self.x), [], self.esz
        at = lambda s, k: h.at(ex, s, k)
        src = lambda s, k: g.v.at(ex, g.st0, k)

        def both(pos, nm_):
            L.append(('cells before %s are copied' % nm_, lambda v, s: all_k(0, pos(v), lambda k: eq(at(s, k), src(s, k)))))
            L.append(('cells from %s on are copied' % nm_, lambda v, s: all_k(pos(v), g.v.n0, lambda k: eq(at(s, k), src(s, k)))))
        for key, (nm_, w) in lc.ints.items():
            both(lambda v, key=key: v[key], nm_)
        for key, nm_ in lc.ptrs.items():
            x = lc.ev[key]
            if isinstance(x.b, int) and x.b and (x.b == g.v.buf0 or x.b == h.buf(ex, lc.entry).b):
                both(lambda v, key=key: div(v[key].o, e), nm_)
        L.append(('cells past the top are zero', lambda v, s: all_k(h.top(ex, s), h.cells(ex, s), lambda k: eq(at(s, k), 0))))
        return L


# ------------------------------------------------------------------ indexed structures per view
VIEWSZ = 1 << 12    # distance of the views in the modelled family of views: view i is Ptr(views, i * VIEWSZ), its repository Ptr(repositories, i * VIEWSZ)


def viewrepo(ex, st, args, i, dem):
    """the index repository of a CAS: of the base CAS or of the view"""
    g, cas = ex.g, args[0]
    if not hasattr(g, 'reps'):
        raise Undecided('index repository outside the contract')
    out = []
    for s, b in ex.resolve(st, cas):
        if b == g.cas:
            out.append(('ret', s, Ptr(g.reps, 0)))
        elif b == g.views:
            out.append(('ret', s, Ptr(g.reps, cas.o)))
        else:
            raise Undecided('index repository of another CAS')
    return out


def viewbynum(ex, st, args, i, dem):
    g = ex.g
    if not hasattr(g, 'views'):
        raise Undecided('view outside the contract')
    n = args[1]
    ex.oblige(st, 'requires of getViewBySofaNum: one of the views of the data', AND(le(1, n), le(n, g.nv)), 'pre')
    return [('ret', st, Ptr(g.views, mulc(n, VIEWSZ)))]


def repview(ex, st, p):
    g = ex.g
    if not hasattr(g, 'reps') or p.b != g.reps:
        raise Undecided('index repository not identified')
    return div(p.o, VIEWSZ)


def represet(ex, st, args, i, dem):
    """the indexes of the view are empty (ghost: no structure added, ready)"""
    g = ex.g
    w = repview(ex, st, args[0])
    ex.setarr(st, g.gdone, 32, a_store(st.mem[g.gdone].arr(32), w, 0))
    ex.setarr(st, g.gready, 32, a_store(st.mem[g.gready].arr(32), w, 1))
    fput(ex, st, g.gcur, 0, 'i32', w)
    return [('ret', st, None)]


def repadd(ex, st, args, i, dem):
    g = ex.g
    w, x = repview(ex, st, args[0]), args[1]
    k = cell(st, g.gdone, w, 32)
    ex.oblige(st, 'structures are added to the indexes of a view only after these were emptied', eq(cell(st, g.gready, w, 32), 1), 'pre')
    ex.oblige(st, 'no more structures than the data lists for the view', lt(k, g.cnt(w)), 'pre')
    ex.oblige(st, 'the structure added is the next one the data lists for the view', eq(x, g.data.at(ex, g.st0, add(add(g.pos(w), 1), k))), 'pre')
    ex.setarr(st, g.gdone, 32, a_store(st.mem[g.gdone].arr(32), w, add(k, 1)))
    return [('ret', st, None)]


def vinsert(ex, st, args, i, dem):
    """assumed (libstdc++): insert of a range at the end: the elements kept, the range after them"""
    this, pos, first, last = args
    rs = ex.resolve(st, this)
    if len(rs) != 1:
        raise Undecided('vector not identified')
    v = VecV(rs[0][1], this.o, 4, name='vec')
    p = v.ptrs(ex, st)
    ex.oblige(st, 'requires of insert: at the end', AND(eq(pos.b, p[1].b), eq(pos.o, p[1].o)), 'pre')
    fs = ex.resolve(st, first)
    if len(fs) != 1:
        raise Undecided('range not identified')
    fb = fs[0][1]
    ex.oblige(st, 'requires of insert: a range of the source', AND(eq(last.b, fb), le(0, first.o), le(first.o, last.o), le(last.o, st.mem[fb].size)), 'pre')
    n0, n = v.size(ex, st), div(sub(last.o, first.o), 4)
    old = p[0]
    if isinstance(old.b, int) and old.b == 0:
        src = a_base('none', 32)
    else:
        oblk = st.mem[old.b] if isinstance(old.b, int) else v.member(ex, st, old)
        if oblk is None:
            raise Undecided('buffer not identified')
        src = oblk.arr(32)
    add_ = st.mem[fb].arr(32)
    nb = v.move(ex, st, add(n0, n))
    a = a_copy(a_base(freshname('ins'), 32), 0, n0, src, div(old.o, 4))
    a = a_copy(a, n0, add(n0, n), add_, div(first.o, 4))
    ex.setarr(st, nb, 32, a)
    return [('ret', st, Ptr(nb, mulc(n0, 4)))]


def vnew(ex, st, args, i, dem):
    """a vector without elements: it owns an object of no cells (instead of having none, which no caller can tell apart)"""
    this = args[0]
    z = u(freshname('none'), 0, MAXB)
    st.assume(eq(z, 0))
    nb = ex.newblk(st, 'heap', 'vec.buf', z)
    for o, x in ((0, 0), (8, z), (16, z)):
        fput(ex, st, this.b, add(this.o, o), 'ptr', Ptr(nb, x))
    return [('ret', st, None)]


def vnew_(ex, st, args, i, dem):
    return vnew(ex, st, args, i, dem) if isinstance(ex.curcontract, DesIndexed) else INLINE


class DesIndexed(BlobC):
    """every view gets exactly the indexed structures that the data lists for it, in empty indexes"""
    dem = DES + 'deserializeIndexedFSs(%s&, uima::CAS&)' % VU
    cost = 4

    def setup(self, ex, st, g):
        self.world(ex, st, g)
        fput(ex, st, g.cas, ex.P.off('uima::CAS', 'iv_baseCas'), 'ptr', Ptr(g.cas, 0))
        b = ex.newblk(st, 'heap', 'indexed structures', 24)
        g.data = VecV(b, 0, 4, name='data').setup(ex, st)
        n = g.data.n0
        g.nv = u('views', 0, 1 << 20)
        size = mulc(add(g.nv, 1), VIEWSZ)
        g.views = ex.newblk(st, 'heap', 'views', size)
        g.reps = ex.newblk(st, 'heap', 'repositories', size)
        for x in ('gdone', 'gready'):
            b2 = ex.newblk(st, 'heap', 'ghost ' + x, mulc(add(g.nv, 1), 4))
            setattr(g, x, b2)
            ex.setarr(st, b2, 32, a_fill(a_base(x, 32), 0, add(g.nv, 1), 0))
        g.gcur = ex.newblk(st, 'heap', 'ghost current view', 8)
        fput(ex, st, g.gcur, 0, 'i32', 0)
        g.pos = lambda w: uf('dataPos', w, lo=0, hi=LIM)
        g.cnt = lambda w: uf('dataCount', w)
        d = lambda k: g.data.at(ex, st, k)
        st.assume(AND(lt(1, n), eq(d(0), g.nv), eq(g.pos(0), 1), eq(g.cnt(0), d(1)), eq(g.pos(1), add(2, g.cnt(0))), le(add(2, g.cnt(0)), n)))
        w = bound('w')
        st.assume(FORALL(w, IMP(AND(le(0, w), le(w, g.nv)), AND(le(0, g.cnt(w)), le(g.cnt(w), LIM), eq(g.cnt(w), d(g.pos(w))), eq(g.pos(add(w, 1)), add(add(g.pos(w), 1), g.cnt(w))), le(add(add(g.pos(w), 1), g.cnt(w)), n), lt(g.pos(w), n))), [g.cnt(w)]))
        g.this = ex.newblk(st, 'heap', 'CASDeserializer', max(ex.P.layouts['uima::internal::CASDeserializer'].values()) + 64)
        return [Ptr(g.this, 0), Ptr(b, 0), Ptr(g.cas, 0)]

    def post(self, ex, g, st0, st1, ret):
        return [('every view has the structures the data lists for it', all_k(0, add(g.nv, 1), lambda w: eq(cell(st1, g.gdone, w, 32), g.cnt(w)))),
                ('the indexes of the base CAS were emptied', eq(cell(st1, g.gready, 0, 32), 1))]

    def modifies(self, ex, g, st0):
        return {g.gdone: None, g.gready: None, g.gcur: None, g.cas: None, g.this: None}

    def inv(self, ex, lc):
        g = ex.g
        if not hasattr(g, 'nv'):
            return []
        L = []
        db = g.data.buf0
        done = lambda s, w: cell(s, g.gdone, w, 32)
        for ik, (inm, w) in lc.ints.items():
            if w != 32 or ik[0] != 'phi' and ik[1] in (g.gdone, g.gready, g.gcur):
                continue
            for pk, pnm in lc.ptrs.items():
                e = lc.ev[pk]
                if isinstance(e.b, int) and e.b == db:
                    L.append(('%s is at the entry of view %s' % (pnm, inm), lambda v, s, ik=ik, pk=pk: AND(OR(lt(g.nv, v[ik]), le(0, g.cnt(v[ik]))), eq(v[pk].o, mulc(g.pos(v[ik]), 4)))))
            L.append(('%s within the views' % inm, lambda v, s, ik=ik: AND(le(0, v[ik]), le(v[ik], add(g.nv, 1)))))
            L.append(('views before %s are complete' % inm, lambda v, s, ik=ik: all_k(0, v[ik], lambda q: eq(done(s, q), g.cnt(q)))))
            L.append(('the base indexes were emptied', lambda v, s: eq(cell(s, g.gready, 0, 32), 1)))
            L.append(('views from %s on are untouched' % inm, lambda v, s, ik=ik: all_k(v[ik], add(g.nv, 1), lambda q: eq(done(s, q), 0))))
        # the loop that adds the structures of one view
        cur = lambda s: fget(ex, s, g.gcur, 0, 'i32')
        for ik, (inm, w) in lc.ints.items():
            if ik[0] != 'phi' and ik[1] in (g.gdone, g.gready, g.gcur):
                continue
            L.append(('%s structures of the view are added' % inm, lambda v, s, ik=ik: eq(done(s, cur(s)), v[ik])))
        for pk, pnm in lc.ptrs.items():
            e = lc.ev[pk]
            if isinstance(e.b, int) and e.b == db:
                L.append(('%s: the structures of the view before it are added' % pnm, lambda v, s, pk=pk: eq(add(add(done(s, cur(s)), 1), g.pos(cur(s))), div(v[pk].o, 4))))
            else:
                L.append(('%s: the structures before it are added' % pnm, lambda v, s, pk=pk: eq(done(s, cur(s)), div(v[pk].o, 4))))
        L.append(('no more structures than listed are added', lambda v, s: le(done(s, cur(s)), g.cnt(cur(s)))))
        L.append(('other views are as before', lambda v, s: all_k(0, add(g.nv, 1), lambda q: OR(eq(q, cur(s)), eq(done(s, q), done(lc.entry, q))))))
        return L


LIB10 = [V01.HeapReset(e) for e in V01.ELT] + [stl.Resize('unsigned int', 4), stl.ResizeNull('unsigned int', 4)]
CONTRACTS = LIB + LIB10 + [Swap(n) for n in (2, 4, 8)] + [SwapInverse()] + [SwapArr(n) for n in (2, 4, 8)] + [GetBlobSize(), GetBlob(), SwapBlob(), Deserialize(False), Deserialize(True)] + [CreateHeap(x) for x in ARRAYS] + [DesIndexed()]
BOOK = r'uima::(FSIndexRepository::getIndex|FSIndex::iterator|FSIterator::|SofaFS::|FeatureStructure::~|CAS::registerInitialSofa|CAS::bumpSofaCount|CAS::getView\(|CAS::registerView|CAS::pickupDocumentAnnotation|UnicodeStringRef::compare)'
STUBS = [(re.compile(re.escape(SER + 'serializeIndexedFSs(')), serialize_indexed),
         (re.compile(re.escape(DES + 'deserializeIndexedFSs(')), deserialize_indexed),
         (re.compile(r'uima::internal::CASImpl::getIndexRepository\('), viewrepo),
         (re.compile(r'uima::CAS::getViewBySofaNum\('), viewbynum),
         (re.compile(r'uima::lowlevel::IndexRepository::reset\('), represet),
         (re.compile(r'uima::lowlevel::IndexRepository::add\('), repadd),
         (re.compile(r'.*std::vector<unsigned int, std::allocator<unsigned int>>::insert<'), vinsert),
         (re.compile(r'std::vector<unsigned int, std::allocator<unsigned int>>::vector\(\)'), vnew_),
         # book-keeping of the views (sofa number, document annotation): no effect on the indexed structures
         (re.compile(BOOK), opaque)] + ESTUBS
ASSUMPTIONS = ['every section of a blob is accessed at the width of its cells; the 64-bit section may start at an address that is only a multiple of 4',
               'serializeIndexedFSs lists the indexed structures of all views (assumed contract; it walks repository iterators); the list it writes is well formed',
               'CAS::getViewBySofaNum gives the view of a sofa number; IndexRepository::add/reset add one structure to, or empty, the repository of that view; document annotation and sofa book-keeping do not change indexed structures',
               'std::vector range insert appends the given cells in order (assumed library contract)',
               'cell 0 of every heap is zero (the null structure); a blob was written by getBlob on a machine of either byte order; this build is little-endian']
