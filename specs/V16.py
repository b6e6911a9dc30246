"""V16: filtered and type-set iterators walk exactly the accepted structures, in the order of the iterator they wrap."""
import re
from iters import *
from iters import _w
from api import ESTUBS

LEVEL = 'proof'
TUS = ['cas/lowlevel_index.cpp', 'cas/lowlevel_internal_indexes.cpp', 'cas/fsindex.cpp']
REPLAY = 'V16.cpp'
FI = 'uima::lowlevel::FilterIndexIterator::'
TI = NSI + 'TypeSetIterator::'


class On(Contract):
    """over a wrapped iterator at position i of n; acc(k): the structure at k is accepted; the position before the call is accepted, or n"""
    kind = 'filter'
    valid = False
    unless = False

    def __init__(self, m, doc, valid=False):
        self.dem = (FI if self.kind == 'filter' else TI) + m
        self.m = m.split('(')[0]
        self.valid = valid
        self.__doc__ = doc

    def setup(self, ex, st, g):
        g.ex = ex
        ex.g = g
        g.w = w = Wrapped(ex, st)
        g.iters = {w.b: w}
        g.b = ex.newblk(st, 'heap', 'iterator', 72)
        fput(ex, st, g.b, 0, 'ptr', ex.globalptr(st, '_ZTVN4uima8lowlevel19FilterIndexIteratorE' if self.kind == 'filter' else '_ZTVN4uima8lowlevel8internal15TypeSetIteratorE', 16))
        if self.kind == 'filter':
            g.filter = ex.newblk(st, 'heap', 'filter', 24)
            fput(ex, st, g.filter, 0, 'ptr', ex.globalptr(st, '_ZTVN4uima8internal15FSFilterWrapperE', 16))
            fput(ex, st, g.b, 8, 'ptr', Ptr(g.filter, 0))
            fput(ex, st, g.b, 16, 'ptr', Ptr(w.b, 0))
            g.ok = lambda x: NOT(pred('filtered', x))
        else:
            g.set = (g.b, self.off(ex, 'iv_types'))
            fput(ex, st, g.b, self.off(ex, 'iv_it'), 'ptr', Ptr(w.b, 0))
            g.ok = lambda x: pred('intypes', uf('typeof', x, lo=0, hi=(1 << 32) - 1))
        g.acc = lambda k: g.ok(w.S(k))
        st.assume(IMP(lt(w.i, w.n), g.acc(w.i)))
        if self.valid:
            st.assume(lt(w.i, w.n))
        args = [Ptr(g.b, 0)]
        if self.m == 'moveTo':
            g.x = u('fs', 1)
            args.append(g.x)
        return args

    def off(self, ex, f):
        return ex.P.off(TI[:-2], f)

    def fwd(self, ex, g, st1, lo):
        """at the first accepted position from lo on, or past the end when there is none"""
        w = g.w
        p = w.pos(ex, st1)
        return [('not before the start', AND(le(lo, p), le(p, w.n))), ('at an accepted structure, or invalid', IMP(lt(p, w.n), g.acc(p))),
                ('no accepted structure is skipped', all_k(lo, p, lambda k: NOT(g.acc(k))))]

    def bwd(self, ex, g, st1, hi):
        """at the last accepted position before hi, or invalid when there is none"""
        w = g.w
        p = w.pos(ex, st1)
        return [('before the start, or invalid', OR(eq(p, w.n), AND(le(0, p), lt(p, hi)))), ('at an accepted structure, or invalid', IMP(lt(p, w.n), g.acc(p))),
                ('no accepted structure is skipped', all_k(0, hi, lambda k: IMP(OR(eq(p, w.n), lt(p, k)), NOT(g.acc(k)))))]

    def post(self, ex, g, st0, st1, ret):
        w, m = g.w, self.m
        if m == 'moveToFirst':
            return self.fwd(ex, g, st1, 0)
        if m == 'moveToNext':
            return self.fwd(ex, g, st1, add(w.i, 1))
        if m == 'moveToLast':
            return self.bwd(ex, g, st1, w.n)
        if m == 'moveToPrevious':
            return self.bwd(ex, g, st1, w.i)
        if m == 'isValid':
            return [('valid exactly when at a structure', IFF(ret, lt(w.i, w.n)))]
        if m == 'get':
            return [('the structure at the position', eq(ret, w.S(w.i)))]
        if m == 'getTyFSType':
            return [('the type of the structure at the position', eq(ret, uf('typeof', w.S(w.i), lo=0, hi=(1 << 32) - 1)))]
        if m == 'moveTo':
            p = w.pos(ex, st1)
            t = w.tgt
            nf = t is None
            return [('not moved when the wrapped iterator cannot move there', IMP(eq(t, w.n), AND(NOT(ret), eq(p, w.i)))),
                    ('true exactly when at a structure then', IMP(lt(t, w.n), IFF(ret, lt(p, w.n))))] + [(l, IMP(lt(t, w.n), q)) for l, q in self.fwd(ex, g, st1, t)]

    def modifies(self, ex, g, st0):
        return g.w.mod() if self.m.startswith('move') else {}

    def inv(self, ex, lc):
        g = ex.g
        w = g.w
        L = []
        if self.m in ('moveToFirst', 'moveToNext', 'moveTo'):
            lo = {'moveToFirst': 0, 'moveToNext': add(w.i, 1), 'moveTo': w.tgt}[self.m]
            L.append(('between the start and the end', lambda v, s: AND(le(lo, w.pos(ex, s)), le(w.pos(ex, s), w.n))))
            L.append(('none accepted so far', lambda v, s: all_k(lo, w.pos(ex, s), lambda k: NOT(g.acc(k)))))
        else:
            hi = {'moveToLast': w.n, 'moveToPrevious': w.i}.get(self.m)
            if hi is not None:
                L.append(('before the start, or invalid', lambda v, s: OR(eq(w.pos(ex, s), w.n), lt(w.pos(ex, s), hi))))
                L.append(('within', lambda v, s: le(w.pos(ex, s), w.n)))
                L.append(('none accepted so far', lambda v, s: all_k(0, hi, lambda k: IMP(OR(eq(w.pos(ex, s), w.n), lt(w.pos(ex, s), k)), NOT(g.acc(k))))))
        return L


class Ts(On):
    kind = 'types'


def filtered(ex, st, a, i, d):
    g = ex.g
    ex.oblige(st, 'requires of isFiltered: the filter of this iterator', eq(a[0].b, g.filter), 'pre')
    return pred('filtered', a[1])


SETB = r'std::set<unsigned int, std::less<unsigned int>, std::allocator<unsigned int>>::'
END = 0


def setkey(ex, st, p):
    return fget(ex, st, p.b, p.o, 'i32')


def sfind(ex, st, a, i, d):
    """membership of the ghost set: the end position, or the node of the type found"""
    g = ex.g
    b, o = g.set
    ex.oblige(st, 'requires of set::find: the set of types of this iterator', AND(eq(a[0].b, b), eq(a[0].o, o)), 'pre')
    k = setkey(ex, st, a[1])
    g.node = getattr(g, 'node', None) or ex.newblk(st, 'heap', 'set node', 64)
    if g.node not in st.mem:
        st.mem[g.node] = Blk('heap', 'set node', 64)
    return Ptr(b, ite(pred('intypes', k), add(o, 4096), add(o, 8)))


def send(ex, st, a, i, d):
    g = ex.g
    b, o = g.set
    ex.oblige(st, 'requires of set::end: the set of types of this iterator', AND(eq(a[0].b, b), eq(a[0].o, o)), 'pre')
    return Ptr(b, add(o, 8))


def scount(ex, st, a, i, d):
    g = ex.g
    b, o = g.set
    ex.oblige(st, 'requires of set::count: the set of types of this iterator', AND(eq(a[0].b, b), eq(a[0].o, o)), 'pre')
    return ite(pred('intypes', setkey(ex, st, a[1])), 1, 0)


STUBS = ITSTUBS + [(re.compile(r'uima::internal::FSFilterWrapper::isFiltered\('), filtered),
                   (re.compile(SETB + r'find\('), sfind), (re.compile(SETB + r'end\(\)'), send), (re.compile(SETB + r'count\('), scount)] + ESTUBS
MOVES = [('moveToFirst()', 'at the first accepted structure, invalid when there is none'), ('moveToLast()', 'at the last accepted structure, invalid when there is none'),
         ('moveToNext()', 'at the next accepted structure, invalid when there is none', True), ('moveToPrevious()', 'at the previous accepted structure, invalid when there is none', True),
         ('isValid() const', 'valid exactly when at a structure'), ('get() const', 'the structure at the position', True), ('getTyFSType() const', 'its type', True),
         ('moveTo(unsigned int)', 'at the first accepted structure from the one the wrapped iterator moves to')]
ASSUMED = []


class Clone(On):
    """clone: a new iterator over a clone of the wrapped one, restricted alike; this one is as it was"""

    def post(self, ex, g, st0, st1, ret):
        w = g.w
        c = getattr(g, 'cloned', None)
        vt = fget(ex, st1, ret.b, ret.o, 'ptr')
        v0 = fget(ex, st0, g.b, 0, 'ptr')
        off = 16 if self.kind == 'filter' else self.off(ex, 'iv_it')
        it = fget(ex, st1, ret.b, add(ret.o, off), 'ptr')
        L = [('an iterator of the same kind', AND(eq(vt.b, v0.b), eq(vt.o, v0.o))), ('a new one', NOT(eq(ret.b, g.b))),
             ('over a clone of the wrapped iterator', False if c is None else AND(eq(it.b, c), eq(it.o, 0)))]
        if self.kind == 'filter':
            f = fget(ex, st1, ret.b, add(ret.o, 8), 'ptr')
            L.append(('with the same filter', AND(eq(f.b, g.filter), eq(f.o, 0))))
        else:
            f = fget(ex, st1, ret.b, add(ret.o, self.off(ex, 'iv_types')), 'ptr')
            L.append(('with the same types', AND(eq(f.b, g.set[0]), eq(f.o, g.set[1]))))
        return L

    def modifies(self, ex, g, st0):
        return {}


class TsClone(Clone):
    kind = 'types'


class Filtered(Clone):
    """createFilteredIterator: an iterator with the given filter over a new iterator of the index"""
    def __init__(self):
        self.dem = 'uima::lowlevel::IndexABase::createFilteredIterator(uima::lowlevel::FSFilter const*) const'

    def setup(self, ex, st, g):
        self.m = 'get'
        On.setup(self, ex, st, g)
        g.index = ex.newblk(st, 'heap', 'index', 96)
        fput(ex, st, g.index, 0, 'ptr', ex.globalptr(st, '_ZTVN4uima8lowlevel8internal18OrderedSingleIndexE', 16))
        return [Ptr(g.index, 0), Ptr(g.filter, 0)]


def wclone(ex, st, a, i, d):
    g = ex.g
    w = _w(ex, a)
    b = ex.newblk(st, 'heap', 'cloned iterator', 40)
    fput(ex, st, b, 0, 'ptr', ex.globalptr(st, ITVT, 16))
    g.cloned = b
    return Ptr(b, 0)


def ixiter(ex, st, a, i, d):
    g = ex.g
    if not hasattr(g, 'index'):
        return INLINE
    ex.oblige(st, 'requires of createIterator: the index', eq(a[0].b, g.index), 'pre')
    b = ex.newblk(st, 'heap', 'iterator of the index', 40)
    fput(ex, st, b, 0, 'ptr', ex.globalptr(st, ITVT, 16))
    g.cloned = b
    return Ptr(b, 0)


def setcopy(ex, st, a, i, d):
    """copy of a set: the new object stands for the set copied"""
    fput(ex, st, a[0].b, a[0].o, 'ptr', a[1])


STUBS += [(re.compile(ITB + r'clone\(\) const'), wclone), (re.compile(re.escape(NSI) + r'OrderedSingleIndex::createIterator\('), ixiter), (re.compile(SETB + r'set\(std::set'), setcopy)]
CONTRACTS = [On(*x) for x in MOVES] + [Ts(*x) for x in MOVES] + [Clone('clone() const', Clone.__doc__), TsClone('clone() const', Clone.__doc__), Filtered()]
ASSUMPTIONS = ['the wrapped iterator meets the contract of index iterators (proved in V14 for the iterators over vectors)', 'a filter answers the same for the same structure during one call']
