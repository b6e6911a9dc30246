"""V14: ordered and FIFO indexes keep exactly the structures added and not removed, in index order; iterators walk them."""
from fsh import *
from stl import pushes

LEVEL = 'proof'
TUS = ['cas/lowlevel_internal_indexes.cpp']
REPLAY = 'V14.cpp'
NS = 'uima::lowlevel::internal::'
VEC = 'std::vector<unsigned int, std::allocator<unsigned int>>'
ITER = NS + 'STLSingleIndexIterator<%s>' % VEC
ITLAY = NS + 'STLSingleIndexIterator<class std::vector<unsigned int> >'
LIMI = 1 << 27


def before(a, b):
    """structure a comes strictly before b in index order (the comparator's result is positive)"""
    return pred('before', a, b)


def equal(a, b):
    return NOT(OR(before(a, b), before(b, a)))


class Cmp(Contract):
    """IndexComparator::compare as a total preorder (proved in V05): used here through its contract only"""
    dem = 'uima::lowlevel::IndexComparator::compare(uima::lowlevel::FSHeap const&, unsigned int, unsigned int) const'

    def call(self, ex, st, args):
        g = ex.g
        ex.oblige(st, 'requires of compare: the comparator of this index', eq(args[0].b, g.cmp), 'pre')
        ex.oblige(st, 'requires of compare: the heap of this index', eq(args[1].b, g.heap), 'pre')
        a, b = args[2], args[3]
        ex.oblige(st, 'requires of compare: structures the index accepts', AND(pred('indexable', a), pred('indexable', b)), 'pre')
        r = u(freshname('cmp'))
        st.assume(IFF(before(a, b), AND(ne(r, 0), lt(r, 1 << 31))))
        st.assume(IFF(before(b, a), ge(r, 1 << 31)))
        return [('ret', st, r)]


def weakorder(st):
    """a strict weak order (lemmas of V05)"""
    a, b, c = bound('a'), bound('b'), bound('c')
    st.assume(FORALL([a], NOT(before(a, a)), [before(a, a)]))
    st.assume(FORALL([a, b], NOT(AND(before(a, b), before(b, a))), [before(a, b)]))
    st.assume(FORALL([a, b, c], IMP(AND(before(a, b), before(b, c)), before(a, c)), [(before(a, b), before(b, c))]))
    st.assume(FORALL([a, b, c], IMP(AND(NOT(before(a, b)), NOT(before(b, c))), NOT(before(a, c))), [(before(a, b), before(b, c)), (before(a, c), before(a, b)), (before(a, c), before(b, c))]))


class Idx(Contract):
    """an index object; S = its sequence of structures"""
    ordered = True
    cls = NS + 'OrderedSingleIndex'
    field = 'iv_tyStructures'
    grows = False

    def base(self, ex, st, g):
        P = ex.P
        o = lambda f: P.off(self.cls, f)
        g.ex = ex
        g.b = ex.newblk(st, 'heap', 'index', 96)
        g.heap = ex.newblk(st, 'heap', 'fsheap', 400)
        fput(ex, st, g.b, o('iv_crFSHeap'), 'ptr', Ptr(g.heap, 0))
        if self.ordered:
            g.cmp = ex.newblk(st, 'heap', 'comparator', 128)
            fput(ex, st, g.b, o('iv_cpComparator'), 'ptr', Ptr(g.cmp, 0))
        g.n = u('n', 0, LIMI)
        g.V = VecV(g.b, o(self.field), 4, name='structures').setup(ex, st, g.n)
        g.S = lambda k: cell(st, g.V.buf0, k, 32)
        ex.g = g
        if self.ordered:
            weakorder(st)
            self.sortedpre(st, g)
        return Ptr(g.b, 0)

    def sortedpre(self, st, g):
        k, j = bound('k'), bound('j')
        st.assume(FORALL([k], IMP(AND(le(0, k), lt(k, g.n)), pred('indexable', g.S(k))), [g.S(k)]))
        st.assume(FORALL([j, k], IMP(AND(le(0, j), lt(j, k), lt(k, g.n)), NOT(before(g.S(k), g.S(j)))), [(g.S(j), g.S(k))]))

    def given(self, st, g):
        g.x = u('fs', 1)
        if self.ordered:
            st.assume(pred('indexable', g.x))
            # ghost: the first position whose structure does not come before fs
            g.p = u('p', 0, LIMI)
            st.assume(le(g.p, g.n))
            st.assume(all_k(0, g.p, lambda k: before(g.S(k), g.x)))
            st.assume(OR(eq(g.p, g.n), NOT(before(g.S(g.p), g.x))))
            # ghost: the first position whose structure comes after fs
            g.q = u('q', 0, LIMI)
            st.assume(le(g.q, g.n))
            st.assume(all_k(0, g.q, lambda k: NOT(before(g.x, g.S(k)))))
            st.assume(OR(eq(g.q, g.n), before(g.x, g.S(g.q))))
        # ghost: the first position holding fs itself
        g.f = u('f', 0, LIMI)
        st.assume(le(g.f, g.n))
        st.assume(all_k(0, g.f, lambda k: ne(g.S(k), g.x)))
        st.assume(OR(eq(g.f, g.n), eq(g.S(g.f), g.x)))
        return g.x

    def at(self, ex, g, st):
        return lambda k: g.V.at(ex, st, k)

    def sorted_post(self, ex, g, st1, n1):
        T = self.at(ex, g, st1)
        j, k = bound('j'), bound('k')
        return [('structures are in index order', FORALL([j, k], IMP(AND(le(0, j), lt(j, k), lt(k, n1)), NOT(before(T(k), T(j)))))),
                ('only accepted structures', FORALL([k], IMP(AND(le(0, k), lt(k, n1)), pred('indexable', T(k)))))]

    def same(self, ex, g, st1):
        T = self.at(ex, g, st1)
        return AND(eq(g.V.size(ex, st1), g.n), all_k(0, g.n, lambda k: eq(T(k), g.S(k))))

    def modifies(self, ex, g, st0):
        return g.V.mod()

    def frees(self, ex, g, st0):
        return [g.V.buf0]

    def inv(self, ex, lc):
        g = ex.g
        L = []
        ps = [k for k in lc.ptrs]
        if self.ordered and getattr(g, 'p', None) is not None:
            ints = list(lc.ints.items())
            for key in ps:
                nm = lc.ptrs[key]
                L.append(('no equal structure before position %s' % nm, lambda v, s, key=key: OR(le(g.q, g.p), le(div(v[key].o, 4), g.p))))
                L.append(('not yet past the structure itself', lambda v, s, key=key: OR(le(g.n, g.f), le(div(v[key].o, 4), g.f))))
                for lo in (g.p, g.q, g.f):
                    L.append(('position %s at most the partition point' % nm, lambda v, s, key=key, lo=lo: le(div(v[key].o, 4), lo)))
                    for k2, (n2, w) in ints:
                        L.append(('partition point within the range', lambda v, s, key=key, k2=k2, lo=lo: le(lo, add(div(v[key].o, 4), v[k2]))))
                for k2, (n2, w) in ints:
                    L.append(('range within the structures', lambda v, s, key=key, k2=k2: le(add(div(v[key].o, 4), v[k2]), g.n)))
        elif getattr(g, 'f', None) is not None:
            for key in ps:
                L.append(('not yet past the first occurrence', lambda v, s, key=key: le(div(v[key].o, 4), g.f)))
        return L


class Add(Idx):
    """add: the structure is inserted at a place that keeps the order; all others stay, in their order"""
    dem = NS + 'OrderedSingleIndex::add(unsigned int)'

    def setup(self, ex, st, g):
        t = self.base(ex, st, g)
        return [t, self.given(st, g)]

    def post(self, ex, g, st0, st1, ret):
        T, n1 = self.at(ex, g, st1), g.V.size(ex, st1)
        ins = lambda p: all_k(0, add(g.n, 1), lambda k: eq(T(k), ite(lt(k, p), g.S(k), ite(eq(k, p), g.x, g.S(add(k, -1))))))
        return g.V.wf(ex, st1) + [('one structure more', eq(n1, add(g.n, 1))), ('the structure is inserted among the others, which keep their order', OR(ins(g.p), ins(g.q), ins(g.n)))] + self.sorted_post(ex, g, st1, n1)


class Remove(Idx):
    """remove: the given structure goes, every other one stays, in the same order"""
    dem = NS + 'OrderedSingleIndex::remove(unsigned int)'

    def setup(self, ex, st, g):
        t = self.base(ex, st, g)
        return [t, self.given(st, g)]

    def post(self, ex, g, st0, st1, ret):
        T, n1 = self.at(ex, g, st1), g.V.size(ex, st1)
        # the first occurrence is removed
        rem = all_k(0, add(g.n, -1), lambda k: eq(T(k), ite(lt(k, g.f), g.S(k), g.S(add(k, 1)))))
        L = g.V.wf(ex, st1) + [('a structure that is not in the index changes nothing', IMP(eq(g.f, g.n), self.same(ex, g, st1))),
                               ('one structure less', IMP(lt(g.f, g.n), eq(n1, add(g.n, -1)))),
                               ('exactly the given structure is removed', IMP(lt(g.f, g.n), rem))]
        if self.ordered:
            L += self.sorted_post(ex, g, st1, n1)
        return L


class Find(Idx):
    """find: a structure of the index that compares equal, or none when there is none"""
    dem = NS + 'OrderedSingleIndex::find(unsigned int) const'

    def setup(self, ex, st, g):
        t = self.base(ex, st, g)
        return [t, self.given(st, g)]

    def post(self, ex, g, st0, st1, ret):
        if self.ordered:
            found = AND(le(g.p, add(g.n, -1)), equal(g.S(g.p), g.x))
            return [('no structure when none is equal', IMP(AND(ge(g.p, g.q)), eq(ret, 0))),
                    ('an equal structure of the index', IMP(lt(g.p, g.q), AND(exists_k(0, g.n, lambda k: eq(g.S(k), ret)), equal(ret, g.x))))]
        return [('the structure itself, or none', eq(ret, ite(lt(g.f, g.n), g.x, 0)))]

    def modifies(self, ex, g, st0):
        return {}

    def frees(self, ex, g, st0):
        return []


class Reset(Idx):
    """reset: the index is empty"""
    dem = NS + 'OrderedSingleIndex::reset()'

    def setup(self, ex, st, g):
        return [self.base(ex, st, g)]

    def post(self, ex, g, st0, st1, ret):
        return g.V.wf(ex, st1) + [('empty', eq(g.V.size(ex, st1), 0))]


class Size(Idx):
    dem = NS + 'OrderedSingleIndex::getSize() const'

    def setup(self, ex, st, g):
        return [self.base(ex, st, g)]

    def post(self, ex, g, st0, st1, ret):
        return [('the number of structures', eq(ret, g.n))]

    def modifies(self, ex, g, st0):
        return {}

    def frees(self, ex, g, st0):
        return []


class FAdd(Idx):
    """FIFO add: at the end"""
    dem = NS + 'FIFOSingleIndex::add(unsigned int)'

    def setup(self, ex, st, g):
        t = self.base(ex, st, g)
        return [t, self.given(st, g)]

    def post(self, ex, g, st0, st1, ret):
        T = self.at(ex, g, st1)
        return g.V.wf(ex, st1) + [('one structure more', eq(g.V.size(ex, st1), add(g.n, 1))), ('the new structure is last', eq(T(g.n), g.x)),
                                  ('the others keep their places', all_k(0, g.n, lambda k: eq(T(k), g.S(k))))]


class Fifo:
    ordered = False
    cls = NS + 'FIFOSingleIndex'
    field = 'iv_tyFIFO'


def fifo(c, dem):
    return type('F' + c.__name__, (Fifo, c), {'dem': NS + 'FIFOSingleIndex::' + dem, '__doc__': c.__doc__})()


class It(Contract):
    """an iterator over the structures of an index, at position i (n: past the end, invalid)"""
    valid = False

    def __init__(self, m, doc, valid=False):
        self.dem = ITER + '::' + m
        self.m = m.split('(')[0]
        self.valid = valid
        self.__doc__ = doc

    def setup(self, ex, st, g):
        P = ex.P
        g.ex = ex
        o = lambda f: P.off(ITLAY, f)
        g.vb = ex.newblk(st, 'heap', 'vector', 24)
        g.n = u('n', 0, LIMI)
        g.V = VecV(g.vb, 0, 4, name='structures').setup(ex, st, g.n)
        g.S = lambda k: cell(st, g.V.buf0, k, 32)
        g.b = ex.newblk(st, 'heap', 'iterator', 40)
        g.i = u('i', 0, LIMI)
        st.assume(le(g.i, g.n))
        if self.valid:
            st.assume(lt(g.i, g.n))
        g.o = o('iv_it')
        fput(ex, st, g.b, o('iv_crStructures'), 'ptr', Ptr(g.vb, 0))
        fput(ex, st, g.b, g.o, 'ptr', Ptr(g.V.buf0, mulc(g.i, 4)))
        ex.g = g
        return [Ptr(g.b, 0)]

    def post(self, ex, g, st0, st1, ret):
        p = fget(ex, st1, g.b, g.o, 'ptr')
        pos = lambda e: AND(eq(p.b, g.V.buf0), eq(p.o, mulc(e, 4)))
        return {'moveToFirst': [('at the first structure, invalid when there is none', pos(0))],
                'moveToLast': [('at the last structure, invalid when there is none', pos(ite(eq(g.n, 0), 0, add(g.n, -1))))],
                'moveToNext': [('at the next structure, invalid after the last', pos(add(g.i, 1)))],
                'moveToPrevious': [('at the previous structure, invalid before the first', pos(ite(eq(g.i, 0), g.n, add(g.i, -1))))],
                'isValid': [('valid exactly when at a structure', IFF(ret, lt(g.i, g.n)) if self.m == 'isValid' else True)],
                'get': [('the structure at the position', eq(ret, g.S(g.i)) if self.m == 'get' else True)]}[self.m]

    def modifies(self, ex, g, st0):
        return {g.b: [('ptr', g.o // 8, g.o // 8 + 1)]} if self.m.startswith('move') else {}


class MoveTo(Idx):
    """moveTo of an iterator over an ordered index: the structure itself when it is in the index, else the first that does not come before it; false when there is none"""
    dem = ITER + '::moveTo(unsigned int)'

    def setup(self, ex, st, g):
        self.base(ex, st, g)
        o = lambda f: ex.P.off(ITLAY, f)
        g.it = ex.newblk(st, 'heap', 'iterator', 40)
        g.i = u('i', 0, LIMI)
        st.assume(le(g.i, g.n))
        g.o = o('iv_it')
        fput(ex, st, g.it, o('iv_crStructures'), 'ptr', Ptr(g.b, ex.P.off(self.cls, self.field)))
        fput(ex, st, g.it, g.o, 'ptr', Ptr(g.V.buf0, mulc(g.i, 4)))
        fput(ex, st, g.it, o('iv_cpComparator'), 'ptr', Ptr(g.cmp, 0))
        fput(ex, st, g.it, o('iv_heap'), 'ptr', Ptr(g.heap, 0))
        return [Ptr(g.it, 0), self.given(st, g)]

    def post(self, ex, g, st0, st1, ret):
        p = fget(ex, st1, g.it, g.o, 'ptr')
        tgt = ite(lt(g.f, g.n), g.f, g.p)
        return [('found exactly when there is such a structure', IFF(ret, lt(tgt, g.n))),
                ('at that structure, or not moved', AND(eq(p.b, g.V.buf0), eq(p.o, mulc(ite(lt(tgt, g.n), tgt, g.i), 4))))]

    def modifies(self, ex, g, st0):
        return {g.it: [('ptr', g.o // 8, g.o // 8 + 1)]}

    def frees(self, ex, g, st0):
        return []


class FMoveTo(MoveTo):
    """moveTo of an iterator over a FIFO index: the structure itself; false when it is not in the index"""

    name = 'moveTo over a FIFO index'

    def setup(self, ex, st, g):
        g.cmp = 0
        return MoveTo.setup(self, ex, st, g)

    def post(self, ex, g, st0, st1, ret):
        p = fget(ex, st1, g.it, g.o, 'ptr')
        return [('found exactly when it is in the index', IFF(ret, lt(g.f, g.n))),
                ('at that structure, or not moved', AND(eq(p.b, g.V.buf0), eq(p.o, mulc(ite(lt(g.f, g.n), g.f, g.i), 4))))]


ASSUMED = [Cmp()]
CONTRACTS = [Add(), Remove(), Find(), Reset(), Size(), fifo(FAdd, 'add(unsigned int)'), fifo(Remove, 'remove(unsigned int)'), fifo(Find, 'find(unsigned int) const'),
             fifo(Reset, 'reset()'), fifo(Size, 'getSize() const'),
             It('moveToFirst()', 'moveToFirst'), It('moveToLast()', 'moveToLast'), It('moveToNext()', 'moveToNext', True), It('moveToPrevious()', 'moveToPrevious', True),
             It('isValid() const', 'isValid'), It('get() const', 'get', True), MoveTo(), type('FFMoveTo', (Fifo, FMoveTo), {'dem': ITER + '::moveTo(unsigned int)', '__doc__': FMoveTo.__doc__})()] + pushes('unsigned int', 4)
ASSUMPTIONS = ['IndexComparator::compare is a total preorder and changes nothing (proved in V05 for structures that have the key features)']


class Total(Contract):
    """compareWithoutEquality: the order of the index made total: equal structures in the order of their references"""
    dem = NS + 'compareWithoutEquality(uima::lowlevel::IndexComparator const*, uima::lowlevel::FSHeap const&, unsigned int, unsigned int)'

    def setup(self, ex, st, g):
        g.heap = ex.newblk(st, 'heap', 'fsheap', 400)
        g.cmp = ex.newblk(st, 'heap', 'comparator', 128)
        g.a, g.b = u('fs1', 1), u('fs2', 1)
        ex.g = g
        st.assume(pred('indexable', g.a))
        st.assume(pred('indexable', g.b))
        weakorder(st)
        return [Ptr(g.cmp, 0), Ptr(g.heap, 0), g.a, g.b]

    def post(self, ex, g, st0, st1, ret):
        a, b = g.a, g.b
        first = OR(before(a, b), AND(NOT(before(b, a)), lt(a, b)))
        return [('positive exactly when the first comes before the second, or is equal and older', IFF(first, AND(ne(ret, 0), lt(ret, 1 << 31)))),
                ('0 only for a structure and itself', IFF(eq(ret, 0), eq(a, b)))]


CONTRACTS += [Total()]
