"""V12: the index repository: every index of a structure's type learns of additions and removals, and composite indexes never serve a stale cache."""
import re
from iters import *
from tsys import *
from stl import *
from api import ESTUBS

LEVEL = 'proof'
TUS = ['cas/lowlevel_indexrepository.cpp', 'cas/lowlevel_internal_indexes.cpp']
REPLAY = 'V12.cpp'
IR = 'uima::lowlevel::IndexRepository::'
SB = 128                      # distance of the index objects in the block that stands for all of them
SETROW = 48                   # sizeof(std::set)
MAPROW = 48
IXSET = re.escape('std::set<uima::lowlevel::IndexABase const*, std::less<uima::lowlevel::IndexABase const*>, std::allocator<uima::lowlevel::IndexABase const*>>::')
SIVT = '_ZTVN4uima8lowlevel8internal18OrderedSingleIndexE'
CIVT = '_ZTVN4uima8lowlevel8internal18FIFOCompositeIndexE'


def slot(t, k):
    """number of the k-th single index of type t (ghost; injective)"""
    return uf('slot', t, k, lo=0)


def typeof(fs):
    return uf('typeof', fs, lo=0, hi=LIM)


def objects(ex, st, b, known):
    """the block that stands for all single indexes: the known pointer fields of every object, the others arbitrary"""
    def val(part, name):
        def f(k):
            r = uf('six.' + name, k, lo=0)
            for o, p in known.items():
                r = ite(eq(mod(k, SB // 8), o // 8), getattr(p, part), r)
            return r
        return f
    st.mem[b].arrs['pb'] = lam('pb', val('b', 'pb'))
    st.mem[b].arrs['po'] = lam('po', val('o', 'po'))


class Repo(Contract):
    """an index repository: nt rows; the k-th single index of type t is slot(t,k), k < len(t); ghosts: cnt[slot] structures held by
    the index, clean[t] the composite index `ix` (one arbitrary index) is in the set of indexes that need no update after type t"""

    row = True

    def base(self, ex, st, g):
        P = ex.P
        o = lambda f: P.off('uima::lowlevel::IndexRepository', f)
        g.ex = ex
        ex.g = g
        g.o = o
        g.b = ex.newblk(st, 'heap', 'repository', 400)
        g.nt = u('nt', 2, LIM)
        g.heap = ex.newblk(st, 'heap', 'fsheap', 400)
        fput(ex, st, g.b, o('iv_rFSHeap'), 'ptr', Ptr(g.heap, 0))
        g.def_ = ex.newblk(st, 'heap', 'index definition', 256)
        fput(ex, st, g.b, o('iv_indexDefinition'), 'ptr', Ptr(g.def_, 0))
        g.ts = ex.newblk(st, 'heap', 'type system', 1600)
        fput(ex, st, g.def_, P.off('uima::lowlevel::IndexDefinition', 'iv_crTypeSystem'), 'ptr', Ptr(g.ts, 0))
        fput(ex, st, g.b, o('iv_bIsInitialized'), 'i8', 1)
        # the single indexes: one block of objects
        g.six = ex.newblk(st, 'heap', 'single indexes', None)
        io = lambda f: P.off('uima::lowlevel::IndexABase', f)
        objects(ex, st, g.six, {0: ex.globalptr(st, SIVT, 16), io('iv_crIndexRepository'): Ptr(g.b, 0), io('iv_crFSHeap'): Ptr(g.heap, 0), io('iv_crTypeSystem'): Ptr(g.ts, 0)})
        st.mem[g.six].arrs[32] = lam(32, lambda k: ite(eq(mod(k, SB // 4), io('iv_tyFSType') // 4), uf('slottype', div(k, SB // 4), lo=0, hi=LIM), uf('six.32', k, lo=0, hi=(1 << 32) - 1)))
        g.len = lambda t: uf('nindexes', t, lo=0, hi=1 << 20)
        # iv_indexes: a family of rows of pointers
        fam = family(ex, 'index row', lambda t: mulc(g.len(t), 8), {'pb': lambda t, k: g.six, 'po': lambda t, k: mulc(slot(t, k), SB)})
        g.rowfam = fam
        g.rows = ex.newblk(st, 'heap', 'index rows', mulc(g.nt, 24))
        rb = st.mem[g.rows]
        rb.arrs['pb'] = lam('pb', lambda k: fam(div(k, 3)))
        rb.arrs['po'] = lam('po', lambda k: ite(eq(mod(k, 3), 0), 0, mulc(g.len(div(k, 3)), 8)))
        if self.row:
            # the row of the type at hand is an object of its own
            g.x = u('fs', 1)
            g.t = t = typeof(g.x)
            r = ex.newblk(st, 'heap', 'index row of the type', mulc(g.len(t), 8))
            q = st.mem[r]
            q.arrs['pb'] = lam('pb', lambda k: g.six)
            q.arrs['po'] = lam('po', lambda k: mulc(slot(g.t, k), SB))
            for d, v in ((0, 0), (1, mulc(g.len(t), 8)), (2, mulc(g.len(t), 8))):
                rb.arrs['pb'] = a_store(rb.arrs['pb'], add(mulc(t, 3), d), r)
                rb.arrs['po'] = a_store(rb.arrs['po'], add(mulc(t, 3), d), v)
        self.vec(ex, st, g, 'iv_indexes', g.rows, mulc(g.nt, 24))
        g.dirty = ex.newblk(st, 'heap', 'dirty flags', mulc(g.nt, SETROW))
        self.vec(ex, st, g, 'iv_cacheDirtyFlags', g.dirty, mulc(g.nt, SETROW))
        g.maps = ex.newblk(st, 'heap', 'index numbers', mulc(g.nt, MAPROW))
        self.vec(ex, st, g, 'iv_idMaximalTypeMapping', g.maps, mulc(g.nt, MAPROW))
        g.clean = ex.newblk(st, 'ghost', 'clean', None)
        g.cnt = ex.newblk(st, 'ghost', 'structures in the index', None)
        g.isused = ex.newblk(st, 'ghost', 'is used', None)
        g.ub = ex.newblk(st, 'heap', 'unused', 8)
        g.nu = u('used', 0, LIM)
        g.U = VecV(g.b, o('iv_usedIndexes'), 4, name='used indexes').setup(ex, st, g.nu)
        g.nd = u('undefined', 0, LIM)
        g.D = VecV(g.b, o('iv_undefinedindex'), 4, name='undefined').setup(ex, st, g.nd)
        g.u0 = lambda k: cell(st, g.U.buf0, k, 32)
        g.d0 = lambda k: cell(st, g.D.buf0, k, 32)
        # the observed composite index
        g.ix = ex.newblk(st, 'heap', 'observed index', 128)
        t, k = bound('t'), bound('k')
        st.assume(FORALL([t, k], AND(eq(uf('slot.1', slot(t, k)), t), eq(uf('slot.2', slot(t, k)), k)), [slot(t, k)]))
        st.assume(FORALL([t, k], IMP(AND(le(0, t), le(0, k), lt(t, g.nt), lt(k, g.len(t))), eq(uf('slottype', slot(t, k), lo=0, hi=LIM), t)), [slot(t, k)]))
        return Ptr(g.b, 0)

    def vec(self, ex, st, g, f, buf, n):
        fput(ex, st, g.b, g.o(f), 'ptr', Ptr(buf, 0))
        fput(ex, st, g.b, g.o(f) + 8, 'ptr', Ptr(buf, n))
        fput(ex, st, g.b, g.o(f) + 16, 'ptr', Ptr(buf, n))

    def fs(self, st, g):
        st.assume(AND(le(1, g.t), lt(g.t, g.nt)))
        return g.x

    # logical view
    def used(self, st, g, t):
        return eq(cell(st, g.isused, t, 8), 1)

    def cl(self, st, g, t):
        return eq(cell(st, g.clean, t, 8), 1)

    def c(self, st, g, t, k):
        return cell(st, g.cnt, slot(t, k), 32)

    def upos(self, t):
        return uf('upos', t, lo=0)

    def bitform(self, st, g):
        t = bound('t')
        for b in (g.clean, g.isused):
            st.assume(FORALL(t, le(cell(st, b, t, 8), 1), [cell(st, b, t, 8)]))

    def inv0(self, st, g):
        """what is in an index is on the list of used types"""
        t, k = bound('t'), bound('k')
        self.bitform(st, g)
        st.assume(FORALL([t, k], IMP(AND(le(0, t), le(0, k), lt(t, g.nt), lt(k, g.len(t)), ne(self.c(st, g, t, k), 0)), self.used(st, g, t)), [self.c(st, g, t, k)]))
        st.assume(FORALL(t, IMP(AND(le(0, t), lt(t, g.nt), self.used(st, g, t)), AND(ne(g.len(t), 0), le(0, self.upos(t)), lt(self.upos(t), g.nu), eq(g.u0(self.upos(t)), t))), [cell(st, g.isused, t, 8)]))
        st.assume(FORALL(k, IMP(AND(le(0, k), lt(k, g.nu)), AND(le(1, g.u0(k)), lt(g.u0(k), g.nt), self.used(st, g, g.u0(k)), eq(self.upos(g.u0(k)), k))), [g.u0(k)]))

    def inv1(self, ex, st, g, pos):
        """the invariant after the call"""
        t, k = bound('t'), bound('k')
        U = lambda k: g.U.at(ex, st, k)
        n = g.U.size(ex, st)
        return [('a type with something in an index is marked as used', FORALL([t, k], IMP(AND(le(0, t), lt(t, g.nt), le(0, k), lt(k, g.len(t)), ne(self.c(st, g, t, k), 0)), self.used(st, g, t)))),
                ('the types marked as used are listed', FORALL(t, IMP(AND(le(0, t), lt(t, g.nt), self.used(st, g, t)), AND(ne(g.len(t), 0), le(0, pos(t)), lt(pos(t), n), eq(U(pos(t)), t))))),
                ('only types marked as used are listed, once', FORALL(k, IMP(AND(le(0, k), lt(k, n)), AND(le(1, U(k)), lt(U(k), g.nt), self.used(st, g, U(k)), eq(pos(U(k)), k)))))]


class Add(Repo):
    told = staticmethod(lambda x: add(x, 1))

    """add: every single index of the structure's type gets the structure once, no other index does, and every composite index over the type is out of date"""
    dem = IR + 'add(unsigned int)'

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        x = self.fs(st, g)
        self.inv0(st, g)
        g.op = 'add'
        return [this, x]

    def post(self, ex, g, st0, st1, ret):
        t, k = bound('t'), bound('k')
        n1 = g.U.size(ex, st1)
        none = eq(g.len(g.t), 0)
        new = AND(NOT(self.used(st0, g, g.t)), NOT(none))
        pos = lambda y: ite(AND(eq(y, g.t), NOT(self.used(st0, g, g.t))), g.nu, self.upos(y))
        return self.told_post(st0, st1, g) + [
                ('composite indexes over the type are out of date', NOT(self.cl(st1, g, g.t))),
                ('others are as they were', FORALL(t, IMP(AND(le(0, t), lt(t, g.nt), ne(t, g.t)), IFF(self.cl(st1, g, t), self.cl(st0, g, t))))),
                ('a structure of a type without index is remembered', IMP(none, AND(eq(g.D.size(ex, st1), add(g.nd, 1)), eq(g.D.at(ex, st1, g.nd), g.x)))),
                ('only such a structure is', IMP(NOT(none), eq(g.D.size(ex, st1), g.nd))),
                ('those remembered stay', all_k(0, g.nd, lambda k: eq(g.D.at(ex, st1, k), g.d0(k))))
                ] + self.inv1(ex, st1, g, pos) + g.U.wf(ex, st1) + g.D.wf(ex, st1)

    def told_post(self, st0, st1, g):
        t, k = bound('t'), bound('k')
        return [('every index of the type gets the structure once', all_k(0, g.len(g.t), lambda k: eq(self.c(st1, g, g.t, k), self.told(self.c(st0, g, g.t, k))))),
                ('no other index gets it', FORALL([t, k], IMP(AND(le(0, t), lt(t, g.nt), le(0, k), lt(k, g.len(t)), ne(t, g.t)), eq(self.c(st1, g, t, k), self.c(st0, g, t, k)))))]

    def modifies(self, ex, g, st0):
        o = g.o
        d = {g.b: [('ptr', o('iv_usedIndexes') // 8, o('iv_usedIndexes') // 8 + 3), ('ptr', o('iv_undefinedindex') // 8, o('iv_undefinedindex') // 8 + 3)],
             g.U.buf0: None, g.D.buf0: None, g.clean: None, g.cnt: None, g.isused: None}
        return d

    def frees(self, ex, g, st0):
        return [g.U.buf0, g.D.buf0]

    def inv(self, ex, lc):
        g = ex.g
        L = []
        k, q = bound('k'), bound('q')
        for key in lc.ptrs:
            L.append(('position within the row', lambda v, s, key=key: AND(le(0, v[key].o), le(v[key].o, mulc(g.len(g.t), 8)), eq(mod(v[key].o, 8), 0))))
            L.append(('indexes before the position have been told, the others not', lambda v, s, key=key: FORALL(k, IMP(AND(le(0, k), lt(k, g.len(g.t))),
                      eq(self.c(s, g, g.t, k), ite(lt(mulc(k, 8), v[key].o), self.told(self.c(lc.entry, g, g.t, k)), self.c(lc.entry, g, g.t, k)))), [self.c(s, g, g.t, k)])))
        for key, (nm, w) in lc.ints.items():
            L.append(('position within the row', lambda v, s, key=key: le(v[key], g.len(g.t))))
            L.append(('indexes before the position have been told, the others not', lambda v, s, key=key: FORALL(k, IMP(AND(le(0, k), lt(k, g.len(g.t))),
                      eq(self.c(s, g, g.t, k), ite(lt(k, v[key]), self.told(self.c(lc.entry, g, g.t, k)), self.c(lc.entry, g, g.t, k)))), [self.c(s, g, g.t, k)])))
        L.append(('indexes of other types are left alone', lambda v, s: FORALL(q, IMP(ne(uf('slot.1', q), g.t), eq(cell(s, g.cnt, q, 32), cell(lc.entry, g.cnt, q, 32))), [uf('slot.1', q)])))
        return L


class Remove(Add):
    """remove: every single index of the structure's type is told once, no other index is, and every composite index over the type is out of date"""
    dem = IR + 'remove(unsigned int)'
    told = staticmethod(lambda x: uf('less', x, lo=0))

    def setup(self, ex, st, g):
        r = Add.setup(self, ex, st, g)
        less(st)
        # ghost: the first place of the structure among those without an index
        g.f = u('f', 0, LIM)
        st.assume(le(g.f, g.nd))
        st.assume(all_k(0, g.f, lambda k: ne(g.d0(k), g.x)))
        st.assume(OR(eq(g.f, g.nd), eq(g.d0(g.f), g.x)))
        return r

    def post(self, ex, g, st0, st1, ret):
        t = bound('t')
        none = eq(g.len(g.t), 0)
        gone = AND(none, lt(g.f, g.nd))
        D = lambda k: g.D.at(ex, st1, k)
        return self.told_post(st0, st1, g) + [
                ('composite indexes over the type are out of date', NOT(self.cl(st1, g, g.t))),
                ('others are as they were', FORALL(t, IMP(AND(le(0, t), lt(t, g.nt), ne(t, g.t)), IFF(self.cl(st1, g, t), self.cl(st0, g, t))))),
                ('a structure of a type without index is forgotten', eq(g.D.size(ex, st1), ite(gone, add(g.nd, -1), g.nd))),
                ('the others of such types stay', all_k(0, add(g.nd, ite(gone, -1, 0)), lambda k: eq(D(k), ite(OR(NOT(gone), lt(k, g.f)), g.d0(k), g.d0(add(k, 1)))))),
                ] + self.inv1(ex, st1, g, self.upos) + g.D.wf(ex, st1)

    def modifies(self, ex, g, st0):
        o = g.o
        return {g.b: [('ptr', o('iv_undefinedindex') // 8, o('iv_undefinedindex') // 8 + 3)], g.D.buf0: None, g.clean: None, g.cnt: None}

    def inv(self, ex, lc):
        g = ex.g
        L = Add.inv(self, ex, lc)
        for key in lc.ptrs:
            L.append(('not yet past the first occurrence', lambda v, s, key=key: le(v[key].o, mulc(g.f, 4))))
        return L


def less(st):
    x = bound('x')
    st.assume(FORALL(x, IMP(le(0, x), le(uf('less', x, lo=0), x)), [uf('less', x, lo=0)]))


class ById(Add):
    """add to / remove from one index: that index is told once, no other is, and every composite index over the type is out of date"""
    def __init__(self, m, told):
        self.dem = IR + m + '(unsigned int, icu_74::UnicodeString const&)'
        self.m = m
        self.told = told
        self.__doc__ = type(self).__doc__

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        x = self.fs(st, g)
        self.inv0(st, g)
        less(st)
        g.n = u('position', 0, LIM)
        st.assume(lt(g.n, g.len(g.t)))
        g.node = ex.newblk(st, 'heap', 'map node', 104)
        fput(ex, st, g.node, 96, 'i64', g.n)
        g.id = ex.newblk(st, 'heap', 'id', 64)
        return [this, x, Ptr(g.id, 0)]

    def post(self, ex, g, st0, st1, ret):
        t, k = bound('t'), bound('k')
        pos = self.upos if self.m == 'remove' else lambda y: ite(AND(eq(y, g.t), NOT(self.used(st0, g, g.t))), g.nu, self.upos(y))
        return [('the index with the identifier is told once, no other one of the type', all_k(0, g.len(g.t), lambda k: eq(self.c(st1, g, g.t, k), ite(eq(k, g.n), self.told(self.c(st0, g, g.t, k)), self.c(st0, g, g.t, k))))),
                self.told_post(st0, st1, g)[1],
                ('composite indexes over the type are out of date', NOT(self.cl(st1, g, g.t))),
                ('others are as they were', FORALL(t, IMP(AND(le(0, t), lt(t, g.nt), ne(t, g.t)), IFF(self.cl(st1, g, t), self.cl(st0, g, t)))))] + self.inv1(ex, st1, g, pos) + g.U.wf(ex, st1)

    def modifies(self, ex, g, st0):
        o = g.o
        d = {g.clean: None, g.cnt: None}
        if self.m == 'add':
            d.update({g.b: [('ptr', o('iv_usedIndexes') // 8, o('iv_usedIndexes') // 8 + 3)], g.U.buf0: None, g.isused: None})
        return d

    def frees(self, ex, g, st0):
        return [g.U.buf0] if self.m == 'add' else []


class Contains(Add):
    """contains: the structure is in some single index of its type"""
    dem = IR + 'contains(unsigned int) const'

    def post(self, ex, g, st0, st1, ret):
        return [('true exactly when an index of its type contains it', IFF(ret, exists_k(0, g.len(g.t), lambda k: pred('has', slot(g.t, k), g.x))))]

    def modifies(self, ex, g, st0):
        return {}

    def frees(self, ex, g, st0):
        return []

    def inv(self, ex, lc):
        g = ex.g
        L = []
        for key in lc.ptrs:
            L.append(('position within the row', lambda v, s, key=key: AND(le(0, v[key].o), le(v[key].o, mulc(g.len(g.t), 8)), eq(mod(v[key].o, 8), 0))))
            L.append(('not in an index before the position', lambda v, s, key=key: all_k(0, div(v[key].o, 8), lambda k: NOT(pred('has', slot(g.t, k), g.x)))))
        for key in lc.ints:
            L.append(('position within the row', lambda v, s, key=key: le(v[key], g.len(g.t))))
            L.append(('not in an index before the position', lambda v, s, key=key: all_k(0, v[key], lambda k: NOT(pred('has', slot(g.t, k), g.x)))))
        return L


class Reset(Repo):
    """reset: every index is empty, no type is marked as used, and composite indexes over types that had structures are out of date"""
    dem = IR + 'reset()'
    row = False

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        g.x = None
        self.inv0(st, g)
        s0 = st.snap()
        t = bound('t')
        g.hintrow = lambda ex, s, q: ex.oblige(s, 'hint: different types have different places on the list', FORALL(t, IMP(AND(le(0, t), lt(t, g.nt), self.used(s0, g, t), ne(t, q)), ne(self.upos(t), self.upos(q))), [cell(s0, g.isused, t, 8)]), 'pre')
        return [this]

    def post(self, ex, g, st0, st1, ret):
        t, k = bound('t'), bound('k')
        return [('every index is empty', FORALL([t, k], IMP(AND(le(0, t), lt(t, g.nt), le(0, k), lt(k, g.len(t))), eq(self.c(st1, g, t, k), 0)))),
                ('no type is marked as used', FORALL(t, IMP(AND(le(0, t), lt(t, g.nt)), NOT(self.used(st1, g, t))))),
                ('no type is listed as used', eq(g.U.size(ex, st1), 0)),
                ('no structure of a type without index is remembered', eq(g.D.size(ex, st1), 0)),
                ('composite indexes over a type that had structures are out of date', FORALL(t, IMP(AND(le(0, t), lt(t, g.nt), self.used(st0, g, t)), NOT(self.cl(st1, g, t))))),
                ('composite indexes are as they were for other types', FORALL(t, IMP(AND(le(0, t), lt(t, g.nt), NOT(self.used(st0, g, t))), IFF(self.cl(st1, g, t), self.cl(st0, g, t)))))
                ] + g.U.wf(ex, st1) + g.D.wf(ex, st1)

    def modifies(self, ex, g, st0):
        o = g.o
        return {g.b: [('ptr', o('iv_usedIndexes') // 8, o('iv_usedIndexes') // 8 + 3), ('ptr', o('iv_undefinedindex') // 8, o('iv_undefinedindex') // 8 + 3)],
                g.U.buf0: None, g.D.buf0: None, g.clean: None, g.cnt: None, g.isused: None}

    def inv(self, ex, lc):
        g = ex.g
        t, k = bound('t'), bound('k')
        s0 = g.st0
        L = []
        for key, (nm, w) in lc.ints.items():
            done = lambda v, t: AND(self.used(s0, g, t), lt(self.upos(t), v[key]))
            L += [('position within the list (%s)' % nm, lambda v, s, key=key: le(v[key], g.nu)),
                  ('types before the position are empty (%s)' % nm, lambda v, s, key=key: FORALL([t, k], IMP(AND(le(0, t), lt(t, g.nt), le(0, k), lt(k, g.len(t)), self.used(s0, g, t), lt(self.upos(t), v[key])), eq(self.c(s, g, t, k), 0)), [slot(t, k)])),
                  ('types from the position on are as before (%s)' % nm, lambda v, s, key=key: FORALL([t, k], IMP(AND(le(0, t), lt(t, g.nt), OR(NOT(self.used(s0, g, t)), le(v[key], self.upos(t)))), eq(self.c(s, g, t, k), self.c(s0, g, t, k))), [slot(t, k)])),
                  ('types before the position are no longer marked (%s)' % nm, lambda v, s, key=key: FORALL(t, IMP(AND(le(0, t), lt(t, g.nt)), eq(cell(s, g.isused, t, 8), ite(AND(self.used(s0, g, t), lt(self.upos(t), v[key])), 0, cell(s0, g.isused, t, 8)))), [cell(s0, g.isused, t, 8)])),
                  ('composite indexes (%s)' % nm, lambda v, s, key=key: FORALL(t, IMP(AND(le(0, t), lt(t, g.nt)), eq(cell(s, g.clean, t, 8), ite(AND(self.used(s0, g, t), lt(self.upos(t), v[key])), 0, cell(s0, g.clean, t, 8)))), [cell(s0, g.clean, t, 8), cell(s0, g.isused, t, 8)])),
                  # inner loop
                  ('indexes of one type before the position are empty (%s)' % nm, lambda v, s, key=key: self.inner(lc, g, s, v[key])),
                  ]
        for key, nm in lc.ptrs.items():
            L += [('position within the row (%s)' % nm, lambda v, s, key=key: True if getattr(g, 'cur', None) is None else AND(le(0, v[key].o), le(v[key].o, mulc(g.len(g.cur), 8)), eq(mod(v[key].o, 8), 0))),
                  ('indexes of one type before the position are empty (%s)' % nm, lambda v, s, key=key: self.inner(lc, g, s, div(v[key].o, 8)))]
        return L

    def inner(self, lc, g, s, j):
        s0 = lc.entry
        q = self.slotat(lc, g)
        if q is None:
            return True
        t, k = bound('t'), bound('k')
        return AND(le(j, g.len(q)), FORALL(k, eq(self.c(s, g, q, k), ite(AND(le(0, k), lt(k, j)), 0, self.c(s0, g, q, k))), [slot(q, k)]),
                   FORALL([t, k], IMP(ne(t, q), eq(self.c(s, g, t, k), self.c(s0, g, t, k))), [slot(t, k)]))

    def slotat(self, lc, g):
        """the type whose indexes the inner loop walks: the one whose row the loop refers to"""
        return getattr(g, 'cur', None)


class Dirty(Repo):
    """isDirtyForIndex: whether some type subsumed by the index's type changed since the index was last brought up to date"""
    dem = IR + 'isDirtyForIndex(uima::lowlevel::IndexABase const*) const'
    row = False

    def index(self, ex, st, g, b):
        g.it = u('index type', 1, LIM)
        st.assume(lt(g.it, g.nt))
        fput(ex, st, b, ex.P.off('uima::lowlevel::IndexABase', 'iv_tyFSType'), 'i32', g.it)

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        self.bitform(st, g)
        self.index(ex, st, g, g.ix)
        return [this, Ptr(g.ix, 0)]

    def dirty(self, st, g):
        t = bound('t')
        return NOT(FORALL(t, IMP(AND(le(0, t), lt(t, g.nt), pred('sub', g.it, t)), self.cl(st, g, t)), [pred('sub', g.it, t)]))

    def post(self, ex, g, st0, st1, ret):
        return [('true exactly when some subsumed type changed', IFF(ret, self.dirty(st0, g)))]

    def inv(self, ex, lc):
        g = ex.g
        L = []
        if getattr(g, 'sv', None) is not None:
            for key in lc.ptrs:
                L.append(('position within the types', lambda v, s, key=key: AND(le(0, v[key].o), le(v[key].o, mulc(g.sn, 4)), eq(mod(v[key].o, 4), 0))))
                L.append(('no change among the types before the position', lambda v, s, key=key: all_k(0, div(v[key].o, 4), lambda k: self.cl(s, g, g.sv(k)))))
            for key in lc.ints:
                L.append(('position within the types', lambda v, s, key=key: le(v[key], g.sn)))
                L.append(('no change among the types before the position', lambda v, s, key=key: all_k(0, v[key], lambda k: self.cl(s, g, g.sv(k)))))
        return L


class ClearDirty(Dirty):
    """clearDirtyFlagForIndex: the index is up to date for all types its type subsumes; nothing else changes"""
    dem = IR + 'clearDirtyFlagForIndex(uima::lowlevel::IndexABase const*)'

    def post(self, ex, g, st0, st1, ret):
        t = bound('t')
        return [('up to date for exactly the subsumed types', FORALL(t, IMP(AND(le(0, t), lt(t, g.nt)), IFF(self.cl(st1, g, t), OR(self.cl(st0, g, t), pred('sub', g.it, t))))))]

    def modifies(self, ex, g, st0):
        return {g.clean: None}

    def inv(self, ex, lc):
        g = ex.g
        L = []
        t = bound('t')
        if getattr(g, 'sv', None) is not None:
            for key in lc.ptrs:
                L.append(('position within the types', lambda v, s, key=key: AND(le(0, v[key].o), le(v[key].o, mulc(g.sn, 4)), eq(mod(v[key].o, 4), 0))))
                L.append(('up to date for the types before the position', lambda v, s, key=key: all_k(0, div(v[key].o, 4), lambda k: self.cl(s, g, g.sv(k)))))
            for key in lc.ints:
                L.append(('position within the types', lambda v, s, key=key: le(v[key], g.sn)))
                L.append(('up to date for the types before the position', lambda v, s, key=key: all_k(0, v[key], lambda k: self.cl(s, g, g.sv(k)))))
            L.append(('and those that were', lambda v, s: FORALL(t, IMP(AND(le(0, t), lt(t, g.nt)), AND(IMP(self.cl(lc.entry, g, t), self.cl(s, g, t)), IMP(self.cl(s, g, t), OR(self.cl(lc.entry, g, t), pred('sub', g.it, t))))), [cell(lc.entry, g.clean, t, 8)])))
        return L


class ClearOther(ClearDirty):
    """clearDirtyFlagForIndex of one index says nothing about another"""
    title = IR + 'clearDirtyFlagForIndex (seen from another index)'

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        self.bitform(st, g)
        g.other = ex.newblk(st, 'heap', 'other index', 128)
        self.index(ex, st, g, g.other)
        return [this, Ptr(g.other, 0)]

    def post(self, ex, g, st0, st1, ret):
        t = bound('t')
        return [('the observed index is as it was', FORALL(t, IMP(AND(le(0, t), lt(t, g.nt)), IFF(self.cl(st1, g, t), self.cl(st0, g, t)))))]

    def inv(self, ex, lc):
        g = ex.g
        L = []
        t = bound('t')
        for key in lc.ptrs:
            L.append(('position within the types', lambda v, s, key=key: AND(le(0, v[key].o), le(v[key].o, mulc(g.sn, 4)), eq(mod(v[key].o, 4), 0))))
        for key in lc.ints:
            L.append(('position within the types', lambda v, s, key=key: le(v[key], g.sn)))
        L.append(('nothing for the observed index', lambda v, s: FORALL(t, eq(cell(s, g.clean, t, 8), cell(lc.entry, g.clean, t, 8)), [cell(lc.entry, g.clean, t, 8)])))
        return L


class GetIndex(Add):
    """getLowlevelIndex: the single index of the identifier for a type without subtypes, the composite index of the identifier for one with subtypes"""
    dem = IR + 'getLowlevelIndex(icu_74::UnicodeString const&, unsigned int) const'

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        st.assume(AND(le(1, g.t), lt(g.t, g.nt)))
        g.n = u('position', 0, LIM)
        st.assume(lt(g.n, g.len(g.t)))
        g.node = ex.newblk(st, 'heap', 'map node', 104)
        fput(ex, st, g.node, 96, 'i64', g.n)
        g.cmaps = ex.newblk(st, 'heap', 'composite indexes', mulc(g.nt, MAPROW))
        self.vec(ex, st, g, 'iv_idNonMaximalTypeIndexes', g.cmaps, mulc(g.nt, MAPROW))
        g.cnode = ex.newblk(st, 'heap', 'map node', 104)
        g.comp = ex.newblk(st, 'heap', 'composite index', 160)
        fput(ex, st, g.cnode, 96, 'ptr', Ptr(g.comp, 0))
        g.id = ex.newblk(st, 'heap', 'id', 64)
        return [this, Ptr(g.id, 0), g.t]

    def post(self, ex, g, st0, st1, ret):
        mx = pred('maximal', g.t)
        return [('the single index of a type without subtypes', IMP(mx, AND(eq(ret.b, g.six), eq(ret.o, mulc(slot(g.t, g.n), SB))))),
                ('the composite index of a type with subtypes', IMP(NOT(mx), AND(eq(ret.b, g.comp), eq(ret.o, 0))))]

    def modifies(self, ex, g, st0):
        return {}

    def frees(self, ex, g, st0):
        return []

    def inv(self, ex, lc):
        return []


def cmapfind(ex, st, a, i, d):
    g = ex.g
    ex.oblige(st, 'requires of map::find: the composite indexes of the type', AND(eq(a[0].b, g.cmaps), eq(a[0].o, mulc(g.t, MAPROW))), 'pre')
    ex.oblige(st, 'requires of map::find: the identifier given', AND(eq(a[1].b, g.id), eq(a[1].o, 0)), 'pre')
    return Ptr(g.cnode, 0)


def maximal(ex, st, a, i, d):
    ex.oblige(st, 'requires of isMaximalType: the type system of this repository', eq(a[0].b, ex.g.ts), 'pre')
    return pred('maximal', a[1])


class Used(Add):
    """getUsedIndexes: the types listed as used, replacing what was in the result; nothing else changes"""
    dem = IR + 'getUsedIndexes(std::vector<unsigned int, std::allocator<unsigned int>>&)'

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        g.rb = ex.newblk(st, 'heap', 'result', 24)
        g.R = VecV(g.rb, 0, 4, name='result').setup(ex, st)
        return [this, Ptr(g.rb, 0)]

    def post(self, ex, g, st0, st1, ret):
        return g.R.wf(ex, st1) + [('as many as are listed', eq(g.R.size(ex, st1), g.nu)), ('the types listed', all_k(0, g.nu, lambda k: eq(g.R.at(ex, st1, k), g.u0(k))))]

    def modifies(self, ex, g, st0):
        return g.R.mod()

    def frees(self, ex, g, st0):
        return [g.R.buf0]

    def inv(self, ex, lc):
        g = ex.g
        L = []
        for key in lc.ptrs:
            for k2 in lc.ptrs:
                if k2 != key:
                    L.append(('copied up to the position', lambda v, s, key=key, k2=k2: AND(eq(v[key].o, v[k2].o), all_k(0, div(v[key].o, 4), lambda k: eq(cell(s, v[k2].b, k, 32), g.u0(k)))) if isinstance(v[key].b, int) and v[key].b == g.U.buf0 and isinstance(v[k2].b, int) and v[k2].b != g.U.buf0 else False))
        return L


CI = NSI + 'CachedCompositeIndex<%s>'
VECU = 'std::vector<unsigned int, std::allocator<unsigned int>>'
SETU = 'std::set<unsigned int, std::less<unsigned int>, std::allocator<unsigned int>>'
LAYC = {'vector': NSI + 'CachedCompositeIndex<class std::vector<unsigned int> >', 'set': NSI + 'CachedCompositeIndex<class std::set<unsigned int> >'}
LAYI = {'vector': NSI + 'STLSingleIndexIterator<class std::vector<unsigned int> >', 'set': NSI + 'STLSingleIndexIterator<class std::set<unsigned int> >'}


class Create(Dirty):
    """createIterator of a composite index: the cache is refilled, and marked up to date, exactly when a type below the index changed;
    the iterator is one over the cache"""

    def __init__(self, kind, m):
        self.kind = kind
        self.types = m == 'createTypeSetIterator'
        self.dem = CI % (VECU if kind == 'vector' else SETU) + '::' + m + ('(%s const&) const' % SETU if self.types else '() const')

    def setup(self, ex, st, g):
        self.base(ex, st, g)
        self.bitform(st, g)
        P = ex.P
        lay = LAYC[self.kind]
        g.ix = ex.newblk(st, 'heap', 'composite index', 160)
        o = lambda f: P.off('uima::lowlevel::IndexABase', f)
        fput(ex, st, g.ix, 0, 'ptr', ex.globalptr(st, CIVT if self.kind == 'vector' else '_ZTVN4uima8lowlevel8internal17SetCompositeIndexE', 16))
        fput(ex, st, g.ix, o('iv_crIndexRepository'), 'ptr', Ptr(g.b, 0))
        fput(ex, st, g.ix, o('iv_crFSHeap'), 'ptr', Ptr(g.heap, 0))
        self.index(ex, st, g, g.ix)
        g.cmp = ex.newblk(st, 'heap', 'comparator', 128)
        fput(ex, st, g.ix, P.off(lay, 'iv_comparator'), 'ptr', Ptr(g.cmp, 0))
        g.cacheoff = P.off(lay, 'iv_cache')
        # ghost: 1 when the cache has been refilled
        g.filled = ex.newblk(st, 'ghost', 'refilled', 8)
        fput(ex, st, g.filled, 0, 'i64', 0)
        g.wasdirty = self.dirty(st, g)
        args = [Ptr(g.ix, 0)]
        if self.types:
            g.tset = ex.newblk(st, 'heap', 'types', 48)
            args.append(Ptr(g.tset, 0))
        return args

    def post(self, ex, g, st0, st1, ret):
        t = bound('t')
        L = [('refilled exactly when it was out of date', IFF(eq(fget(ex, st1, g.filled, 0, 'i64'), 1), g.wasdirty)),
             ('up to date afterwards', NOT(self.dirty(st1, g))),
             ('nothing is marked up to date for other types', FORALL(t, IMP(AND(le(0, t), lt(t, g.nt), NOT(pred('sub', g.it, t))), IFF(self.cl(st1, g, t), self.cl(st0, g, t)))))]
        it = ret
        if self.types:
            o = lambda f: ex.P.off(NSI + 'TypeSetIterator', f)
            L.append(('the iterator accepts exactly the types given', self.isptr(fget(ex, st1, ret.b, add(ret.o, o('iv_types')), 'ptr'), g.tset, 0)))
            it = fget(ex, st1, ret.b, add(ret.o, o('iv_it')), 'ptr')
        o = lambda f: add(it.o, ex.P.off(LAYI[self.kind], f))
        G = lambda f: fget(ex, st1, it.b, o(f), 'ptr')
        L += [('an iterator over the cache of the index', self.isptr(G('iv_crStructures'), g.ix, g.cacheoff)),
              ('in the order of the index', self.isptr(G('iv_cpComparator'), g.cmp, 0)),
              ('over the heap of the index', self.isptr(G('iv_heap'), g.heap, 0))]
        return L

    def isptr(self, p, b, o):
        return AND(eq(p.b, b), eq(p.o, o))

    def modifies(self, ex, g, st0):
        return {g.clean: None, g.filled: None, g.ix: [('ptr', g.cacheoff // 8, g.cacheoff // 8 + 6)]}

    def inv(self, ex, lc):
        return []


def isdirty_stub(ex, st, a, i, d):
    g = ex.g
    if not hasattr(g, 'filled'):
        return INLINE
    ex.oblige(st, 'requires of isDirtyForIndex: this repository and this index', AND(eq(a[0].b, g.b), eq(a[1].b, g.ix), eq(a[1].o, 0)), 'pre')
    t = u(freshname('changed'), 0, LIM)
    C = Dirty()
    s2 = st.copy()
    s2.assume(AND(lt(t, g.nt), pred('sub', g.it, t), NOT(C.cl(s2, g, t))))
    st.assume(NOT(C.dirty(st, g)))
    return [('ret', s2, True), ('ret', st, False)]


def cleardirty_stub(ex, st, a, i, d):
    g = ex.g
    if not hasattr(g, 'filled'):
        return INLINE
    ex.oblige(st, 'requires of clearDirtyFlagForIndex: this repository and this index', AND(eq(a[0].b, g.b), eq(a[1].b, g.ix), eq(a[1].o, 0)), 'pre')
    ex.oblige(st, 'the index is marked up to date only after its cache has been refilled', eq(fget(ex, st, g.filled, 0, 'i64'), 1), 'pre')
    t = bound('t')
    C = Dirty()
    c0 = st.mem[g.clean].arr(8)
    ex.setarr(st, g.clean, 8, a_havoc(c0, freshname('clean')))
    c1 = st.mem[g.clean].arr(8)
    st.assume(FORALL(t, IMP(AND(le(0, t), lt(t, g.nt)), IFF(eq(a_read(c1, t), 1), OR(eq(a_read(c0, t), 1), pred('sub', g.it, t)))), [a_read(c1, t)]))


def fill_stub(ex, st, a, i, d):
    g = ex.g
    if not hasattr(g, 'filled'):
        return INLINE
    ex.oblige(st, 'requires of clearAndFillCache: this index', AND(eq(a[0].b, g.ix), eq(a[0].o, 0)), 'pre')
    fput(ex, st, g.filled, 0, 'i64', 1)
    for k in range(3):
        fput(ex, st, g.ix, g.cacheoff + 8 * k, 'ptr', Ptr(u(freshname('cb'), 1), u(freshname('co'))))


def setcopy(ex, st, a, i, d):
    """copy of a set: the object stands for the same set"""
    st.mem[a[0].b]
    fput(ex, st, a[0].b, a[0].o, 'ptr', a[1])


class Fill(Repo):
    """clearAndFillCache: the cache holds the structures of the component indexes, one index after the other, each in its order"""
    dem = CI % VECU + '::clearAndFillCache()'
    row = False

    def setup(self, ex, st, g):
        P = ex.P
        g.ex = ex
        ex.g = g
        lay = LAYC['vector']
        g.ix = ex.newblk(st, 'heap', 'composite index', 160)
        fput(ex, st, g.ix, 0, 'ptr', ex.globalptr(st, CIVT, 16))
        g.six = ex.newblk(st, 'heap', 'single indexes', None)
        objects(ex, st, g.six, {0: ex.globalptr(st, SIVT, 16)})
        g.n = u('components', 0, LIM)
        g.comp = lambda c: uf('comp', c, lo=0)
        buf = ex.newblk(st, 'heap', 'components', mulc(g.n, 8))
        q = st.mem[buf]
        q.arrs['pb'] = lam('pb', lambda k: g.six)
        q.arrs['po'] = lam('po', lambda k: mulc(g.comp(k), SB))
        co = P.off(NSI + 'CompositeIndex', 'iv_tyComponents')
        for d, v in ((0, 0), (8, mulc(g.n, 8)), (16, mulc(g.n, 8))):
            fput(ex, st, g.ix, co + d, 'ptr', Ptr(buf, v))
        g.C = VecV(g.ix, P.off(lay, 'iv_cache'), 4, name='cache').setup(ex, st)
        g.len = g.clen = lambda c: uf('clen', c, lo=0, hi=LIM)
        g.cid = lambda s: uf('comp.1', s)
        g.S = lambda c, k: uf('elem', c, k, lo=0, hi=(1 << 32) - 1)
        g.off = lambda c: uf('coff', c, lo=0, hi=LIM)
        g.E = lambda k: uf('E', k, lo=0, hi=(1 << 32) - 1)
        c, k = bound('c'), bound('k')
        st.assume(FORALL(c, eq(uf('comp.1', g.comp(c)), c), [g.comp(c)]))
        # the definition of the concatenation
        st.assume(eq(g.off(0), 0))
        st.assume(FORALL(c, IMP(AND(le(0, c), lt(c, g.n)), eq(g.off(add(c, 1)), add(g.off(c), g.len(c)))), [g.len(c)]))
        st.assume(FORALL([c, k], IMP(AND(le(0, c), lt(c, g.n), le(0, k), lt(k, g.len(c))), eq(g.E(add(g.off(c), k)), g.S(c, k))), [g.S(c, k)]))
        g.cc = None
        return [Ptr(g.ix, 0)]

    def post(self, ex, g, st0, st1, ret):
        return g.C.wf(ex, st1) + [('as many as the component indexes hold together', eq(g.C.size(ex, st1), g.off(g.n))),
                                  ('the structures of the components, one component after the other', all_k(0, g.off(g.n), lambda k: eq(g.C.at(ex, st1, k), g.E(k))))]

    def modifies(self, ex, g, st0):
        return g.C.mod()

    def frees(self, ex, g, st0):
        return [g.C.buf0]

    def inv(self, ex, lc):
        g = ex.g
        L = []
        for key in lc.ptrs:
            c = lambda v, key=key: div(v[key].o, 8)
            L += [('position within the components', lambda v, s, key=key: AND(le(0, v[key].o), le(v[key].o, mulc(g.n, 8)), eq(mod(v[key].o, 8), 0))),
                  ('as many as the components before the position hold', lambda v, s, key=key, c=c: eq(g.C.size(ex, s), g.off(c(v))))]
        for key, (nm, w) in lc.ints.items():
            L += [('position within the components', lambda v, s, key=key: AND(le(0, v[key]), le(v[key], g.n))),
                  ('as many as the components before the position hold', lambda v, s, key=key: eq(g.C.size(ex, s), g.off(v[key])))]
        L.append(('structures in the order of the components', lambda v, s: all_k(0, g.C.size(ex, s), lambda k: eq(g.C.at(ex, s, k), g.E(k)))))
        if g.cc is not None:
            c, b = g.cc
            L.append(('as many as were walked', lambda v, s: AND(le(0, self.pos(ex, s, b)), le(self.pos(ex, s, b), g.len(c)), eq(g.C.size(ex, s), add(g.off(c), self.pos(ex, s, b)))) if b in s.mem else False))
        for lb in ('one buffer', 'size within the capacity', 'whole elements'):
            L.append(('cache: ' + lb, lambda v, s, lb=lb: dict(g.C.wf(ex, s)).get('cache: ' + lb, True)))
        return L

    def pos(self, ex, s, b):
        return fget(ex, s, b, 16, 'i64')


def citer(ex, st, a, i, d):
    """createIterator of a component: an iterator object; its position is kept at offset 16, its component at 24"""
    g = ex.g
    if not hasattr(g, 'cc'):
        return INLINE
    c = g.cid(sixnum(ex, st, a[0]))
    b = ex.newblk(st, 'heap', 'component iterator', 40)
    fput(ex, st, b, 0, 'ptr', ex.globalptr(st, ITVT, 16))
    p = u(freshname('pos'), 0, LIM)
    st.assume(AND(le(p, g.clen(c))))
    fput(ex, st, b, 16, 'i64', p)
    fput(ex, st, b, 24, 'i64', c)
    g.cc = (c, b)
    return Ptr(b, 0)


def cpos(ex, st, a):
    if not hasattr(ex.g, 'cc'):
        raise Undecided('an iterator not expected here')
    return fget(ex, st, a[0].b, add(a[0].o, 16), 'i64'), fget(ex, st, a[0].b, add(a[0].o, 24), 'i64')


def cfirst(ex, st, a, i, d):
    fput(ex, st, a[0].b, add(a[0].o, 16), 'i64', 0)


def cnext(ex, st, a, i, d):
    p, c = cpos(ex, st, a)
    ex.oblige(st, 'requires of moveToNext: the iterator is at a structure', lt(p, ex.g.clen(c)), 'pre')
    fput(ex, st, a[0].b, add(a[0].o, 16), 'i64', add(p, 1))


def cvalid(ex, st, a, i, d):
    p, c = cpos(ex, st, a)
    return lt(p, ex.g.clen(c))


def cget(ex, st, a, i, d):
    p, c = cpos(ex, st, a)
    ex.oblige(st, 'requires of get: the iterator is at a structure', lt(p, ex.g.clen(c)), 'pre')
    return ex.g.S(c, p)


def whole(ex, st, a, what):
    g = ex.g
    if not hasattr(g, 'R'):
        raise Undecided(what + ' of something else than the result')
    p = g.R.ptrs(ex, st)
    ex.oblige(st, 'requires of %s: the whole result' % what, AND(eq(a[0].b, p[0].b), eq(a[0].o, p[0].o), eq(a[1].b, p[1].b), eq(a[1].o, p[1].o)), 'pre')
    return p[0].b, g.R.size(ex, st)


def rearrange(ex, st, b, n, m, nm):
    """the first m of n places hold the same values as the n places before, in another order; returns the new values"""
    g = ex.g
    a0 = st.mem[b].arr(32)
    ex.setarr(st, b, 32, a_havoc(a0, freshname(nm)))
    a1 = st.mem[b].arr(32)
    k = bound('k')
    fr, to = freshname('from'), freshname('to')
    st.assume(all_k(0, m, lambda k: AND(lt(uf(fr, k, lo=0), n), eq(a_read(a1, k), a_read(a0, uf(fr, k, lo=0))))))
    q = fget(ex, st, g.seen, 0, 'i64')
    w = uf(to, q, lo=0)
    st.assume(IMP(lt(q, n), AND(lt(w, m), eq(a_read(a1, w), a_read(a0, q)))))
    fput(ex, st, g.seen, 0, 'i64', w)
    return a1


def ssort(ex, st, a, i, d):
    """std::sort: the same values in ascending order"""
    b, n = whole(ex, st, a, 'sort')
    a1 = rearrange(ex, st, b, n, n, 'sorted')
    j, k = bound('j'), bound('k')
    st.assume(FORALL([j, k], IMP(AND(le(0, j), le(j, k), lt(k, n)), le(a_read(a1, j), a_read(a1, k))), [(a_read(a1, j), a_read(a1, k))]))


def sunique(ex, st, a, i, d):
    """std::unique of an ascending sequence: each value once, in ascending order, at the front"""
    b, n = whole(ex, st, a, 'unique')
    a0 = st.mem[b].arr(32)
    j, k = bound('j'), bound('k')
    ex.oblige(st, 'requires of unique: equal values are neighbours', FORALL([j, k], IMP(AND(le(0, j), le(j, k), lt(k, n)), le(a_read(a0, j), a_read(a0, k)))), 'pre')
    m = u(freshname('kept'), 0, LIM * 2)
    st.assume(le(m, n))
    a1 = rearrange(ex, st, b, n, m, 'unique')
    st.assume(FORALL([j, k], IMP(AND(le(0, j), lt(j, k), lt(k, m)), lt(a_read(a1, j), a_read(a1, k))), [(a_read(a1, j), a_read(a1, k))]))
    return Ptr(a[0].b, mulc(m, 4))


class GPush(Push):
    """push_back (on the ghost side: where the observed value is)"""

    def call(self, ex, st, args):
        g = ex.g
        if not hasattr(g, 'seen'):
            return Push.call(self, ex, st, args)
        st.assume(lt(g.R.size(ex, st), 2 * LIM))     # assumed: the list fits
        out = Push.call(self, ex, st, args)
        for kind, s, r in out:
            n = g.R.size(ex, s)
            last = add(n, -1)
            fput(ex, s, g.seen, 0, 'i64', ite(eq(g.R.at(ex, s, last), g.e), last, fget(ex, s, g.seen, 0, 'i64')))
        return out


GPush.__doc__ = Push.__doc__
NOWHERE = 1 << 40


class Indexed(Repo):
    """getIndexedFSs: the structures of types without index and those held by an index of a used type, each once, in ascending order"""
    dem = IR + 'getIndexedFSs(std::vector<unsigned int, std::allocator<unsigned int>>&)'
    row = False

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        self.inv0(st, g)
        g.hintrow = lambda ex, s, q: None
        g.rb = ex.newblk(st, 'heap', 'result', 24)
        g.R = VecV(g.rb, 0, 4, name='result').setup(ex, st)
        g.cc = None
        g.cid = lambda s: s
        g.clen = lambda s: uf('nheld', s, lo=0, hi=LIM)
        g.S = lambda s, k: uf('held', s, k, lo=0, hi=(1 << 32) - 1)
        # any property of structures that all structures to be listed have
        g.src = lambda x: pred('belongs', x)
        t, k, j = bound('t'), bound('k'), bound('j')
        st.assume(FORALL(k, IMP(AND(le(0, k), lt(k, g.nd)), g.src(g.d0(k))), [g.d0(k)]))
        st.assume(FORALL([t, k, j], IMP(AND(le(0, t), lt(t, g.nt), self.used(st, g, t), le(0, k), lt(k, g.len(t)), le(0, j), lt(j, g.clen(slot(t, k)))), g.src(g.S(slot(t, k), j))), [g.S(slot(t, k), j)]))
        # any one structure to be listed
        g.k0, g.t0, g.j0 = u('k0', 0, LIM), u('t0', 0, LIM), u('j0', 0, LIM)
        g.A = eq(u('which', 0, 1), 0)
        g.e = u('e', 0, (1 << 32) - 1)
        st.assume(IMP(g.A, AND(lt(g.k0, g.nd), eq(g.e, g.d0(g.k0)))))
        st.assume(IMP(NOT(g.A), AND(lt(g.t0, g.nt), self.used(st, g, g.t0), lt(g.k0, g.len(g.t0)), lt(g.j0, g.clen(slot(g.t0, g.k0))), eq(g.e, g.S(slot(g.t0, g.k0), g.j0)))))
        g.seen = ex.newblk(st, 'ghost', 'where', 8)
        fput(ex, st, g.seen, 0, 'i64', NOWHERE)
        return [this, Ptr(g.rb, 0)]

    def is_seen(self, ex, s):
        return ne(fget(ex, s, ex.g.seen, 0, 'i64'), NOWHERE)

    def post(self, ex, g, st0, st1, ret):
        n = g.R.size(ex, st1)
        q = fget(ex, st1, g.seen, 0, 'i64')
        j, k = bound('j'), bound('k')
        return g.R.wf(ex, st1) + [('ascending, each once', FORALL([j, k], IMP(AND(le(0, j), lt(j, k), lt(k, n)), lt(g.R.at(ex, st1, j), g.R.at(ex, st1, k))))),
                                  ('only structures that are to be listed', all_k(0, n, lambda k: g.src(g.R.at(ex, st1, k)))),
                                  ('every structure that is to be listed', AND(lt(q, n), eq(g.R.at(ex, st1, q), g.e)))]

    def modifies(self, ex, g, st0):
        d = dict(g.R.mod())
        d[g.seen] = None
        return d

    def frees(self, ex, g, st0):
        return [g.R.buf0]

    def inv(self, ex, lc):
        g = ex.g
        R = g.R
        L = []
        cur, cc = getattr(g, 'cur', None), g.cc
        for key, (nm, w) in lc.ints.items():
            L += [('within those without index (%s)' % nm, lambda v, s, key=key: le(v[key], g.nd)),
                  ('within the types (%s)' % nm, lambda v, s, key=key: le(v[key], g.nu)),
                  ('listed if without index and before (%s)' % nm, lambda v, s, key=key: IMP(AND(g.A, lt(g.k0, v[key])), self.is_seen(ex, s))),
                  ('listed if of a type before (%s)' % nm, lambda v, s, key=key: IMP(AND(NOT(g.A), lt(self.upos(g.t0), v[key])), self.is_seen(ex, s)))]
            if cur is not None:
                L += [('within the indexes (%s)' % nm, lambda v, s, key=key: le(v[key], g.len(cur))),
                      ('listed if in an index before (%s)' % nm, lambda v, s, key=key: IMP(AND(NOT(g.A), eq(cur, g.t0), lt(g.k0, v[key])), self.is_seen(ex, s)))]
        L += [('still listed', lambda v, s: IMP(self.is_seen(ex, lc.entry), self.is_seen(ex, s))),
              ('listed there', lambda v, s: IMP(self.is_seen(ex, s), AND(lt(fget(ex, s, g.seen, 0, 'i64'), R.size(ex, s)), eq(R.at(ex, s, fget(ex, s, g.seen, 0, 'i64')), g.e)))),
              ('only structures that are to be listed', lambda v, s: all_k(0, R.size(ex, s), lambda k: g.src(R.at(ex, s, k))))]
        if cc is not None:
            c, b = cc
            L += [('within the structures of the index', lambda v, s: le(fget(ex, s, b, 16, 'i64'), g.clen(c)) if b in s.mem else False),
                  ('listed if walked', lambda v, s: IMP(AND(NOT(g.A), eq(c, slot(g.t0, g.k0)), lt(g.j0, fget(ex, s, b, 16, 'i64'))), self.is_seen(ex, s)) if b in s.mem else False)]
        for lb in ('one buffer', 'size within the capacity', 'whole elements'):
            L.append(('result: ' + lb, lambda v, s, lb=lb: dict(R.wf(ex, s)).get('result: ' + lb, True)))
        return L


SORTS = [(re.compile(r'void std::sort<__gnu_cxx::__normal_iterator<unsigned int\*'), ssort), (re.compile(r'.* std::unique<__gnu_cxx::__normal_iterator<unsigned int\*'), sunique)]
CITS = [(re.compile(ITB + r'moveToFirst\(\)'), cfirst), (re.compile(ITB + r'moveToNext\(\)'), cnext), (re.compile(ITB + r'isValid\(\)'), cvalid), (re.compile(ITB + r'get\(\)'), cget)]
CLASS = re.escape(NSI) + 'CachedCompositeIndex<.*>::'
ASSUMED = []


def heaptype(ex, st, a, i, d):
    ex.oblige(st, 'requires of FSHeap::getType: the heap of this repository', eq(a[0].b, ex.g.heap), 'pre')
    return typeof(a[1])


def sixnum(ex, st, p):
    g = ex.g
    if not (isinstance(p.b, int) and p.b == g.six):
        raise Undecided('an index that is not a single index of the repository')
    return div(p.o, SB)


def six_add(ex, st, a, i, d):
    g = ex.g
    s = sixnum(ex, st, a[0])
    ex.oblige(st, 'the structure given is the one added', eq(a[1], g.x), 'pre')
    ex.setarr(st, g.cnt, 32, a_store(st.mem[g.cnt].arr(32), s, add(cell(st, g.cnt, s, 32), 1)))


def six_size(ex, st, a, i, d):
    """getSize of a single index: how many structures it holds"""
    g = ex.g
    s = sixnum(ex, st, a[0])
    if hasattr(g, 'clen'):
        return g.clen(g.cid(s))
    return cell(st, g.cnt, s, 32)


def six_remove(ex, st, a, i, d):
    g = ex.g
    s = sixnum(ex, st, a[0])
    ex.oblige(st, 'the structure given is the one removed', eq(a[1], g.x), 'pre')
    ex.setarr(st, g.cnt, 32, a_store(st.mem[g.cnt].arr(32), s, uf('less', cell(st, g.cnt, s, 32), lo=0)))


def six_reset(ex, st, a, i, d):
    g = ex.g
    s = sixnum(ex, st, a[0])
    ex.setarr(st, g.cnt, 32, a_store(st.mem[g.cnt].arr(32), s, 0))


def six_contains(ex, st, a, i, d):
    s = sixnum(ex, st, a[0])
    ex.oblige(st, 'the structure given is the one asked for', eq(a[1], ex.g.x), 'pre')
    return pred('has', s, ex.g.x)


def mapfind(ex, st, a, i, d):
    g = ex.g
    ex.oblige(st, 'requires of map::find: the numbers of the indexes of the type', AND(eq(a[0].b, g.maps), eq(a[0].o, mulc(g.t, MAPROW))), 'pre')
    ex.oblige(st, 'requires of map::find: the identifier given', AND(eq(a[1].b, g.id), eq(a[1].o, 0)), 'pre')
    return Ptr(g.node, 0)


def subsumed(ex, st, a, i, d):
    """contract of TypeSystem::getSubsumedTypes (proved in V04), on an empty vector"""
    g = ex.g
    ex.oblige(st, 'requires of getSubsumedTypes: the type system and the type of the index', AND(eq(a[0].b, g.ts), eq(a[1], g.it)), 'pre')
    v = VecV(a[2].b, a[2].o, 4, name='subsumed types')
    ex.oblige(st, 'an empty vector is passed', eq(v.size(ex, st), 0), 'pre')
    g.sn = u('nsub', 1, LIM)
    v.move(ex, st, g.sn)
    p = v.ptrs(ex, st)[0]
    arr = st.mem[p.b].arr(32)
    g.sv = lambda k: a_read(arr, k)
    t, k = bound('t'), bound('k')
    w = lambda t: uf('subpos', t, lo=0)
    st.assume(eq(v.size(ex, st), g.sn))
    for lb, f in v.wf(ex, st):
        st.assume(f)
    st.assume(all_k(0, g.sn, lambda k: AND(le(1, g.sv(k)), lt(g.sv(k), g.nt), pred('sub', g.it, g.sv(k)))))
    st.assume(FORALL(t, IMP(AND(le(0, t), lt(t, g.nt), pred('sub', g.it, t)), AND(lt(w(t), g.sn), eq(g.sv(w(t)), t))), [pred('sub', g.it, t)]))


def indexarg(ex, st, p):
    q = fget(ex, st, p.b, p.o, 'ptr')
    return eq(q.b, ex.g.ix)


def ds_insert(ex, st, a, i, d):
    g = ex.g
    t = dirtyrow(ex, st, a[0])
    ex.store(st, Ptr(g.clean, t), 'i8', ite(indexarg(ex, st, a[1]), 1, cell(st, g.clean, t, 8)))
    return None


def ds_erase(ex, st, a, i, d):
    g = ex.g
    t = dirtyrow(ex, st, a[0])
    ex.store(st, Ptr(g.clean, t), 'i8', ite(indexarg(ex, st, a[1]), 0, cell(st, g.clean, t, 8)))
    return None


def ds_find(ex, st, a, i, d):
    g = ex.g
    t = dirtyrow(ex, st, a[0])
    ex.oblige(st, 'the index asked about', indexarg(ex, st, a[1]), 'pre')
    return Ptr(g.dirty, ite(eq(cell(st, g.clean, t, 8), 1), add(mulc(t, SETROW), 16), add(mulc(t, SETROW), 8)))


def ds_end(ex, st, a, i, d):
    t = dirtyrow(ex, st, a[0])
    return Ptr(ex.g.dirty, add(mulc(t, SETROW), 8))


def ds_count(ex, st, a, i, d):
    g = ex.g
    t = dirtyrow(ex, st, a[0])
    ex.oblige(st, 'the index asked about', indexarg(ex, st, a[1]), 'pre')
    return ite(eq(cell(st, g.clean, t, 8), 1), 1, 0)


def dirtyrow(ex, st, p):
    g = ex.g
    if not (isinstance(p.b, int) and p.b == g.dirty):
        raise Undecided('a set of indexes that is not one of the repository')
    ex.checkaccess(st, p.b, p.o, SETROW, 'set of indexes')
    return div(p.o, SETROW)


def ds_clear(ex, st, a, i, d):
    t = dirtyrow(ex, st, a[0])
    ex.store(st, Ptr(ex.g.clean, t), 'i8', 0)


VBB = re.escape('std::vector<bool, std::allocator<bool>>::')


def vbidx(ex, st, a):
    g = ex.g
    ex.oblige(st, 'requires of vector<bool>::operator[]: the marks of this repository', AND(eq(a[0].b, g.b), eq(a[0].o, g.o('iv_isUsed'))), 'pre')
    ex.oblige(st, 'requires of vector<bool>::operator[]: index within the size', lt(a[1], g.nt), 'pre')


def vb_ref(ex, st, a, i, d):
    vbidx(ex, st, a)
    return Agg([Ptr(ex.g.isused, a[1]), 1])


def ref_bool(ex, st, a, i, d):
    q = fget(ex, st, a[0].b, a[0].o, 'ptr')
    return eq(cell(st, q.b, q.o, 8), 1)


def ref_set(ex, st, a, i, d):
    q = fget(ex, st, a[0].b, a[0].o, 'ptr')
    x = a[1]
    ex.store(st, q, 'i8', ite(x, 1, 0) if isinstance(x, bool) or getattr(x, 'isb', False) else ite(eq(mod(x, 2), 0), 0, 1))
    return a[0]


OSI = re.escape(NSI + 'OrderedSingleIndex::')
def noterow(ex, st, a, i, d):
    g = ex.g
    g.cur = q = a[1]
    if hasattr(g, 'hintrow'):
        g.hintrow(ex, st, q)
        # the row of this type is an object of its own
        r = ex.newblk(st, 'heap', 'index row of the type', mulc(g.len(q), 8))
        b = st.mem[r]
        b.arrs['pb'] = lam('pb', lambda k: g.six)
        b.arrs['po'] = lam('po', lambda k: mulc(slot(q, k), SB))
        rb = st.mem[g.rows] = st.mem[g.rows].copy()
        for d in (0, 1, 2):
            rb.arrs['pb'] = a_store(rb.arrs['pb'], add(mulc(q, 3), d), r)
    return INLINE


STUBS = CITS + SORTS + [(re.compile(r'uima::lowlevel::TypeSystem::isMaximalType\('), maximal), (re.compile(r'std::map<icu_\d+::UnicodeString, uima::lowlevel::internal::CompositeIndex\*.*>::find\('), cmapfind),
         (re.compile(re.escape(NSI + 'OrderedSingleIndex::createIterator(')), citer), (re.compile(re.escape(IR) + r'isDirtyForIndex\('), isdirty_stub), (re.compile(re.escape(IR) + r'clearDirtyFlagForIndex\('), cleardirty_stub),
         (re.compile(CLASS + r'clearAndFillCache\('), fill_stub), (re.compile(re.escape(SETU) + r'::set\(std::set'), setcopy),
         (re.compile(re.escape(IR) + r'getAllSingleIndexesForType\('), noterow), (re.compile(r'uima::lowlevel::FSHeap::getType\('), heaptype), (re.compile(OSI + r'add\('), six_add), (re.compile(OSI + r'remove\('), six_remove), (re.compile(OSI + r'getSize\('), six_size), (re.compile(OSI + r'reset\('), six_reset), (re.compile(re.escape(NSI) + r'SingleIndex::contains\('), six_contains),
         (re.compile(r'std::map<icu_\d+::UnicodeString, unsigned long.*>::find\('), mapfind), (re.compile(r'uima::lowlevel::TypeSystem::getSubsumedTypes\('), subsumed),
         (re.compile(IXSET + r'insert\('), ds_insert), (re.compile(IXSET + r'erase\(uima::lowlevel'), ds_erase), (re.compile(IXSET + r'find\('), ds_find), (re.compile(IXSET + r'end\('), ds_end), (re.compile(IXSET + r'count\('), ds_count),
         (re.compile(IXSET + r'clear\(\)'), ds_clear),
         (re.compile(VBB + r'operator\[\]\(unsigned long\)$'), vb_ref), (re.compile(r'std::_Bit_reference::operator bool\(\) const'), ref_bool), (re.compile(r'std::_Bit_reference::operator=\(bool\)'), ref_set)] + ESTUBS
CONTRACTS = [Add(), Remove(), ById('add', lambda x: add(x, 1)), ById('remove', lambda x: uf('less', x, lo=0)), Contains(), Reset(), Dirty(), ClearDirty(), ClearOther(), GetIndex(), Used(), Indexed()] + [Create(k, m) for k in ('vector', 'set') for m in ('createIterator', 'createTypeSetIterator')] + [Fill(), InsertEnd('unsigned int', 4), InsertEnd('unsigned int', 4, 'unsigned int const&')] + pushes('int', 4) + [GPush('unsigned int', 4), GPush('unsigned int', 4, 'unsigned int&&')]
ASSUMPTIONS = ['std::set, std::map and vector<bool> behave as sets, maps and sequences of bits; std::sort and std::unique as the standard says', 'single indexes meet their contracts (V14); getSubsumedTypes meets its contract (V04); FSHeap::getType is a function of the structure',
               'the list made by getIndexedFSs fits in memory (below 2^28 entries)']
