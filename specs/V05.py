"""V05: the index comparator orders feature structures lexicographically by its keys, in a total preorder."""
from fsh import *
from stl import pushes

LEVEL = 'proof'
TUS = ['cas/lowlevel_indexcomparator.cpp', 'cas/lowlevel_typesystem.cpp']
REPLAY = 'V05.cpp'
CL = 'uima::lowlevel::IndexComparator'
KINDS = ['INTEGER', 'FLOAT', 'STRING', 'BOOLEAN', 'BYTE', 'SHORT', 'LONG', 'DOUBLE']


def sg(v, w):
    return ite(ge(v, 1 << (w - 1)), add(v, -(1 << w)), v)


def mapfind(ex, st, args, i, dem):
    """assumed contract of std::map::find on the type priority map: the entry of the type (every type has one after commit)"""
    key = ex.load(st, args[1], 'i32')
    return Ptr(ex.g.prionode(key), 0)


class Keys:
    """logical view of a comparator: key j has an offset (0: type priority), a value kind and a direction"""

    def __init__(self, ex, st, name='cmp'):
        P = ex.P
        self.b = ex.newblk(st, 'heap', name, 128)
        o = lambda f: P.off(CL, f)
        self.n = u(name + '.nkeys', 0, LIM)
        self.feats, _ = vec_setup(ex, st, self.b, o('iv_features'), name + '.features', 4, self.n)
        self.offs, _ = vec_setup(ex, st, self.b, o('iv_offsets'), name + '.offsets', 4, self.n)
        self.kinds, _ = vec_setup(ex, st, self.b, o('iv_appropTypes'), name + '.kinds', 4, self.n)
        self.dirs, _ = vec_setup(ex, st, self.b, o('iv_comparators'), name + '.directions', 4, self.n)

    def off(self, st, j):
        return cell(st, self.offs, j, 32)

    def kind(self, st, j):
        return cell(st, self.kinds, j, 32)

    def rev(self, st, j):
        return cell(st, self.dirs, j, 32)


class CC(HeapC):
    def base(self, ex, st, g):
        HeapC.base(self, ex, st, g)
        g.K = Keys(ex, st)
        g.prio = lambda t: uf('priority', t, lo=0, hi=(1 << 64) - 1)
        g.prionode = family(ex, 'prionode', lambda t: 48, {64: lambda t, k: ite(eq(k, 5), uf('priority', t, lo=0, hi=(1 << 64) - 1), uf('prionode.c', t, k, lo=0)), 32: lambda t, k: ite(eq(k, 8), t, uf('prionode.w', t, k, lo=0))})
        return Ptr(g.K.b, 0)

    # value of key j of structure f
    def val(self, st, g, j, f):
        return g.H.fs.at(g.ex, st, add(f, g.K.off(st, j)))

    def so(self, st, g, v):
        return g.H.ref.at(g.ex, st, refcell(v))

    def sl(self, st, g, v):
        return ite(eq(v, 0), 0, g.H.ref.at(g.ex, st, add(refcell(v), 1)))

    def ch(self, st, g, v, k):
        return g.H.str.at(g.ex, st, add(self.so(st, g, v), k))

    def slt(self, st, g, v, w):
        return self.less(st, g, self.so(st, g, v), self.sl(st, g, v), self.so(st, g, w), self.sl(st, g, w))

    def seq(self, st, g, v, w):
        return self.same(st, g, self.so(st, g, v), self.sl(st, g, v), self.so(st, g, w), self.sl(st, g, w))

    # texts (position in the string heap, length); D: ghost position of the first difference, at most the shorter length
    def D(self, o, l, p, m):
        return uf('firstdiff', o, l, p, m, lo=0, hi=LIM)

    def chr(self, st, g, k):
        return g.H.str.at(g.ex, st, k)

    def less(self, st, g, o, l, p, m):
        d = self.D(o, l, p, m)
        return ite_b(lt(d, ite(le(l, m), l, m)), lt(self.chr(st, g, add(o, d)), self.chr(st, g, add(p, d))), lt(l, m))

    def same(self, st, g, o, l, p, m):
        return AND(eq(l, m), ge(self.D(o, l, p, m), l))

    def ddef(self, st, g, o, l, p, m):
        """definition of the ghost first difference of two texts"""
        d = self.D(o, l, p, m)
        mn = ite(le(l, m), l, m)
        st.assume(le(d, mn))
        st.assume(IMP(lt(d, mn), ne(self.chr(st, g, add(o, d)), self.chr(st, g, add(p, d)))))
        st.assume(all_k(o, add(o, d), lambda k: eq(self.chr(st, g, k), self.chr(st, g, add(k, sub(p, o))))))

    def rel(self, st, g, j, a, b):
        """(a < b, a = b) by key j alone, in standard direction"""
        v, w = self.val(st, g, j, a), self.val(st, g, j, b)
        k = g.K.kind(st, j)
        h64 = lambda c: ite(eq(c, 0), 0, g.H.h64.at(g.ex, st, c))
        fl = lambda bits, x, y: (pred('flt%d' % bits, x, y), NOT(OR(pred('flt%d' % bits, x, y), pred('flt%d' % bits, y, x))))
        it = lambda x, y: (lt(x, y), eq(x, y))
        T = {'INTEGER': it(sg(v, 32), sg(w, 32)), 'FLOAT': fl(32, v, w),
             'STRING': (self.slt(st, g, v, w), self.seq(st, g, v, w)),
             'BOOLEAN': (AND(ne(v, 1), eq(w, 1)), IFF(eq(v, 1), eq(w, 1))),
             'BYTE': it(sg(mod(v, 256), 8), sg(mod(w, 256), 8)), 'SHORT': it(sg(mod(v, 65536), 16), sg(mod(w, 65536), 16)),
             'LONG': it(sg(h64(v), 64), sg(h64(w), 64)), 'DOUBLE': fl(64, h64(v), h64(w))}
        L, E = T['DOUBLE']
        for n in range(6, -1, -1):
            L, E = ite_b(eq(k, n), T[KINDS[n]][0], L), ite_b(eq(k, n), T[KINDS[n]][1], E)
        t1, t2 = g.H.fs.at(g.ex, st, a), g.H.fs.at(g.ex, st, b)
        pr = eq(g.K.off(st, j), 0)
        return ite_b(pr, AND(ne(t1, t2), lt(g.prio(t1), g.prio(t2))), L), ite_b(pr, eq(t1, t2), E)

    def fspre(self, st, g, f):
        """the structure has every key feature, with a value the heap can hold"""
        H, ex = g.H, g.ex
        j = bound('j')
        st.assume(le(1, f))
        st.assume(lt(f, H.fs.top(ex, st)))
        v = self.val(st, g, j, f)
        k = g.K.kind(st, j)
        r = H.ref
        st.assume(FORALL(j, IMP(AND(le(0, j), lt(j, g.K.n)), AND(
            lt(add(f, g.K.off(st, j)), H.fs.top(ex, st)), lt(k, 8), lt(g.K.rev(st, j), 2),
            OR(eq(g.K.off(st, j), 0), ne(k, 2), eq(v, 0), AND(le(v, LIM), lt(add(refcell(v), 1), r.top(ex, st)), le(add(self.so(st, g, v), self.sl(st, g, v)), H.str.top(ex, st)))),
            OR(eq(g.K.off(st, j), 0), lt(k, 6), lt(v, H.h64.top(ex, st))))), [g.K.off(st, j)]))
        t = H.fs.at(ex, st, f)
        st.assume(AND(le(1, t), lt(t, g.ts.nt)))


class StrCompare(CC):
    """inline_strCompare: sign of the lexicographic comparison of two texts in the string heap by code units"""
    dem = 'uima::lowlevel::inline_strCompare(char16_t const*, unsigned long, char16_t const*, unsigned long)'

    def setup(self, ex, st, g):
        g.ex = ex
        ex.g = g
        self.base(ex, st, g)
        g.o, g.l, g.p, g.m = u('o1', 0, LIM), u('len1', 0, LIM), u('o2', 0, LIM), u('len2', 0, LIM)
        n1, n2 = bvar('null1'), bvar('null2')
        out = []
        for o, l, n in ((g.o, g.l, n1), (g.p, g.m, n2)):
            st.assume(le(add(o, l), g.H.str.top(ex, st)))
            st.assume(IMP(n, AND(eq(o, 0), eq(l, 0))))
            out += [Ptr(ite(n, 0, g.H.str.buf0), mulc(o, 2)), l]
        self.ddef(st, g, g.o, g.l, g.p, g.m)
        return out

    def rel3(self, st, g, o, l, p, m, r):
        return [('negative exactly when the first text is smaller', IFF(ge(r, 1 << 31), self.less(st, g, o, l, p, m))),
                ('zero exactly when the texts are equal', IFF(eq(r, 0), self.same(st, g, o, l, p, m)))]

    def post(self, ex, g, st0, st1, ret):
        return self.rel3(st0, g, g.o, g.l, g.p, g.m, ret)

    def call(self, ex, st, args):
        g = ex.g
        b = g.H.str.buf(ex, st).b
        q = []
        for p, l in ((args[0], args[1]), (args[2], args[3])):
            ex.oblige(st, 'requires of inline_strCompare: a text in the string heap, or null with length 0',
                      OR(AND(eq(p.b, 0), eq(p.o, 0), eq(l, 0)), AND(eq(p.b, b), eq(mod(p.o, 2), 0), le(0, p.o), le(0, l), le(l, LIM), le(add(div(p.o, 2), l), g.H.str.cells(ex, st)))), 'pre')
            q += [div(p.o, 2), l]
        r = u(freshname('cmp'))
        for _, f in self.rel3(st, g, *q, r):
            st.assume(f)
        return [('ret', st, r)]

    def inv(self, ex, lc):
        g = ex.g
        L = []
        d = self.D(g.o, g.l, g.p, g.m)
        for key, nm in lc.ptrs.items():
            for o in (g.o, g.p):
                L.append(('characters before the cursor agree', lambda v, s, key=key, o=o: le(sub(div(v[key].o, 2), o), d)))
        for key, (nm, w) in lc.ints.items():
            L.append(('characters before the index agree', lambda v, s, key=key: le(v[key], d)))
        return L


class Compare(CC):
    """compare(a, b): 0 when all keys agree, else the sign given by the first key that differs"""
    dem = CL + '::compare(uima::lowlevel::FSHeap const&, unsigned int, unsigned int) const'
    cost = 9

    def setup(self, ex, st, g):
        g.ex = ex
        this = self.base(ex, st, g)
        g.a, g.b = u('fs1', 1), u('fs2', 1)
        ex.g = g
        self.fspre(st, g, g.a)
        self.fspre(st, g, g.b)
        # ghost: the first key by which the structures differ (the number of keys when there is none)
        g.F = u('firstkey', 0, LIM)
        st.assume(le(g.F, g.K.n))
        j = bound('j')
        st.assume(FORALL(j, IMP(AND(le(0, j), lt(j, g.F)), self.rel(st, g, j, g.a, g.b)[1]), [g.K.off(st, j)]))
        st.assume(OR(eq(g.F, g.K.n), NOT(self.rel(st, g, g.F, g.a, g.b)[1])), lazy=True)
        return [this, Ptr(g.H.b, 0), g.a, g.b]

    def post(self, ex, g, st0, st1, ret):
        L, E = self.rel(st0, g, g.F, g.a, g.b)
        r = g.K.rev(st0, g.F)
        exp = ite(eq(g.F, g.K.n), 0, ite(IFF(L, eq(r, 0)), 1, (1 << 32) - 1))
        return [('the sign is that of the first differing key, in its direction', IMP(ne(g.a, g.b), eq(ret, exp))),
                ('a structure compares equal to itself', IMP(eq(g.a, g.b), eq(ret, 0)))] + self.kept(ex, g, st0, st1)

    def inv(self, ex, lc):
        g = ex.g
        st0 = g.st0
        L = []
        for key, (nm, w) in lc.ints.items():
            L.append(('keys before %s agree' % nm, lambda v, s, key=key: le(v[key], g.F)))
        return L


def refcell(c):
    return add(mulc(c, 2), -1)


CONTRACTS = LIB + [StrCompare(), Compare()]


class KeyLaws(CC):
    """every single key orders structures by a strict weak order (the relation used by the contract of compare)"""
    title = 'each key compares by a total preorder (lemma over the contract of compare)'

    def setup(self, ex, st, g):
        g.ex = ex
        self.base(ex, st, g)
        g.x = [u('fsx', 1), u('fsy', 1), u('fsz', 1)]
        for f in g.x:
            self.fspre(st, g, f)
        return []

    def lemmas(self, ex, g, st):
        a, b, c = g.x
        j = u('key')
        st.assume(AND(le(0, j), lt(j, g.K.n)))
        x, y, z = (u(n, -1 << 70, 1 << 70) for n in 'xyz')
        # texts
        T = [(u('o%d' % i, 0, LIM), u('l%d' % i, 0, LIM)) for i in range(3)]
        s = st.copy() if hasattr(st, 'copy') else st.snap()
        for p in T:
            s.assume(le(add(p[0], p[1]), g.H.str.top(ex, s)))
        for p in T:
            for q in T:
                self.ddef(s, g, *p, *q)
        laws(ex, s, 'texts: ', lambda p, q: self.less(s, g, *p, *q), lambda p, q: self.same(s, g, *p, *q), T)
        # every kind of key, given the laws for texts and for non-NaN floats
        v = [self.val(st, g, j, f) for f in g.x]
        tx = [(self.so(st, g, w), self.sl(st, g, w)) for w in v]
        lawsat(st, lambda p, q: self.less(st, g, *p, *q), lambda p, q: self.same(st, g, *p, *q), tx)
        h64 = lambda w: ite(eq(w, 0), 0, g.H.h64.at(ex, st, w))
        for bits, vs in ((32, v), (64, [h64(w) for w in v])):
            f = lambda p, q: pred('flt%d' % bits, p, q)
            lawsat(st, f, lambda p, q: NOT(OR(f(p, q), f(q, p))), vs)
        t = [g.H.fs.at(ex, st, f) for f in g.x]
        for p in t:
            for q in t:
                st.assume(IMP(eq(g.prio(p), g.prio(q)), eq(p, q)))
        laws(ex, st, 'key: ', lambda p, q: self.rel(st, g, j, p, q)[0], lambda p, q: self.rel(st, g, j, p, q)[1], g.x)


def lawlist(L, E, x, y, z):
    return [('irreflexive, and equal to itself', AND(NOT(L(x, x)), E(x, x))), ('asymmetric', NOT(AND(L(x, y), L(y, x)))), ('total', OR(L(x, y), E(x, y), L(y, x))),
            ('smaller and equal exclude each other', NOT(AND(L(x, y), E(x, y)))), ('equality symmetric', IFF(E(x, y), E(y, x))),
            ('transitive', IMP(AND(L(x, y), L(y, z)), L(x, z))), ('equality transitive', IMP(AND(E(x, y), E(y, z)), E(x, z))),
            ('smaller than an equal', IMP(AND(L(x, y), E(y, z)), L(x, z))), ('equal to a smaller', IMP(AND(E(x, y), L(y, z)), L(x, z)))]


def laws(ex, st, pre, L, E, xs):
    for lb, f in lawlist(L, E, *xs):
        ex.oblige(st, 'lemma ' + pre + lb, f, 'post')


def lawsat(st, L, E, xs):
    import itertools
    for t in itertools.product(xs, repeat=3):
        for lb, f in lawlist(L, E, *t):
            st.assume(f)


class LexLaws(CC):
    """the sign computed from the first differing key is a total preorder: antisymmetric, transitive, 0 is an equivalence"""
    title = 'comparison is a total preorder (lemma over the contract of compare)'

    def setup(self, ex, st, g):
        g.n = u('nkeys', 0, LIM)
        return []

    def lemmas(self, ex, g, st):
        import itertools
        X = [1, 2, 3]
        L = lambda j, p, q: pred('keyless', j, p, q)
        E = lambda j, p, q: pred('keyequal', j, p, q)
        R = lambda j: uf('keyreverse', j, lo=0, hi=1)
        F = lambda p, q: uf('first', p, q, lo=0, hi=LIM)
        j = bound('j')
        for t in itertools.product(X, repeat=3):
            for lb, f in lawlist(lambda p, q: L(j, p, q), lambda p, q: E(j, p, q), *t):
                st.assume(FORALL(j, f, [R(j)]))
        for p, q in itertools.product(X, repeat=2):
            f = F(p, q)
            st.assume(le(f, g.n))
            st.assume(FORALL(j, IMP(AND(le(0, j), lt(j, f)), E(j, p, q)), [R(j)]))
            st.assume(OR(eq(f, g.n), NOT(E(f, p, q))))
            st.assume(le(0, R(f)))
            st.assume(le(R(f), 1))
        sgn = lambda p, q: ite(eq(F(p, q), g.n), 0, ite(IFF(L(F(p, q), p, q), eq(R(F(p, q)), 0)), 1, -1))
        x, y, z = X
        ex.oblige(st, 'lemma comparing the other way round negates the sign', eq(sgn(x, y), sub(0, sgn(y, x))), 'post')
        ex.oblige(st, 'lemma a structure equals itself', eq(sgn(x, x), 0), 'post')
        ex.oblige(st, 'lemma transitive', IMP(AND(le(0, sgn(x, y)), le(0, sgn(y, z))), le(0, sgn(x, z))), 'post')
        ex.oblige(st, 'lemma equality is transitive', IMP(AND(eq(sgn(x, y), 0), eq(sgn(y, z), 0)), eq(sgn(x, z), 0)), 'post')
        ex.oblige(st, 'lemma strictly transitive', IMP(AND(le(0, sgn(x, y)), le(0, sgn(y, z)), OR(lt(0, sgn(x, y)), lt(0, sgn(y, z)))), lt(0, sgn(x, z))), 'post')



KN = ['INTEGER', 'FLOAT', 'STRING', 'BOOLEAN', 'BYTE', 'SHORT', 'LONG', 'DOUBLE']
ENUM = 'uima::lowlevel::IndexComparator::'


def tyname(ex, st, args, i, dem):
    """assumed (type name lookup is proved in V15): the predefined type of that name"""
    return uf('typeByName', a_read(st.mem[args[1].b].arr(512), div(args[1].o, 64)), lo=0, hi=(1 << 32) - 1)


def ustr(ex, st, args, i, dem):
    """UnicodeString(char const *): the text is a function of the character constant"""
    p = args[1]
    ex.setarr(st, args[0].b, 512, a_store(st.mem[args[0].b].arr(512), div(args[0].o, 64), uf('text', p.b, p.o, lo=0)))
    return None


class AddKey(Contract):
    """addKey appends one key: the feature, its committed offset, the value kind of its range type, and the direction"""
    dem = CL + '::addKey(unsigned int, uima::lowlevel::IndexComparator::EnKeyFeatureComp)'

    def setup(self, ex, st, g):
        P = ex.P
        g.ex = ex
        g.ts = TSV(ex, st)
        g.b = ex.newblk(st, 'heap', 'cmp', 128)
        o = lambda f: P.off(CL, f)
        g.v = {}
        n = u('cmp.nkeys', 0, LIM)
        for f in ('iv_features', 'iv_offsets', 'iv_appropTypes', 'iv_comparators'):
            g.v[f] = VecV(g.b, o(f), 4, name=f).setup(ex, st, n)
        idx = ex.newblk(st, 'heap', 'indexdef', max(P.layouts.get('uima::lowlevel::IndexDefinition', {'': 512}).values()) + 64)
        fput(ex, st, idx, P.off('uima::lowlevel::IndexDefinition', 'iv_crTypeSystem'), 'ptr', Ptr(g.ts.b, 0))
        fput(ex, st, g.b, o('iv_indexDefinition'), 'ptr', Ptr(idx, 0))
        g.f, g.dir, g.n = u('feature'), u('direction', 0, 1), n
        st.assume(lt(g.f, g.ts.nf))
        g.named = []
        for k in KN:
            nm = '_ZN4uima3CAS%dTYPE_NAME_%sE' % (len('TYPE_NAME_' + k), k)
            p = ex.load(st, ex.globalptr(st, nm), 'ptr')
            g.named.append(uf('typeByName', uf('text', p.b, p.o, lo=0), lo=0, hi=(1 << 32) - 1))
        # the predefined types are different types; the key has one of their ranges (no unsupported key)
        for i in range(8):
            for j in range(i):
                st.assume(ne(g.named[i], g.named[j]))
        r = g.ts.rangeof(st, g.f)
        st.assume(OR(eq(g.f, 0), *[eq(r, t) for t in g.named]))
        return [Ptr(g.b, 0), g.f, g.dir]

    def post(self, ex, g, st0, st1, ret):
        r = g.ts.rangeof(st0, g.f)
        kind = 7
        for i in range(6, -1, -1):
            kind = ite(eq(r, g.named[i]), i, kind)
        exp = {'iv_features': g.f, 'iv_offsets': ite(eq(g.f, 0), 0, g.ts.featoff(st0, g.f)), 'iv_appropTypes': ite(eq(g.f, 0), 8, kind), 'iv_comparators': g.dir}
        lab = {'iv_features': 'feature', 'iv_offsets': 'offset (0: type priority)', 'iv_appropTypes': 'value kind', 'iv_comparators': 'direction'}
        L = []
        for f, v in g.v.items():
            L += [('one key more (%s)' % lab[f], eq(v.size(ex, st1), add(g.n, 1))), ('%s of the new key' % lab[f], eq(v.at(ex, st1, g.n), exp[f])),
                  ('%s of the other keys kept' % lab[f], all_k(0, g.n, lambda k: eq(v.at(ex, st1, k), v.at(ex, st0, k))))] + v.wf(ex, st1)
        return L

    def modifies(self, ex, g, st0):
        m = {}
        for v in g.v.values():
            for b, r in v.mod().items():
                m[b] = None if r is None else m.get(b, []) + r
        return m

    def frees(self, ex, g, st0):
        return [v.buf0 for v in g.v.values()]


CONTRACTS += [KeyLaws(), LexLaws(), AddKey(), ] + pushes('unsigned int', 4) + pushes(ENUM + 'EnBuiltinTypes', 4) + pushes(ENUM + 'EnKeyFeatureComp', 4)
STUBS = [(re.compile(r'std::map<unsigned int, unsigned long.*>::find\('), mapfind), (re.compile(r'uima::lowlevel::TypeSystem::getTypeByName\('), tyname), (re.compile(r'icu_\d+::UnicodeString::UnicodeString\(char const\*\)'), ustr), (re.compile(r'icu_\d+::UnicodeString::~UnicodeString'), lambda *a: None)] + STUBS
ASSUMPTIONS = ['std::map::find on the type priority map yields the entry of the type (every type of a committed type system has one)',
               'type priority numbers of different types differ (topological numbering)',
               'float keys: the IEEE order on non-NaN values is a strict weak order (float comparison itself is uninterpreted)',
               'getTypeByName is a function of the name text, and the eight predefined value types are different types (lookup is the subject of V15)']
