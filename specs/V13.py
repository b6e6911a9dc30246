"""V13: the feature layout that commit computes: each type's features have distinct offsets 1..n, inherited features keep their offset."""
import re
from tsys import *
from stl import *
from api import ESTUBS
import V04
import V15

LEVEL = 'proof'
TUS = ['cas/lowlevel_typesystem.cpp']
REPLAY = 'V13.cpp'
T = 'uima::lowlevel::TypeSystem::'
VU = vecof('unsigned int')
VB1 = vecof('bool')
ROWB, ROWU = 40, 24          # sizeof(std::vector<bool>), sizeof(std::vector<unsigned int>)


def pair(t, j):
    """cell number of row t, column j in a table of rows (ghost; injective)"""
    return uf('pair', t, j, lo=0)


def pairs(st):
    t, j = bound('t'), bound('j')
    st.assume(FORALL([t, j], AND(eq(uf('pair.1', pair(t, j)), t), eq(uf('pair.2', pair(t, j)), j)), [pair(t, j)]))


class LC(V15.TS):
    """type system with the tables that commit computes.
    total(t): number of features of t, by the definition total(top) = 0, total(t) = total(parent of t) + features introduced by t"""

    def base(self, ex, st, g):
        g.ts = ts = Tree(ex, st)
        ex.g = g
        o = ts.o
        pairs(st)
        g.total = lambda t: uf('total', t, lo=0, hi=LIM)
        g.arows = ex.newblk(st, 'heap', 'appropriateness rows', mulc(ts.nt, ROWB))
        self.outer(ex, st, ts.b, o('iv_vecApprop'), g.arows, mulc(ts.nt, ROWB))
        g.V = {'num': VecV(ts.b, o('iv_vecFeatureNumber'), 4, name='feature numbers'), 'off': VecV(ts.b, o('iv_vecFeatureOffset'), 4, name='feature offsets')}
        g.V['num'].buf0, g.V['off'].buf0 = ts.fnum, ts.foff
        g.bits = ex.newblk(st, 'ghost', 'appropriateness', None)
        g.an = ex.newblk(st, 'ghost', 'appropriateness row sizes', None)
        g.mrows = ex.newblk(st, 'heap', 'offset table rows', mulc(ts.nt, ROWU))
        self.outer(ex, st, ts.b, o('iv_vecTypeFeatureOffsetMapping'), g.mrows, mulc(ts.nt, ROWU))
        g.map = ex.newblk(st, 'ghost', 'offset table', None)
        g.mn = ex.newblk(st, 'ghost', 'offset table row sizes', None)
        return Ptr(ts.b, 0)

    def outer(self, ex, st, b, off, buf, n):
        fput(ex, st, b, off, 'ptr', Ptr(buf, 0))
        fput(ex, st, b, off + 8, 'ptr', Ptr(buf, n))
        fput(ex, st, b, off + 16, 'ptr', Ptr(buf, n))

    def defs(self, ex, st, g, *ground):
        ts = g.ts
        self.inv0(ex, st, g, *ground)
        st.assume(eq(g.total(1), 0))
        st.assume(eq(ts.nintro(1), 0))
        t = bound('t')
        st.assume(FORALL(t, self.totdef(g, t), [g.total(t)]))
        for x in ground:
            st.assume(self.totdef(g, x))

    def totdef(self, g, t):
        ts = g.ts
        return IMP(AND(le(2, t), lt(t, ts.nt)), eq(g.total(t), add(g.total(ts.par(t)), ts.nintro(t))))

    # logical view
    def bit(self, st, g, t, j):
        return eq(cell(st, g.bits, pair(t, j), 8), 1)

    def A(self, g, t, j):
        """feature j is appropriate for t: introduced by t or an ancestor of t (top introduces none)"""
        return g.ts.anc(g.ts.fowner(j), t)

    def numof(self, st, g, t):
        return g.V['num'].at(g.ts.ex, st, t)

    def offof(self, st, g, f):
        return g.V['off'].at(g.ts.ex, st, f)

    def off0(self, g, f):
        """offset that commit has to give to feature f"""
        ts = g.ts
        return add(add(g.total(ts.par(ts.fowner(f))), ts.fidx(f)), 1)

    def isf(self, g, f):
        return AND(le(1, f), lt(f, g.ts.nf))

    def ist(self, g, t):
        return AND(le(1, t), lt(t, g.ts.nt))


def rowof(p, sz):
    return div(p.o, sz)


def is_row(ex, p, b):
    return isinstance(p.b, int) and p.b == b


def rows(ex, st, g, field, sz):
    """present number of rows of a table"""
    return div(fget(ex, st, g.ts.b, add(g.ts.o(field), 8), 'ptr').o, sz)


def bit_addr(ex, st, a):
    g = ex.g
    if not is_row(ex, a[0], getattr(g, 'arows', None)):
        return None
    t, j = rowof(a[0], ROWB), a[1]
    ex.oblige(st, 'requires of vector<bool>::operator[]: index within the size', AND(lt(t, rows(ex, st, g, 'iv_vecApprop', ROWB)), lt(j, cell(st, g.an, t, 64))), 'pre')
    return pair(t, j)


def vb_ref(ex, st, a, i, d):
    k = bit_addr(ex, st, a)
    return INLINE if k is None else Agg([Ptr(ex.g.bits, k), 1])


def vb_get(ex, st, a, i, d):
    k = bit_addr(ex, st, a)
    return INLINE if k is None else eq(cell(st, ex.g.bits, k, 8), 1)


def vb_size(ex, st, a, i, d):
    return cell(st, ex.g.an, rowof(a[0], ROWB), 64) if is_row(ex, a[0], ex.g.arows) else INLINE


def target(ex, st, p):
    q = fget(ex, st, p.b, p.o, 'ptr')
    return q


def ref_bool(ex, st, a, i, d):
    q = target(ex, st, a[0])
    return eq(cell(st, q.b, q.o, 8), 1)


def tobit(x):
    return ite(x, 1, 0) if isinstance(x, bool) or getattr(x, 'isb', False) else ite(eq(mod(x, 2), 0), 0, 1)


def ref_set(ex, st, a, i, d):
    q = target(ex, st, a[0])
    ex.store(st, q, 'i8', tobit(a[1]))
    return a[0]


def ref_copy(ex, st, a, i, d):
    q = target(ex, st, a[0])
    ex.store(st, q, 'i8', ite(ref_bool(ex, st, [a[1]], i, d), 1, 0))
    return a[0]


def vu_index(ex, st, a, i, d):
    g = ex.g
    if not is_row(ex, a[0], getattr(g, 'mrows', None)):
        return INLINE
    t, k = rowof(a[0], ROWU), a[1]
    ex.oblige(st, 'requires of vector::operator[]: index within the size', AND(lt(t, rows(ex, st, g, 'iv_vecTypeFeatureOffsetMapping', ROWU)), lt(k, cell(st, g.mn, t, 64))), 'pre')
    return Ptr(g.map, mulc(pair(t, k), 4))


def vu_size(ex, st, a, i, d):
    g = ex.g
    if not is_row(ex, a[0], getattr(g, 'mrows', None)):
        return INLINE
    return cell(st, g.mn, rowof(a[0], ROWU), 64)


def vu_resize(ex, st, a, i, d):
    """vector::resize(n, value): elements kept, new ones are copies of the value"""
    g = ex.g
    if not is_row(ex, a[0], getattr(g, 'mrows', None)):
        return INLINE
    t, n = rowof(a[0], ROWU), a[1]
    old = cell(st, g.mn, t, 64)
    x = ex.load(st, a[2], 'i32') if len(a) > 2 else 0
    ex.oblige(st, 'requires of vector::resize: an existing row, not smaller than before', AND(lt(t, rows(ex, st, g, 'iv_vecTypeFeatureOffsetMapping', ROWU)), le(old, n)), 'pre')
    m0 = st.mem[g.map].arr(32)
    ex.setarr(st, g.map, 32, a_havoc(m0, freshname('resized')))
    m1 = st.mem[g.map].arr(32)
    q, k = bound('q'), bound('k')
    st.assume(FORALL([q, k], eq(a_read(m1, pair(q, k)), ite(AND(eq(q, t), le(old, k), lt(k, n)), x, a_read(m0, pair(q, k)))), [pair(q, k)]))
    ex.setarr(st, g.mn, 64, a_store(st.mem[g.mn].arr(64), t, n))
    return None


B_ = re.escape(VB1) + '::'
U_ = re.escape(VU) + '::'
STUBS = [(re.compile(B_ + r'operator\[\]\(unsigned long\) const'), vb_get), (re.compile(B_ + r'operator\[\]\(unsigned long\)$'), vb_ref), (re.compile(B_ + r'size\(\) const'), vb_size),
         (re.compile(r'std::_Bit_reference::operator bool\(\) const'), ref_bool), (re.compile(r'std::_Bit_reference::operator=\(bool\)'), ref_set),
         (re.compile(r'std::_Bit_reference::operator=\(std::_Bit_reference const&\)'), ref_copy),
         (re.compile(U_ + r'operator\[\]\(unsigned long\)'), vu_index), (re.compile(U_ + r'size\(\) const'), vu_size), (re.compile(U_ + r'resize\(unsigned long'), vu_resize)] + ESTUBS


class Approp(LC):
    """computeApprop(t): gives the features of all proper descendants of t their numbers, offsets and appropriateness"""
    dem = T + 'computeApprop(unsigned int)'
    cost = 9
    budget = 400

    def inline_callee(self, dem):
        return False

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        ts = g.ts
        g.t = u('type')
        self.valid(st, g, g.t)
        self.defs(ex, st, g, g.t)
        V04.laws(ex, st, ts)
        g.tow = V04.toward(ex, st, ts, g.t)
        self.rowsz(ex, st, g)
        for lb, f in self.pre(ex, st, g, g.t):
            st.assume(f)
        return [this, g.t]

    def rowsz(self, ex, st, g):
        t = bound('t')
        st.assume(all_k(0, g.ts.nt, lambda t: eq(cell(st, g.an, t, 64), g.ts.nf)))

    def pre(self, ex, st, g, t):
        ts = g.ts
        x = bound('x')
        return [('one number for each type, one offset for each feature', AND(eq(g.V['num'].size(ex, st), ts.nt), eq(g.V['off'].size(ex, st), ts.nf))),
                ('the number of features of the type is known', eq(self.numof(st, g, t), g.total(t))),
                ('the features of the type are known', all_k(1, ts.nf, lambda j: IFF(self.bit(st, g, t, j), self.A(g, t, j)))),
                ('no features counted yet below the type', all_k(1, ts.nt, lambda x: IMP(AND(ts.anc(t, x), ne(x, t)), eq(self.numof(st, g, x), 0))))]

    def below(self, g, t, x):
        return AND(self.ist(g, x), g.ts.anc(t, x), ne(x, t))

    def rel(self, ex, g, t, s0, s1):
        ts = g.ts
        x, j = bound('x'), bound('j')
        B = lambda x: self.below(g, t, x)
        ow = ts.fowner
        return [('every type below has its number of features', all_k(1, ts.nt, lambda x: IMP(B(x), eq(self.numof(s1, g, x), g.total(x))))),
                ('the numbers of all other types are kept', all_k(0, ts.nt, lambda x: IMP(NOT(B(x)), eq(self.numof(s1, g, x), self.numof(s0, g, x))))),
                ('every feature introduced below has its offset', all_k(1, ts.nf, lambda f: IMP(B(ow(f)), eq(self.offof(s1, g, f), self.off0(g, f))))),
                ('the offsets of all other features are kept', all_k(0, ts.nf, lambda f: IMP(OR(lt(f, 1), NOT(B(ow(f)))), eq(self.offof(s1, g, f), self.offof(s0, g, f))))),
                ('types below have exactly the introduced and inherited features', FORALL([x, j], IMP(AND(B(x), self.isf(g, j)), IFF(self.bit(s1, g, x, j), self.A(g, x, j))), [pair(x, j)])),
                ('features of all other types are kept', FORALL([x, j], IMP(AND(self.ist(g, x), NOT(B(x)), self.isf(g, j)), eq(cell(s1, g.bits, pair(x, j), 8), cell(s0, g.bits, pair(x, j), 8))), [pair(x, j)]))]

    def post(self, ex, g, st0, st1, ret):
        return self.rel(ex, g, g.t, st0, st1)

    def modifies(self, ex, g, st0):
        return {g.ts.fnum: None, g.ts.foff: None, g.bits: None}

    def call(self, ex, st, args):
        g = ex.g
        ts = g.ts
        t = args[1]
        ex.oblige(st, 'requires of computeApprop: a valid type', self.ist(g, t), 'pre')
        if hasattr(g, 'tow'):
            V04.child_hints(ex, st, ts, g.t, t, g.tow)
        for lb, f in self.pre(ex, st, g, t):
            ex.oblige(st, 'requires of computeApprop: ' + lb, f, 'pre')
        s0 = st.snap()
        for b, w in ((g.V['num'].ptrs(ex, st)[0].b, 32), (g.V['off'].ptrs(ex, st)[0].b, 32), (g.bits, 8)):
            ex.setarr(st, b, w, a_havoc(st.mem[b].arr(w), freshname('computed')))
        for lb, f in self.rel(ex, g, t, s0, st):
            st.assume(f)
        return [('ret', st, None)]

    def inv(self, ex, lc):
        g = ex.g
        ts, st0, en = g.ts, g.st0, lc.entry
        if lc.fn.dem != self.dem:
            return []
        L = []
        ow = ts.fowner
        B = lambda x: self.below(g, g.t, x)
        keepn = lambda v, s: all_k(0, ts.nt, lambda x: IMP(NOT(B(x)), eq(self.numof(s, g, x), self.numof(st0, g, x))))
        keepo = lambda v, s: all_k(0, ts.nf, lambda f: IMP(OR(lt(f, 1), NOT(B(ow(f)))), eq(self.offof(s, g, f), self.offof(st0, g, f))))

        def keepb(v, s):
            x, j = bound('x'), bound('j')
            return FORALL([x, j], IMP(AND(self.ist(g, x), NOT(B(x)), self.isf(g, j)), eq(cell(s, g.bits, pair(x, j), 8), cell(st0, g.bits, pair(x, j), 8))), [pair(x, j)])
        L += [('numbers elsewhere kept', keepn), ('offsets elsewhere kept', keepo), ('features elsewhere kept', keepb)]
        for k, (nm, w) in lc.ints.items():
            I = lambda x: ts.idx(g.tow(x))
            L += [('types below children before %s have their numbers' % nm, lambda v, s, k=k: all_k(1, ts.nt, lambda x: IMP(AND(B(x), lt(I(x), v[k])), eq(self.numof(s, g, x), g.total(x))))),
                  ('types below children from %s on are not counted yet' % nm, lambda v, s, k=k: all_k(1, ts.nt, lambda x: IMP(AND(B(x), le(v[k], I(x))), eq(self.numof(s, g, x), 0)))),
                  ('features of children before %s have their offsets' % nm, lambda v, s, k=k: all_k(1, ts.nf, lambda f: IMP(AND(B(ow(f)), lt(I(ow(f)), v[k])), eq(self.offof(s, g, f), self.off0(g, f))))),
                  ('types below children before %s have their features' % nm, lambda v, s, k=k: (lambda x, j: FORALL([x, j], IMP(AND(B(x), lt(I(x), v[k]), self.isf(g, j)), IFF(self.bit(s, g, x, j), self.A(g, x, j))), [pair(x, j)]))(bound('x'), bound('j')))]
            # inner loops
            for c in [ts.child(g.t, x) for x in V04.envints(lc)[:8] if x.id != g.t.id]:
                L += [('inherited up to %s' % nm, lambda v, s, k=k, c=c: all_k(0, v[k], lambda j: IFF(self.bit(s, g, c, j), self.bit(s, g, g.t, j)))),
                      ('counted up to %s' % nm, lambda v, s, k=k, c=c: AND(le(v[k], ts.nintro(c)), eq(self.numof(s, g, c), add(g.total(g.t), v[k])))),
                      ('offsets given up to %s' % nm, lambda v, s, k=k, c=c: all_k(1, ts.nf, lambda f: IMP(AND(eq(ow(f), c), lt(ts.fidx(f), v[k])), eq(self.offof(s, g, f), add(add(g.total(g.t), ts.fidx(f)), 1))))),
                      ('introduced up to %s' % nm, lambda v, s, k=k, c=c: all_k(1, ts.nf, lambda j: IFF(self.bit(s, g, c, j), OR(self.A(g, g.t, j), AND(eq(ow(j), c), lt(ts.fidx(j), v[k])))))),
                      ('other types not touched (%s)' % nm, lambda v, s, c=c: (lambda x, j: FORALL([x, j], IMP(AND(self.ist(g, x), ne(x, c)), eq(cell(s, g.bits, pair(x, j), 8), cell(en, g.bits, pair(x, j), 8))), [pair(x, j)]))(bound('x'), bound('j'))),
                      ('other numbers not touched (%s)' % nm, lambda v, s, c=c: all_k(0, ts.nt, lambda x: IMP(ne(x, c), eq(self.numof(s, g, x), self.numof(en, g, x))))),
                      ('other offsets not touched (%s)' % nm, lambda v, s, c=c: all_k(0, ts.nf, lambda f: IMP(OR(lt(f, 1), ne(ow(f), c)), eq(self.offof(s, g, f), self.offof(en, g, f)))))]
        return L


class Mapping(LC):
    """computeTypeFeatureOffsetMapping: the table from a type and an offset to the feature"""
    dem = T + 'computeTypeFeatureOffsetMapping()'
    cost = 5
    budget = 400

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        self.defs(ex, st, g)
        self.lemmas_(ex, st, g)
        m0 = u('rows', 0)
        st.assume(le(m0, g.ts.nt))
        self.outer(ex, st, g.ts.b, g.ts.o('iv_vecTypeFeatureOffsetMapping'), g.mrows, mulc(m0, ROWU))
        for lb, f in self.pre(ex, st, g):
            st.assume(f)
        return [this]

    def lemmas_(self, ex, st, g):
        ts = g.ts
        V04.laws(ex, st, ts)
        a, b, x, f, h, k = [bound(n) for n in 'abxfhk']
        q = var(freshname('x'), 1)
        P = lambda x: FORALL(a, IMP(AND(le(1, a), ts.anc(a, x)), le(g.total(a), g.total(x))), [ts.anc(a, x)])
        st.assume(FORALL(a, ts.unfold(a, q), [ts.anc(a, q)]))
        st.assume(ts.w3(q))
        st.assume(self.totdef(g, q))
        ex.oblige(st, 'lemma (induction): an ancestor has no more features', IMP(AND(lt(q, ts.nt), all_k(1, q, P)), P(q)), 'post')
        st.assume(FORALL([a, x], IMP(AND(le(1, a), self.ist(g, x), ts.anc(a, x)), le(g.total(a), g.total(x))), [ts.anc(a, x)]))
        # introduced features: 1 <= offset <= number of features of the introducing type
        O = lambda f: IMP(self.isf(g, f), AND(self.ist(g, ts.fowner(f)), le(2, ts.fowner(f)), le(1, self.off0(g, f)), le(self.off0(g, f), g.total(ts.fowner(f)))))
        y = u('feature')
        st.assume(self.feati(ts, y))
        st.assume(self.totdef(g, ts.fowner(y)))
        st.assume(ts.w3(ts.fowner(y)))
        ex.oblige(st, 'lemma: an offset is at most the number of features', O(y), 'post')
        st.assume(FORALL(f, O(f), [ts.fowner(f)]))
        # two features of one type have different offsets
        y, z, w = u('feature1'), u('feature2'), u('type1')
        for r in (y, z):
            st.assume(self.feati(ts, r))
            st.assume(self.totdef(g, ts.fowner(r)))
            st.assume(ts.w3(ts.fowner(r)))
        for c, d in ((y, z), (z, y)):
            st.assume(ts.unfold(ts.fowner(c), ts.fowner(d)))
        D = lambda y, z, w: IMP(AND(self.isf(g, y), self.isf(g, z), self.ist(g, w), ts.anc(ts.fowner(y), w), ts.anc(ts.fowner(z), w), eq(self.off0(g, y), self.off0(g, z))), eq(y, z))
        ex.oblige(st, 'lemma: features of one type have different offsets', D(y, z, w), 'post')
        st.assume(FORALL([f, h, x], D(f, h, x), [(ts.anc(ts.fowner(f), x), ts.anc(ts.fowner(h), x))]))
        # every offset is used: fat(t, k) is the feature at offset k
        fat = g.fat = lambda t, k: uf('featat', t, k, lo=0)
        W = lambda x, k: IMP(AND(le(1, k), le(k, g.total(x))), AND(self.isf(g, fat(x, k)), ts.anc(ts.fowner(fat(x, k)), x), eq(self.off0(g, fat(x, k)), k)))
        q, kk = var(freshname('x'), 1), u('offset')
        n0 = g.total(ts.par(q))
        st.assume(eq(fat(q, kk), ite(lt(n0, kk), ts.intro(q, add(sub(kk, n0), -1)), fat(ts.par(q), kk))))
        for e in (q,):
            st.assume(ts.w3(e))
            st.assume(self.totdef(g, e))
            st.assume(FORALL(a, ts.unfold(a, e), [ts.anc(a, e)]))
        st.assume(self.rowi(ts, q, add(sub(kk, n0), -1)))
        ex.oblige(st, 'lemma (induction): every offset up to the number of features is used', IMP(AND(lt(q, ts.nt), all_k(1, q, lambda x: W(x, kk))), W(q, kk)), 'post')
        st.assume(FORALL([x, k], IMP(self.ist(g, x), W(x, k)), [fat(x, k)]))

    def pre(self, ex, st, g):
        ts = g.ts
        x, j = bound('x'), bound('j')
        return [('one offset for each feature', eq(g.V['off'].size(ex, st), ts.nf)),
                ('every type has a row with one bit for each feature', AND(eq(rows(ex, st, g, 'iv_vecApprop', ROWB), ts.nt), all_k(1, ts.nt, lambda t: eq(cell(st, g.an, t, 64), ts.nf)))),
                ('the features of every type are known', FORALL([x, j], IMP(AND(self.ist(g, x), self.isf(g, j)), IFF(self.bit(st, g, x, j), self.A(g, x, j))), [pair(x, j)])),
                ('every feature has its offset', all_k(1, ts.nf, lambda f: eq(self.offof(st, g, f), self.off0(g, f)))),
                ('the table is empty', all_k(1, ts.nt, lambda t: eq(cell(st, g.mn, t, 64), 0)))]

    def full(self, st, g, t, f):
        """feature f of type t is in the table at its offset"""
        return IMP(self.A(g, t, f), AND(lt(self.off0(g, f), cell(st, g.mn, t, 64)), eq(cell(st, g.map, pair(t, self.off0(g, f)), 32), f)))

    def sound(self, st, g, t, k):
        """an entry of the table is a feature of the type with that offset, or none"""
        f = cell(st, g.map, pair(t, k), 32)
        return IMP(AND(le(0, k), lt(k, cell(st, g.mn, t, 64)), ne(f, 0)), AND(self.isf(g, f), self.A(g, t, f), eq(self.off0(g, f), k)))

    def allfull(self, st, g, lo, hi):
        t, f = bound('t'), bound('f')
        return FORALL([t, f], IMP(AND(le(lo, t), lt(t, hi), self.isf(g, f)), self.full(st, g, t, f)), [self.A(g, t, f)])

    def allsound(self, st, g, lo, hi):
        t, k = bound('t'), bound('k')
        return FORALL([t, k], IMP(AND(le(lo, t), lt(t, hi)), self.sound(st, g, t, k)), [pair(t, k)])

    def rel(self, ex, g, s0, s1):
        ts = g.ts
        return [('one row for each type', eq(rows(ex, s1, g, 'iv_vecTypeFeatureOffsetMapping', ROWU), ts.nt)),
                ('every feature of a type is found at its offset', self.allfull(s1, g, 1, ts.nt)),
                ('nothing else is found', self.allsound(s1, g, 1, ts.nt))]

    def post(self, ex, g, st0, st1, ret):
        return self.rel(ex, g, st0, st1)

    def modifies(self, ex, g, st0):
        o = g.ts.o('iv_vecTypeFeatureOffsetMapping') // 8
        return {g.map: None, g.mn: None, g.ts.b: [('ptr', o, o + 3)]}

    def call(self, ex, st, args):
        g = ex.g
        for lb, f in self.pre(ex, st, g):
            ex.oblige(st, 'requires of computeTypeFeatureOffsetMapping: ' + lb, f, 'pre')
        s0 = st.snap()
        ex.setarr(st, g.map, 32, a_havoc(st.mem[g.map].arr(32), freshname('table')))
        ex.setarr(st, g.mn, 64, a_havoc(st.mem[g.mn].arr(64), freshname('table sizes')))
        self.outer(ex, st, g.ts.b, g.ts.o('iv_vecTypeFeatureOffsetMapping'), g.mrows, mulc(g.ts.nt, ROWU))
        for lb, f in self.rel(ex, g, s0, st):
            st.assume(f)
        return [('ret', st, None)]

    def inv(self, ex, lc):
        g = ex.g
        ts, en = g.ts, lc.entry
        if lc.fn.dem != self.dem:
            return []
        L = []
        for k, (nm, w) in lc.ints.items():
            L += [('rows before %s complete' % nm, lambda v, s, k=k: self.allfull(s, g, 1, v[k])), ('rows before %s sound' % nm, lambda v, s, k=k: self.allsound(s, g, 1, v[k])),
                  ('rows from %s on empty' % nm, lambda v, s, k=k: all_k(v[k], ts.nt, lambda t: eq(cell(s, g.mn, t, 64), 0)))]
            for c in [x for x in V04.envints(lc)[:6]] + [1]:
                L += [('row complete up to %s' % nm, lambda v, s, k=k, c=c: all_k(1, v[k], lambda f: self.full(s, g, c, f))),
                      ('row sound', lambda v, s, k=k, c=c: (lambda j: FORALL(j, self.sound(s, g, c, j), [pair(c, j)]))(bound('j'))),
                      ('other rows kept', lambda v, s, k=k, c=c: (lambda t, j: FORALL([t, j], IMP(AND(self.ist(g, t), ne(t, c)), eq(cell(s, g.map, pair(t, j), 32), cell(en, g.map, pair(t, j), 32))), [pair(t, j)]))(bound('t'), bound('j'))),
                      ('other row sizes kept', lambda v, s, k=k, c=c: all_k(1, ts.nt, lambda t: IMP(ne(t, c), eq(cell(s, g.mn, t, 64), cell(en, g.mn, t, 64)))))]
        return L


def outer_resize(ex, st, a, i, d):
    """vector<vector<unsigned int>>::resize: the new rows are empty (assumed contract)"""
    g = ex.g
    o = g.ts.o('iv_vecTypeFeatureOffsetMapping')
    if not (isinstance(a[0].b, int) and a[0].b == g.ts.b and a[0].o == o):
        return INLINE
    n = a[1]
    n0 = rows(ex, st, g, 'iv_vecTypeFeatureOffsetMapping', ROWU)
    ex.oblige(st, 'requires of vector::resize: not smaller than before, one row for each type', AND(le(n0, n), eq(n, g.ts.nt)), 'pre')
    m0 = st.mem[g.mn].arr(64)
    ex.setarr(st, g.mn, 64, a_fill(m0, n0, n, 0))
    for dlt in (8, 16):
        fput(ex, st, g.ts.b, o + dlt, 'ptr', Ptr(g.mrows, mulc(n, ROWU)))
    return None


STUBS = [(re.compile(re.escape(vecof(VU)) + r'::resize\(unsigned long\)'), outer_resize)] + STUBS


class ResizeFill(Contract):
    """resize(n, value) to a size not smaller than the present one: elements kept, new ones are copies of the value (assumed library contract)"""
    dem = VU + '::resize(unsigned long, unsigned int const&)'

    def call(self, ex, st, args):
        this, n, xp = args
        g = ex.g
        if is_row(ex, this, getattr(g, 'mrows', None)):
            return [('ret', st, vu_resize(ex, st, args, None, None))]
        rs = ex.resolve(st, this)
        if len(rs) != 1:
            raise Undecided('vector not identified')
        v = VecV(rs[0][1], this.o, 4, name='vec')
        x = ex.load(st, xp, 'i32')
        for lb, f in v.wf(ex, st):
            ex.oblige(st, 'requires of resize: ' + lb, f, 'pre')
        n0 = v.size(ex, st)
        ex.oblige(st, 'requires of resize: not smaller than before, representable', AND(le(n0, n), lt(n, 2 * LIM)), 'pre')
        old = v.ptrs(ex, st)[0]
        src = st.mem[old.b].arr(32)
        nb = v.move(ex, st, n)
        ex.setarr(st, nb, 32, a_fill(a_copy(a_base(freshname('rs'), 32), 0, n0, src, div(old.o, 4)), n0, n, x))
        return [('ret', st, None)]


def apps(ex, st, a):
    g = ex.g
    return isinstance(a[0].b, int) and a[0].b == g.ts.b and a[0].o == g.ts.o('iv_vecApprop')


def app_clear(ex, st, a, i, d):
    g = ex.g
    if not apps(ex, st, a):
        return INLINE
    fput(ex, st, g.ts.b, add(g.ts.o('iv_vecApprop'), 8), 'ptr', Ptr(g.arows, 0))
    return None


def app_resize(ex, st, a, i, d):
    g = ex.g
    if not apps(ex, st, a):
        return INLINE
    n0, n = rows(ex, st, g, 'iv_vecApprop', ROWB), a[1]
    ex.oblige(st, 'requires of vector::resize: not smaller than before, one row for each type', AND(le(n0, n), eq(n, g.ts.nt)), 'pre')
    ex.setarr(st, g.an, 64, a_fill(st.mem[g.an].arr(64), n0, n, 0))
    for dlt in (8, 16):
        fput(ex, st, g.ts.b, add(g.ts.o('iv_vecApprop'), dlt), 'ptr', Ptr(g.arows, mulc(n, ROWB)))
    return None


def app_size(ex, st, a, i, d):
    return rows(ex, st, ex.g, 'iv_vecApprop', ROWB) if apps(ex, st, a) else INLINE


def vb_resize(ex, st, a, i, d):
    """vector<bool>::resize(n, value)"""
    g = ex.g
    if not is_row(ex, a[0], g.arows):
        return INLINE
    t, n = rowof(a[0], ROWB), a[1]
    x = tobit(a[2])
    old = cell(st, g.an, t, 64)
    ex.oblige(st, 'requires of vector<bool>::resize: an existing row, not smaller than before', AND(lt(t, rows(ex, st, g, 'iv_vecApprop', ROWB)), le(old, n)), 'pre')
    m0 = st.mem[g.bits].arr(8)
    ex.setarr(st, g.bits, 8, a_havoc(m0, freshname('resized')))
    m1 = st.mem[g.bits].arr(8)
    q, k = bound('q'), bound('k')
    st.assume(FORALL([q, k], eq(a_read(m1, pair(q, k)), ite(AND(eq(q, t), le(old, k), lt(k, n)), x, a_read(m0, pair(q, k)))), [pair(q, k)]))
    ex.setarr(st, g.an, 64, a_store(st.mem[g.an].arr(64), t, n))
    return None


class Commit(Mapping):
    """commit: the layout of every type"""
    dem = T + 'commit()'

    def has_call(self):
        return False

    def setup(self, ex, st, g):
        args = Mapping.setup(self, ex, st, g)
        a = u('old rows', 0)
        st.assume(le(a, g.ts.nt))
        self.outer(ex, st, g.ts.b, g.ts.o('iv_vecApprop'), g.arows, mulc(a, ROWB))
        fput(ex, st, g.ts.b, g.ts.o('iv_bIsCommitted'), 'i8', 0)
        return args

    def pre(self, ex, st, g):
        return Mapping.pre(self, ex, st, g)[-1:]      # the table of offsets is empty before the first commit

    def layout(self, ex, st1, g):
        ts = g.ts
        x, j, f, h, k = [bound(n) for n in 'xjfhk']
        N, O = (lambda t: self.numof(st1, g, t)), (lambda f: self.offof(st1, g, f))
        has = lambda t, f: self.bit(st1, g, t, f)
        mp = lambda t, k: cell(st1, g.map, pair(t, k), 32)
        return [('a number of features for each type, an offset for each feature', AND(eq(g.V['num'].size(ex, st1), ts.nt), eq(g.V['off'].size(ex, st1), ts.nf))),
                ('a type has exactly the features that it or one of its ancestors introduces', FORALL([x, j], IMP(AND(self.ist(g, x), self.isf(g, j)), IFF(has(x, j), self.A(g, x, j))), [pair(x, j)])),
                ('the number of features of a type is that of its parent plus the introduced ones', AND(eq(N(1), 0), all_k(2, ts.nt, lambda t: eq(N(t), add(N(ts.par(t)), ts.nintro(t)))))),
                ('the offsets of the features of a type lie between 1 and their number', FORALL([x, j], IMP(AND(self.ist(g, x), self.isf(g, j), has(x, j)), AND(le(1, O(j)), le(O(j), N(x)))), [pair(x, j)])),
                ('two features of one type have different offsets', FORALL([x, f, h], IMP(AND(self.ist(g, x), self.isf(g, f), self.isf(g, h), has(x, f), has(x, h), eq(O(f), O(h))), eq(f, h)), [(pair(x, f), pair(x, h))])),
                ('the feature at the offset of a feature is that feature', FORALL([x, j], IMP(AND(self.ist(g, x), self.isf(g, j), has(x, j)), eq(mp(x, O(j)), j)), [pair(x, j)])),
                ('there is a feature at every offset up to their number', FORALL([x, k], IMP(AND(self.ist(g, x), le(1, k), le(k, N(x))), AND(self.isf(g, mp(x, k)), has(x, mp(x, k)), eq(O(mp(x, k)), k))), [pair(x, k)]))]

    def post(self, ex, g, st0, st1, ret):
        x, k = bound('x'), bound('k')
        mp = cell(st1, g.map, pair(x, k), 32)
        ex.oblige(st1, 'lemma: the feature that is due at an offset is there', FORALL([x, k], IMP(AND(self.ist(g, x), le(1, k), le(k, g.total(x))), eq(mp, g.fat(x, k))), [pair(x, k)]), 'post')
        return [('the type system is committed', ne(fget(ex, st1, g.ts.b, g.ts.o('iv_bIsCommitted'), 'i8'), 0))] + self.layout(ex, st1, g)

    def modifies(self, ex, g, st0):
        m = {g.map: None, g.mn: None, g.bits: None, g.an: None, g.ts.fnum: None, g.ts.foff: None, g.ts.b: [(8, g.ts.o('iv_bIsCommitted'), g.ts.o('iv_bIsCommitted') + 1)]}
        for f in ('iv_vecTypeFeatureOffsetMapping', 'iv_vecApprop', 'iv_vecFeatureNumber', 'iv_vecFeatureOffset'):
            o = g.ts.o(f) // 8
            m[g.ts.b].append(('ptr', o, o + 3))
        return m

    def frees(self, ex, g, st0):
        return [g.ts.fnum, g.ts.foff]

    def inv(self, ex, lc):
        g = ex.g
        ts = g.ts
        L = []
        for k, (nm, w) in lc.ints.items():
            L += [('rows before %s sized' % nm, lambda v, s, k=k: all_k(0, v[k], lambda t: eq(cell(s, g.an, t, 64), ts.nf))),
                  ('rows from %s on empty' % nm, lambda v, s, k=k: all_k(v[k], ts.nt, lambda t: eq(cell(s, g.an, t, 64), 0))),
                  ('rows before %s clear' % nm, lambda v, s, k=k: (lambda t, j: FORALL([t, j], IMP(AND(le(0, t), lt(t, v[k]), le(0, j), lt(j, ts.nf)), eq(cell(s, g.bits, pair(t, j), 8), 0)), [pair(t, j)]))(bound('t'), bound('j')))]
        return L


B2 = re.escape(vecof(VB1)) + '::'
STUBS = [(re.compile(B2 + r'clear\(\)'), app_clear), (re.compile(B2 + r'resize\(unsigned long\)'), app_resize), (re.compile(B2 + r'size\(\) const'), app_size),
         (re.compile(B_ + r'resize\(unsigned long, bool\)'), vb_resize),
         (re.compile(r'uima::lowlevel::TypeSystem::computeTypePriorityClosure\('), lambda ex, st, a, i, d: None)] + STUBS


class Committed(LC):
    """reading the committed layout"""

    def __init__(self, m, doc, post):
        self.dem, self.__doc__, self.p = T + m, doc, post

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        ts = g.ts
        st.assume(all_k(1, ts.nt, lambda t: eq(cell(st, g.an, t, 64), ts.nf)))
        g.t, g.f, g.k = u('type', 1), u('feature', 1), u('offset', 1)
        st.assume(AND(self.ist(g, g.t), self.isf(g, g.f), lt(g.k, cell(st, g.mn, g.t, 64))))
        n = self.dem.split('(')[1]
        A = {'isAppropriateFeature': [g.t, g.f], 'getFeatureOffset': [g.f], 'getFeatureNumber': [g.t], 'getFeatureFromOffset': [g.t, g.k]}
        return [this] + A[self.dem[len(T):].split('(')[0]]

    def post(self, ex, g, st0, st1, ret):
        return [(self.__doc__, self.p(self, g, st1, ret))]


class Appropriate(LC):
    """getAppropriateFeatures: exactly the features of the type, each once, in increasing order"""
    dem = T + 'getAppropriateFeatures(unsigned int, %s&) const' % VU

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        ts = g.ts
        st.assume(all_k(1, ts.nt, lambda t: eq(cell(st, g.an, t, 64), ts.nf)))
        g.t = u('type', 1)
        st.assume(self.ist(g, g.t))
        g.vb = ex.newblk(st, 'heap', 'result', 24)
        g.v = VecV(g.vb, 0, 4, name='result').setup(ex, st)
        # rank(f): number of features of the type below f (definition)
        g.rank = lambda f: uf('rank', f, lo=0, hi=LIM)
        st.assume(eq(g.rank(1), 0))
        f = bound('f')
        b = self.bit(st, g, g.t, f)
        st.assume(FORALL(f, IMP(self.isf(g, f), eq(g.rank(add(f, 1)), ite(b, add(g.rank(f), 1), g.rank(f)))), [pair(g.t, f)]))
        return [this, g.t, Ptr(g.vb, 0)]

    def clauses(self, ex, g, s, hi):
        v, ts = g.v, g.ts
        n = v.size(ex, s)
        at = lambda k: v.at(ex, s, k)
        f = bound('f')
        return [('every entry is a feature of the type', all_k(0, n, lambda k: AND(le(1, at(k)), lt(at(k), hi), self.bit(s, g, g.t, at(k))))),
                ('every feature of the type has a place', FORALL(f, IMP(AND(le(1, f), lt(f, hi), self.bit(s, g, g.t, f)), lt(g.rank(f), n)), [pair(g.t, f)])),
                ('every feature of the type is an entry', FORALL(f, IMP(AND(le(1, f), lt(f, hi), self.bit(s, g, g.t, f)), eq(at(g.rank(f)), f)), [pair(g.t, f)])),
                ('no feature twice', all_k(0, n, lambda k: eq(g.rank(at(k)), k)))]

    def post(self, ex, g, st0, st1, ret):
        return self.clauses(ex, g, st1, g.ts.nf) + g.v.wf(ex, st1)

    def modifies(self, ex, g, st0):
        return g.v.mod()

    def frees(self, ex, g, st0):
        return [g.v.buf0]

    def inv(self, ex, lc):
        g = ex.g
        v = g.v
        L = [(lb, (lambda v_, s, i=i: v.wf(ex, s)[i][1])) for i, (lb, f) in enumerate(v.wf(ex, lc.entry))]
        for key, (nm, w) in lc.ints.items():
            L += [('features before %s: %s' % (nm, lb), lambda v_, s, key=key, i=i: self.clauses(ex, g, s, v_[key])[i][1]) for i, lb in enumerate('abcd')]
            L += [('as many entries as features before %s' % nm, lambda v_, s, key=key: eq(v.size(ex, s), g.rank(v_[key])))]
        return L


ASSUMED = [ResizeFill()]
CONTRACTS = [Approp(), Mapping(), Commit(), Appropriate(),
             Committed('isAppropriateFeature(unsigned int, unsigned int) const', 'true exactly for a feature of the type', lambda c, g, s, r: IFF(r, c.bit(s, g, g.t, g.f))),
             Committed('getFeatureOffset(unsigned int) const', 'the offset of the feature', lambda c, g, s, r: eq(r, c.offof(s, g, g.f))),
             Committed('getFeatureNumber(unsigned int) const', 'the number of features of the type', lambda c, g, s, r: eq(r, c.numof(s, g, g.t))),
             Committed('getFeatureFromOffset(unsigned int, unsigned int) const', 'the feature at that offset', lambda c, g, s, r: eq(r, cell(s, g.map, pair(g.t, g.k), 32)))] + pushes('unsigned int', 4)
ASSUMPTIONS = ['std::vector<std::vector<unsigned int>>, std::vector<std::vector<bool>>, std::vector<bool>, std::vector::resize(n, value): library contracts, assumed; rows are read through a table view (row, column)',
               'the type system is committed once (the offset table is empty before commit)', 'top introduces no features (proved in V15: types and features can only be added by createType and createFeature)',
               'fewer than 2^27 features on any path of the hierarchy (the count does not wrap)', 'computeTypePriorityClosure does not write the feature tables (not verified)']
