"""V06: string references behave like the sequence of UTF-16 units they refer to."""
import re
from spec import *
from ustr import UST, EMPTY

LEVEL = 'proof'
TUS = ['framework/unistrref.cpp']
REPLAY = 'V06.cpp'
NS = 'uima::UnicodeStringRef'
MAX = (1 << 31) - 1


def sg(v, w=32):
    return ite(ge(v, 1 << (w - 1)), add(v, -(1 << w)), v)


def imin(a, b):
    return ite(le(a, b), a, b)


class View:
    """a reference: units [o, o+n) of the text memory, or null with n = 0"""

    def __init__(self, ex, st, g, name):
        self.o, self.n, self.null = u(name + '.pos', 0, LIM * 4), u(name + '.length', 0, MAX), bvar(name + '.null')
        st.assume(IMP(self.null, AND(eq(self.n, 0), eq(self.o, 0))))
        self.g = g

    def ptr(self):
        return Ptr(ite(self.null, 0, self.g.M), mulc(self.o, 2))

    def obj(self, ex, st, name):
        P = ex.P
        self.b = ex.newblk(st, 'heap', name, 16)
        fput(ex, st, self.b, P.off(NS, 'iv_pUChars'), 'ptr', self.ptr())
        fput(ex, st, self.b, P.off(NS, 'iv_uiLength'), 'i32', self.n)
        return Ptr(self.b, 0)


class SR(Contract):
    """contracts over references; both references are into one text memory, disjoint or not.
    D(o,l,p,m): ghost position of the first difference of the units [o,o+l) and [p,p+m), at most the shorter length"""

    def base(self, ex, st, g):
        g.ex = ex
        ex.g = g
        g.M = ex.newblk(st, 'heap', 'referenced text', None)
        g.A, g.B = View(ex, st, g, 'this'), View(ex, st, g, 'text')
        st.mem[g.M].allow = lambda off, n: OR(*[AND(le(mulc(v.o, 2), off), le(add(off, n), mulc(add(v.o, v.n), 2))) for v in (g.A, g.B)])

    def ch(self, st, g, k):
        return cell(st, g.M, k, 16)

    def D(self, o, l, p, m):
        return uf('firstdiff', o, l, p, m, lo=0, hi=MAX)

    def ddef(self, st, g, o, l, p, m):
        d = self.D(o, l, p, m)
        mn = imin(l, m)
        st.assume(le(d, mn))
        st.assume(IMP(lt(d, mn), ne(self.ch(st, g, add(o, d)), self.ch(st, g, add(p, d)))))
        st.assume(all_k(o, add(o, d), lambda k: eq(self.ch(st, g, k), self.ch(st, g, add(k, sub(p, o))))))

    def less(self, st, g, o, l, p, m):
        d = self.D(o, l, p, m)
        return ite_b(lt(d, imin(l, m)), lt(self.ch(st, g, add(o, d)), self.ch(st, g, add(p, d))), lt(l, m))

    def same(self, o, l, p, m):
        return AND(eq(l, m), ge(self.D(o, l, p, m), l))

    def cpless(self, st, g, o, l, p, m):
        """code point order of texts that differ (ICU, uninterpreted beyond the empty text)"""
        return ite_b(eq(l, 0), True, ite_b(eq(m, 0), False, pred('cpless', o, l, p, m)))

    def three(self, st, g, o, l, p, m, w=8, kind='cmp'):
        """-1, 0, 1 in w bits"""
        less = self.less(st, g, o, l, p, m) if kind == 'cmp' else self.cpless(st, g, o, l, p, m)
        return ite(self.same(o, l, p, m), 0, ite(less, (1 << w) - 1, 1))

    def pin(self, g, s, l, v=None):
        n = (v or g.A).n
        s = sg(s)
        s1 = ite(lt(s, 0), 0, imin(s, n))
        l = sg(l)
        return s1, ite(lt(l, 0), 0, imin(l, sub(n, s1)))


def viewof(ex, st, g, p):
    """(position, length) of the reference object at p"""
    rs = ex.resolve(st, p)
    if len(rs) != 1:
        raise Undecided('string reference at an unknown place')
    b = rs[0][1]
    q = fget(ex, st, b, p.o, 'ptr')
    return q, fget(ex, st, b, add(p.o, ex.P.off(NS, 'iv_uiLength')), 'i32')


def inmem(g, q, off, l):
    """units [off, off+l) after q lie within one of the references (nothing to read when l is 0)"""
    o = add(div(q.o, 2), off)
    return OR(eq(l, 0), AND(eq(q.b, g.M), eq(mod(q.o, 2), 0), le(0, l), OR(*[AND(le(v.o, o), le(add(o, l), add(v.o, v.n))) for v in (g.A, g.B)])))


class Op(SR):
    """one overload: params lists the roles of its parameters"""
    post_ = None

    def __init__(self, dem, kind, params, doc=None):
        self.dem = NS + '::' + dem + ' const'
        self.kind, self.params = kind, params

    def setup(self, ex, st, g):
        self.base(ex, st, g)
        A, B = g.A, g.B
        args = [A.obj(ex, st, 'this')]
        g.s, g.l, g.ss, g.sl = 0, A.n, 0, B.n
        P = {}
        for r in self.params:
            if r == 'T':
                args.append(B.obj(ex, st, 'text'))
            elif r == 'U':
                args.append(ustring(ex, st, g, B))
            elif r == 'p':
                args.append(B.ptr())
            elif r == 'c':
                g.c = u('unit', 0, 65535)
                args.append(g.c)
            elif r == 'x':
                g.x = u('codepoint', 0, 0x10ffff)
                args.append(g.x)
            elif r == 'opt':
                g.opt = u('options')
                args.append(g.opt)
            else:
                v = u(r)
                P[r] = v
                args.append(v)
        g.P = P
        # the range of this
        if 'start' in P:
            g.s = P['start']
            if 'length' in P:
                g.l = P['length']
            elif 'limit' in P:
                st.assume(AND(le(g.s, MAX), le(P['limit'], MAX)))
                g.l = wrap(sub(P['limit'], g.s), 32)
            else:
                st.assume(le(g.s, MAX))
                g.l = wrap(sub(A.n, g.s), 32)
        g.s1, g.l1 = self.pin(g, g.s, g.l)
        # the range of the source
        if 'ss' in P:
            g.ss = P['ss']
            st.assume(le(g.ss, B.n))
        if 'slim' in P:
            st.assume(AND(le(g.ss, P['slim']), le(P['slim'], B.n)))
            g.sl = sub(P['slim'], g.ss)
        elif 'sl' in P:
            g.sl = P['sl']
        elif 'samelen' in getattr(self, 'flags', ()):
            g.sl = P['length']
        st.assume(AND(le(0, g.sl), le(add(g.ss, g.sl), B.n)))
        if self.kind in ('starts', 'ends'):
            g.s1, g.l1 = (0, g.sl) if self.kind == 'starts' else (sub(A.n, g.sl), g.sl)
        g.o, g.p = add(A.o, g.s1), add(B.o, g.ss)
        self.ghosts(ex, st, g)
        return args

    def ghosts(self, ex, st, g):
        if self.kind in ('cmp', 'cpcmp', 'starts', 'ends', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'case'):
            self.ddef(st, g, g.o, g.l1, g.p, g.sl)
        if self.kind in ('index', 'last') and not ('c' in self.params or 'x' in self.params):
            self.searchghosts(ex, st, g)

    def searchghosts(self, ex, st, g):
        """differences of the source with the text at every position, and how they shrink by the first unit"""
        q, k = bound('q'), bound('k')
        L, p = g.sl, g.p
        for dl in (0, 1):
            d = self.D(q, sub(L, dl), add(p, dl), sub(L, dl))
            st.assume(FORALL(q, IMP(le(dl, L), AND(le(d, sub(L, dl)), IMP(lt(d, sub(L, dl)), ne(self.ch(st, g, add(q, d)), self.ch(st, g, add(add(p, dl), d)))))), [d]))
            st.assume(FORALL([q, k], IMP(AND(le(q, k), lt(k, add(q, d))), eq(self.ch(st, g, k), self.ch(st, g, add(k, sub(add(p, dl), q))))), [(d, self.ch(st, g, k))]))
        x = u('position', 0, None)
        d0, d1 = self.D(x, L, p, L), self.D(add(x, 1), sub(L, 1), add(p, 1), sub(L, 1))
        f = lambda x, d0, d1: IMP(le(1, L), eq(d0, ite(ne(self.ch(st, g, x), self.ch(st, g, p)), 0, add(d1, 1))))
        for d, o, b, m in ((d0, x, p, L), (d1, add(x, 1), add(p, 1), sub(L, 1))):
            self_ = IMP(le(1, L), AND(le(d, m), IMP(lt(d, m), ne(self.ch(st, g, add(o, d)), self.ch(st, g, add(b, d)))), all_k(o, add(o, d), lambda k: eq(self.ch(st, g, k), self.ch(st, g, add(k, sub(b, o)))))))
            st.assume(self_)
        ex.oblige(st, 'lemma: the first difference lies in the first unit, or in the rest', f(x, d0, d1), 'post')
        q = bound('q')
        d0, d1 = self.D(q, L, p, L), self.D(add(q, 1), sub(L, 1), add(p, 1), sub(L, 1))
        st.assume(FORALL(q, f(q, d0, d1), [d0]))
        st.assume(FORALL(q, f(add(q, -1), self.D(add(q, -1), L, p, L), self.D(q, sub(L, 1), add(p, 1), sub(L, 1))), [self.D(q, sub(L, 1), add(p, 1), sub(L, 1))]))

    def match(self, st, g):
        """(does what is searched for occur at unit q of the text memory, its length)"""
        if 'c' in self.params:
            return (lambda q: eq(self.ch(st, g, q), g.c)), 1
        if 'x' in self.params:
            hi, lo = add(div(g.x, 1024), 0xd7c0), add(mod(g.x, 1024), 0xdc00)
            return (lambda q: ite_b(le(g.x, 0xffff), eq(self.ch(st, g, q), g.x), AND(eq(self.ch(st, g, q), hi), eq(self.ch(st, g, add(q, 1)), lo)))), ite(le(g.x, 0xffff), 1, 2)
        return (lambda q: AND(ge(self.D(q, g.sl, g.p, g.sl), g.sl), lt(0, g.sl))), g.sl

    def post(self, ex, g, st0, st1, ret):
        k = self.kind
        if k in ('cmp', 'cpcmp'):
            return [('0 for equal units, else -1 or 1 by the first difference or the length', eq(ret, self.three(st0, g, g.o, g.l1, g.p, g.sl, 8, k)))]
        if k in ('eq', 'ne'):
            s = self.same(g.o, g.l1, g.p, g.sl)
            return [('equal exactly when the units are', eq(ret, ite(s, 1, 0) if k == 'eq' else ite(s, 0, 1)))]
        if k in ('lt', 'le', 'gt', 'ge'):
            t = self.three(st0, g, g.o, g.l1, g.p, g.sl)
            return [('agrees with the order of the units', IFF(ret, {'lt': eq(t, 255), 'le': ne(t, 1), 'gt': eq(t, 1), 'ge': ne(t, 255)}[k]))]
        if k in ('starts', 'ends'):
            return [('true exactly when the units are there', IFF(ret, AND(le(g.sl, g.A.n), ge(self.D(g.o, g.sl, g.p, g.sl), g.sl))))]
        if k in ('index', 'last'):
            m, L = self.match(st0, g)
            return found(g.A.o, g.o, add(add(g.o, g.l1), sub(1, L)), m, ret, k == 'last')
        if k == 'case':
            return [('the comparison of the two ranges', eq(ret, casecmp(g.o, g.l1, g.p, g.sl, g.opt)))]
        raise Undecided(k)

    # call mode of the functions the others are built on
    def call(self, ex, st, args):
        raise Undecided('no call mode')

    def has_call(self):
        return False

    def inv(self, ex, lc):
        g = ex.g
        L = []
        if self.kind == 'cmp':
            d = self.D(g.o, g.l1, g.p, g.sl)
            for key, nm in lc.ptrs.items():
                for o in (g.o, g.p):
                    L.append(('units before the cursor agree', lambda v, s, key=key, o=o: le(sub(div(v[key].o, 2), o), d)))
            for key, (nm, w) in lc.ints.items():
                L.append(('units before the index agree', lambda v, s, key=key: le(v[key], d)))
                L.append(('units are left', lambda v, s, key=key: lt(0, sg(v[key]))))
        if self.kind in ('index', 'last'):
            m, n = self.match(g.st0, g)
            end = add(add(g.o, g.l1), sub(1, n))
            cur = [(nm, lambda v, key=key: div(v[key].o, 2)) for key, nm in lc.ptrs.items()] + [(nm, lambda v, key=key: add(g.A.o, sg(v[key]))) for key, (nm, w) in lc.ints.items()]
            for nm, c in cur:
                L += [('no occurrence before ' + nm, lambda v, s, c=c: all_k(g.o, c(v), lambda q: NOT(m(q)))), ('no occurrence from %s on' % nm, lambda v, s, c=c: all_k(c(v), end, lambda q: NOT(m(q)))),
                      ('no occurrence after ' + nm, lambda v, s, c=c: all_k(add(c(v), 1), end, lambda q: NOT(m(q)))),
                      ('within the range: ' + nm, lambda v, s, c=c: AND(le(g.o, c(v)), lt(c(v), end))), ('within the range or at the end: ' + nm, lambda v, s, c=c: AND(lt(g.o, c(v)), le(c(v), end))),
                      ('within the range or before it: ' + nm, lambda v, s, c=c: AND(le(sub(g.o, 1), c(v)), lt(c(v), end)))]
        return L


def found(base, lo, hi, m, ret, last):
    """the result is the offset of the first (last) occurrence in [lo, hi), -1 exactly when there is none"""
    none = (1 << 32) - 1
    at = add(base, ret)
    return [('-1 only when it does not occur', IMP(eq(ret, none), all_k(lo, hi, lambda q: NOT(m(q))))),
            ('else the offset of an occurrence in the range', IMP(ne(ret, none), AND(le(lo, at), lt(at, hi), m(at)))),
            ('the last one' if last else 'the first one', IMP(ne(ret, none), all_k(add(at, 1), hi, lambda q: NOT(m(q))) if last else all_k(lo, at, lambda q: NOT(m(q)))))]


class Core(Op):
    """an overload that others call: its contract is used there"""

    def has_call(self):
        return True

    def own(self, ex, st, args):
        g = ex.g
        q, n = viewof(ex, st, g, args[0])
        ex.oblige(st, 'requires: this is a reference into the text', AND(eq(n, g.A.n), OR(eq(n, 0), AND(eq(q.b, g.M), eq(q.o, mulc(g.A.o, 2))))), 'pre')
        return g

    def src(self, ex, st, g, p, ss, sl):
        ex.oblige(st, 'requires: the source range can be read', AND(le(0, sg(sl)), OR(eq(p.b, 0), le(0, sg(ss))), IMP(eq(p.b, 0), eq(sl, 0)), inmem(g, p, ss, sl)), 'pre')
        return add(div(p.o, 2), ss)

    def call(self, ex, st, args):
        g = self.own(ex, st, args)
        k = self.kind
        if k in ('cmp', 'cpcmp'):
            _, s, l, p, ss, sl = args
            pp = self.src(ex, st, g, p, ss, sl)
            s1, l1 = self.pin(g, s, l)
            o = add(g.A.o, s1)
            self.ddef(st, g, o, l1, pp, sl)
            return [('ret', st, self.three(st, g, o, l1, pp, sl, 8, k))]
        ret = u(freshname('found'))
        if 'c' in self.params:
            _, c, s, l = args
            m, L = (lambda q: eq(self.ch(st, g, q), c)), 1
        else:
            _, p, ss, sl, s, l = args
            rs = ex.resolve(st, p)
            if len(rs) == 1 and rs[0][1] not in (g.M, 0):
                if not (isinstance(sl, int) and isinstance(ss, int) and isinstance(p.o, int) and 1 <= sl <= 2):
                    raise Undecided('search for a text outside the model')
                b = rs[0][1]
                ex.checkaccess(st, b, add(p.o, 2 * ss), 2 * sl, 'source')
                cs = [cell(st, b, p.o // 2 + ss + i, 16) for i in range(sl)]
                m, L = (lambda q: AND(*[eq(self.ch(st, g, add(q, i)), c) for i, c in enumerate(cs)])), sl
            else:
                pp = self.src(ex, st, g, p, ss, sl)
                m, L = (lambda q: AND(ge(self.D(q, sl, pp, sl), sl), lt(0, sl))), sl
        s1, l1 = self.pin(g, s, l)
        o = add(g.A.o, s1)
        for lb, f in found(g.A.o, o, add(add(o, l1), sub(1, L)), m, ret, k == 'last'):
            st.assume(f)
        return [('ret', st, ret)]


# ---------------------------------------------------------------- ICU
def ustring(ex, st, g, v):
    b = ex.newblk(st, 'heap', 'icu string', 64)
    g.ub = b
    return Ptr(b, 0)


def isub(ex, a):
    return hasattr(ex.g, 'ub') and isinstance(a.b, int) and a.b == ex.g.ub


def us_buffer(ex, st, a, i, d):
    if not isub(ex, a[0]):
        raise Undecided('unknown text object')
    return ex.g.B.ptr()


def us_length(ex, st, a, i, d):
    g = ex.g
    if isub(ex, a[0]):
        return g.B.n
    return uf('ust.len', cell(st, ex.resolve(st, a[0])[0][1], div(a[0].o, 64), UST), lo=0, hi=MAX)


def rng2(ex, st, what, *ranges):
    for p, l in ranges:
        ex.oblige(st, 'requires of %s: readable range' % what, inmem(ex.g, p, 0, l), 'pre')


def u_memcmp(ex, st, a, i, d):
    """u_memcmp: the order of the first n units"""
    g, c = ex.g, ex.curcontract
    n = ite(lt(sg(a[2]), 0), 0, a[2])
    rng2(ex, st, 'u_memcmp', (a[0], n), (a[1], n))
    o, p = div(a[0].o, 2), div(a[1].o, 2)
    c.ddef(st, g, o, n, p, n)
    return ite(eq(n, 0), 0, c.three(st, g, o, n, p, n, 32))


def u_strcompare(ex, st, a, i, d):
    """u_strCompare with lengths: three way comparison in code unit or code point order"""
    g, c = ex.g, ex.curcontract
    for l in (a[1], a[3]):
        ex.oblige(st, 'requires of u_strCompare: a length', le(0, sg(l)), 'pre')
    for p in (a[0], a[2]):
        ex.oblige(st, 'requires of u_strCompare: not null', ne(p.b, 0), 'pre')
    rng2(ex, st, 'u_strCompare', (a[0], a[1]), (a[2], a[3]))
    o, p = div(a[0].o, 2), div(a[2].o, 2)
    c.ddef(st, g, o, a[1], p, a[3])
    w = a[4]
    cp = w if isinstance(w, bool) or getattr(w, 'isb', False) else ne(mod(w, 256), 0)
    return ite(cp, c.three(st, g, o, a[1], p, a[3], 32, 'cpcmp'), c.three(st, g, o, a[1], p, a[3], 32))


def textof(o, l):
    """content of a text made from units [o, o+l) of the text memory"""
    return uf('textof', o, ite(eq(l, 0), 0, l), lo=0)


def casecmp(o, l, p, m, opt):
    return uf('casecmp', ite(eq(l, 0), 0, o), l, ite(eq(m, 0), 0, p), m, opt, lo=0, hi=255)


def us_make(ex, st, a, i, d):
    """UnicodeString(const char16_t *, int32_t): a copy of the units"""
    ex.oblige(st, 'requires of UnicodeString: a length', le(0, sg(a[2])), 'pre')
    rng2(ex, st, 'UnicodeString', (a[1], a[2]))
    b = ex.resolve(st, a[0])[0][1]
    ex.g.made = (b, div(a[1].o, 2), a[2])
    return None


def us_case(ex, st, a, i, d):
    g = ex.g
    if not hasattr(g, 'made') or a[0].b != g.made[0]:
        raise Undecided('unknown text object')
    if 'ConstChar16Ptr' in d:      # passed by reference to a pointer object
        a = [a[0], fget(ex, st, ex.resolve(st, a[1])[0][1], a[1].o, 'ptr')] + list(a[2:])
    ex.oblige(st, 'requires of caseCompare: a length', le(0, sg(a[2])), 'pre')
    rng2(ex, st, 'caseCompare', (a[1], a[2]))
    return casecmp(g.made[1], g.made[2], div(a[1].o, 2), a[2], a[3])


def us_replace(ex, st, a, i, d):
    """UnicodeString::replace(start, length, chars, srcStart, srcLength) over the whole string"""
    b = ex.resolve(st, a[0])[0][1]
    old = cell(st, b, div(a[0].o, 64), UST)
    ex.oblige(st, 'requires of replace: the whole string is replaced', AND(eq(a[1], 0), eq(a[2], uf('ust.len', old, lo=0, hi=MAX))), 'pre')
    ex.oblige(st, 'requires of replace: a source range that can be read', AND(le(0, sg(a[4])), le(0, sg(a[5])), inmem(ex.g, a[3], a[4], a[5])), 'pre')
    ex.setarr(st, b, UST, a_store(st.mem[b].arr(UST), div(a[0].o, 64), textof(add(div(a[3].o, 2), a[4]), a[5])))
    return a[0]


I = r'icu_\d+::UnicodeString'
STUBS = [(re.compile(I + r'::getBuffer\(\) const'), us_buffer), (re.compile(I + r'::length\(\) const'), us_length), (re.compile(I + r'::UnicodeString\(char16_t const\*, int\)'), us_make),
         (re.compile(I + r'::caseCompare\((icu_\d+::ConstChar16Ptr|char16_t const\*), int, unsigned int\) const'), us_case), (re.compile(I + r'::replace\(int, int, (icu_\d+::ConstChar16Ptr|char16_t const\*), int, int\)'), us_replace),
         (re.compile(r'icu_\d+::ConstChar16Ptr::~ConstChar16Ptr'), lambda ex, st, a, i, d: None), (re.compile(I + r'::~UnicodeString'), lambda ex, st, a, i, d: None), (re.compile(r'u_memcmp(_\d+)?$'), u_memcmp), (re.compile(r'u_strCompare(_\d+)?$'), u_strcompare)]

R, C = 'uima::UnicodeStringRef const&', 'char16_t const*'
CONTRACTS = [Core('doCompare(int, int, %s, int, int)' % C, 'cmp', ['start', 'length', 'p', 'ss', 'sl']),
             Core('doCompareCodePointOrder(int, int, %s, int, int)' % C, 'cpcmp', ['start', 'length', 'p', 'ss', 'sl']),
             Core('indexOf(%s, int, int, int, int)' % C, 'index', ['p', 'ss', 'sl', 'start', 'length']), Core('lastIndexOf(%s, int, int, int, int)' % C, 'last', ['p', 'ss', 'sl', 'start', 'length']),
             Core('doIndexOf(char16_t, int, int)', 'index', ['c', 'start', 'length']), Core('doLastIndexOf(char16_t, int, int)', 'last', ['c', 'start', 'length'])]
for nm, k in (('compare', 'cmp'), ('compareCodePointOrder', 'cpcmp')):
    CONTRACTS += [Op('%s(%s)' % (nm, R), k, ['T']), Op('%s(int, int, %s)' % (nm, R), k, ['start', 'length', 'T']), Op('%s(int, int, %s, int, int)' % (nm, R), k, ['start', 'length', 'T', 'ss', 'sl']),
                  Op('%s(%s, int)' % (nm, C), k, ['p', 'sl']), Op('%s(int, int, %s, int, int)' % (nm, C), k, ['start', 'length', 'p', 'ss', 'sl']),
                  Op('%sBetween(int, int, %s, int, int)' % (nm, R), k, ['start', 'limit', 'T', 'ss', 'slim'])]
    c = Op('%s(int, int, %s)' % (nm, C), k, ['start', 'length', 'p'])
    c.flags = ('samelen',)
    CONTRACTS.append(c)
CONTRACTS += [Op('compare(icu_74::UnicodeString const&)', 'cmp', ['U'])] + [Op('operator%s(%s)' % (o, R), k, ['T']) for o, k in (('==', 'eq'), ('!=', 'ne'), ('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge'))]
for nm, k in (('startsWith', 'starts'), ('endsWith', 'ends')):
    CONTRACTS += [Op('%s(%s)' % (nm, R), k, ['T']), Op('%s(%s, int, int)' % (nm, R), k, ['T', 'ss', 'sl']), Op('%s(%s, int)' % (nm, C), k, ['p', 'sl']), Op('%s(%s, int, int)' % (nm, C), k, ['p', 'ss', 'sl'])]
for nm, k in (('indexOf', 'index'), ('lastIndexOf', 'last')):
    CONTRACTS += [Op('%s(%s)' % (nm, R), k, ['T']), Op('%s(%s, int)' % (nm, R), k, ['T', 'start']), Op('%s(%s, int, int)' % (nm, R), k, ['T', 'start', 'length']),
                  Op('%s(%s, int, int, int, int)' % (nm, R), k, ['T', 'ss', 'sl', 'start', 'length']), Op('%s(%s, int, int)' % (nm, C), k, ['p', 'sl', 'start']),
                  Op('%s(%s, int, int, int)' % (nm, C), k, ['p', 'sl', 'start', 'length'])]
    for t, r in (('char16_t', 'c'), ('int', 'x')):
        CONTRACTS += [Op('%s(%s)' % (nm, t), k, [r]), Op('%s(%s, int)' % (nm, t), k, [r, 'start']), Op('%s(%s, int, int)' % (nm, t), k, [r, 'start', 'length'])]
for a, ps in (('%s, unsigned int' % R, ['T', 'opt']), ('int, int, %s, unsigned int' % R, ['start', 'length', 'T', 'opt']), ('int, int, %s, int, int, unsigned int' % R, ['start', 'length', 'T', 'ss', 'sl', 'opt']),
              ('%s, int, unsigned int' % C, ['p', 'sl', 'opt']), ('int, int, %s, int, int, unsigned int' % C, ['start', 'length', 'p', 'ss', 'sl', 'opt'])):
    CONTRACTS.append(Op('caseCompare(%s)' % a, 'case', ps))


class Acc(SR):
    """accessors: length, units and code points by offset"""

    def __init__(self, dem, kind, inside=False):
        self.dem = NS + '::' + dem + ' const'
        self.kind, self.inside = kind, inside

    def setup(self, ex, st, g):
        self.base(ex, st, g)
        args = [g.A.obj(ex, st, 'this')]
        if '(int)' in self.dem:
            g.i = u('offset')
            if self.inside:
                st.assume(lt(g.i, g.A.n))
            args.append(g.i)
        return args

    def post(self, ex, g, st0, st1, ret):
        k, A = self.kind, g.A
        if k in ('length', 'bytes'):
            return [('the number of units', eq(ret, A.n if k == 'length' else wrap(mulc(A.n, 2), 32)))]
        if k == 'empty':
            return [('true exactly for length 0', IFF(ret, eq(A.n, 0)))]
        if k == 'buffer':
            return [('where the text begins', AND(eq(ret.b, A.ptr().b), eq(ret.o, A.ptr().o)))]
        i = g.i
        ins = lt(i, A.n)
        c = lambda j: self.ch(st0, g, add(A.o, j))
        if k == 'unit':
            return [('the unit at the offset, 0xffff outside', eq(ret, ite(ins, c(i), 0xffff)))]
        lead = lambda x: AND(le(0xd800, x), lt(x, 0xdc00))
        trail = lambda x: AND(le(0xdc00, x), lt(x, 0xe000))
        tr = AND(trail(c(i)), lt(0, i), lead(c(add(i, -1))))
        ld = AND(lead(c(i)), lt(add(i, 1), A.n), trail(c(add(i, 1))))
        sup = lambda a, b: add(0x10000, add(mulc(sub(a, 0xd800), 1024), sub(b, 0xdc00)))
        if k == 'char32':
            return [('the code point that the unit belongs to, 0xffff outside', eq(ret, ite(ins, ite(tr, sup(c(add(i, -1)), c(i)), ite(ld, sup(c(i), c(add(i, 1))), c(i))), 0xffff)))]
        if k == 'start32':
            return [('the start of that code point', eq(ret, ite(ins, ite(tr, add(i, -1), i), 0)))]
        if k == 'limit32':
            return [('the offset, or after the pair it is inside', eq(ret, ite(ins, ite(tr, add(i, 1), i), A.n)))]


CONTRACTS += [Acc('length()', 'length'), Acc('getSizeInBytes()', 'bytes'), Acc('isEmpty()', 'empty'), Acc('getBuffer()', 'buffer'), Acc('charAt(int)', 'unit'), Acc('operator[](int)', 'unit', True),
              Acc('char32At(int)', 'char32'), Acc('getChar32Start(int)', 'start32'), Acc('getChar32Limit(int)', 'limit32')]


class Make(SR):
    """constructors and assignment: the reference is to exactly the given units"""

    def __init__(self, dem, kind):
        self.dem = NS + '::' + dem
        self.kind = kind

    def setup(self, ex, st, g):
        self.base(ex, st, g)
        k = self.kind
        if k in ('copy', 'set'):
            t = g.A.obj(ex, st, 'this')
        else:
            g.A.b = ex.newblk(st, 'heap', 'this', 16)
            t = Ptr(g.A.b, 0)
        a = {'copy': lambda: [g.B.obj(ex, st, 'text')], 'empty': lambda: [], 'icu': lambda: [ustring(ex, st, g, g.B)], 'ptrlen': lambda: [g.B.ptr(), g.B.n], 'set': lambda: [g.B.ptr(), g.B.n],
             'seticu': lambda: [ustring(ex, st, g, g.B)],
             'ends': lambda: [g.B.ptr(), Ptr(g.B.ptr().b, mulc(add(g.B.o, g.B.n), 2))]}[k]()
        return [t] + a

    def post(self, ex, g, st0, st1, ret):
        q, n = viewof(ex, st1, g, Ptr(g.A.b, 0))
        e = NULL if self.kind == 'empty' else g.B.ptr()
        return [('refers to the given text', AND(eq(q.b, e.b), eq(q.o, e.o))), ('with its length', eq(n, 0 if self.kind == 'empty' else g.B.n))] + \
               ([('returns the reference itself', AND(eq(ret.b, g.A.b), eq(ret.o, 0)))] if isinstance(ret, Ptr) else [])

    def modifies(self, ex, g, st0):
        return {g.A.b: None}


CONTRACTS += [Make('UnicodeStringRef()', 'empty'), Make('UnicodeStringRef(icu_74::UnicodeString const&)', 'icu'), Make('UnicodeStringRef(%s, int)' % C, 'ptrlen'), Make('UnicodeStringRef(%s, %s)' % (C, C), 'ends'),
              Make('operator=(%s)' % R, 'copy'), Make('setTo(%s)' % R, 'copy'), Make('setTo(icu_74::UnicodeString const&)', 'seticu'), Make('setTo(%s, int)' % C, 'set')]


class Extract(SR):
    """extract: exactly the units of the range, nothing else is written"""

    def __init__(self, dem, limit=False, icu=False):
        self.dem = NS + '::' + dem + ' const'
        self.limit, self.icu = limit, icu

    def setup(self, ex, st, g):
        self.base(ex, st, g)
        t = g.A.obj(ex, st, 'this')
        g.s, x = u('start'), u('length')
        g.l = x
        if self.limit:
            st.assume(AND(le(g.s, MAX), le(x, MAX)))
            g.l = wrap(sub(x, g.s), 32)
        g.s1, g.l1 = self.pin(g, g.s, g.l)
        if self.icu:
            g.d = ex.newblk(st, 'heap', 'target', 64)
            return [t, g.s, x, Ptr(g.d, 0)]
        g.ds, g.cap = u('dstStart', 0, MAX), u('capacity', 0, 1 << 32)
        st.assume(le(add(g.ds, g.l1), g.cap))
        g.d = ex.newblk(st, 'heap', 'target', mulc(g.cap, 2))
        return [t, g.s, x, Ptr(g.d, 0), g.ds]

    def post(self, ex, g, st0, st1, ret):
        if self.icu:
            return [('the target becomes the units of the range', eq(cell(st1, g.d, 0, UST), textof(add(g.A.o, g.s1), g.l1)))]
        return [('the units of the range, in order', all_k(g.ds, add(g.ds, g.l1), lambda k: eq(cell(st1, g.d, k, 16), self.ch(st0, g, add(add(g.A.o, g.s1), sub(k, g.ds))))))]

    def modifies(self, ex, g, st0):
        if self.icu:
            return {g.d: None}
        return {g.d: [(16, g.ds, add(g.ds, g.l1))]}


CONTRACTS += [Extract('extract(int, int, char16_t*, int)'), Extract('extractBetween(int, int, char16_t*, int)', True), Extract('extract(int, int, icu_74::UnicodeString&)', icu=True),
              Extract('extractBetween(int, int, icu_74::UnicodeString&)', True, True)]
