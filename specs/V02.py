"""V02: feature values read back as written; a write touches only the feature it names."""
from fsh import *
from fsh import LIB, STUBS

LEVEL = 'proof'
TUS = ['cas/lowlevel_fsheap.cpp', 'cas/internal_typeshortcuts.cpp']
REPLAY = 'V02.cpp'

# kind -> (C++ type, bits of the value, encoding into the 32-bit cell, decoding from it)
DIRECT = {
    'Int': ('int', 32, lambda v: v, lambda c: c),
    'Float': ('float', 32, lambda v: v, lambda c: c),
    'Boolean': ('bool', 1, lambda v: ite(v, 1, 2), lambda c: eq(c, 1)),
    'Byte': ('char', 8, lambda v: sext(v, 8, 32), lambda c: trunc(c, 8)),
    'Short': ('short', 16, lambda v: sext(v, 16, 32), lambda c: trunc(c, 16)),
    'FS': ('unsigned int', 32, lambda v: v, lambda c: c),
}


def symval(bits, name='v'):
    return bvar(name) if bits == 1 else u(name, 0, (1 << bits) - 1)


def same(a, b):
    isb = lambda x: isinstance(x, bool) or isinstance(x, Node) and x.isb
    return IFF(a, b) if isb(a) or isb(b) else eq(a, b)


class Set(HeapC):
    def __init__(self, kind):
        self.kind = kind
        self.cty, self.bits, self.enc, self.dec = DIRECT[kind]
        self.dem = F + 'set%sValue(unsigned int, unsigned int, %s)' % (kind, self.cty)

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        fs, f = self.feature(ex, st, g)
        g.v = symval(self.bits)
        return [this, fs, f, g.v]

    def cells(self, g):
        return [(g.H.fs, g.cell, add(g.cell, 1))]

    def post(self, ex, g, st0, st1, ret):
        c = g.H.fs.at(ex, st1, g.cell)
        return [('the cell of the feature holds the encoded value', eq(c, self.enc(g.v))),
                ('lemma: the stored cell decodes to the value that was set', same(self.dec(c), g.v))] + self.kept(ex, g, st0, st1)


class Get(HeapC):
    def __init__(self, kind):
        self.kind = kind
        self.cty, self.bits, self.enc, self.dec = DIRECT[kind]
        self.dem = F + 'get%sValue(unsigned int, unsigned int) const' % kind

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        fs, f = self.feature(ex, st, g)
        return [this, fs, f]

    def post(self, ex, g, st0, st1, ret):
        c = g.H.fs.at(ex, st0, g.cell)
        L = [('returns the decoded cell', same(ret, self.dec(c)))]
        z = False if self.bits == 1 else 0
        L.append(('a feature never set reads as %s' % ('false' if self.bits == 1 else 'zero'), IMP(eq(c, 0), same(ret, z))))
        return L + self.kept(ex, g, st0, st1)


class Set64(HeapC):
    def __init__(self, kind, cty):
        self.kind = kind
        self.dem = F + 'set%sValue(unsigned int, unsigned int, %s)' % (kind, cty)

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        fs, f = self.feature(ex, st, g)
        g.v = u('v', 0, (1 << 64) - 1)
        return [this, fs, f, g.v]

    def grown(self, g):
        return [g.H.h64]

    def cells(self, g):
        return [(g.H.fs, g.cell, add(g.cell, 1))]

    def post(self, ex, g, st0, st1, ret):
        c = g.H.fs.at(ex, st1, g.cell)
        h = g.H.h64
        t0, t1 = h.top(ex, st0), h.top(ex, st1)
        return [('the feature refers to an allocated 64-bit cell', AND(le(1, c), lt(c, t1))),
                ('that cell holds the value', eq(h.at(ex, st1, c), g.v)),
                ('the cell is fresh, so no other feature structure shares it', ge(c, t0)),
                ('every 64-bit value stored before is kept', all_k(0, t0, lambda k: eq(h.at(ex, st1, k), h.at(ex, st0, k))))] + \
            h.wf(ex, st1) + self.kept(ex, g, st0, st1)


class Get64(HeapC):
    def __init__(self, kind):
        self.dem = F + 'get%sValue(unsigned int, unsigned int) const' % kind

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        fs, f = self.feature(ex, st, g)
        g.c = g.H.fs.at(ex, st, g.cell)
        st.assume(lt(g.c, g.H.h64.top(ex, st)))
        return [this, fs, f]

    def post(self, ex, g, st0, st1, ret):
        return [('returns the 64-bit value the feature refers to', IMP(ne(g.c, 0), eq(ret, g.H.h64.at(ex, st0, g.c)))),
                ('a feature never set reads as zero', IMP(eq(g.c, 0), eq(ret, 0)))] + self.kept(ex, g, st0, st1)


def refcell(c):
    return add(mulc(c, 2), -1)


def strwfl(ex, st, g):
    s, r = g.H.str, g.H.ref
    return [('the last cell of the string heap is a terminator', eq(s.at(ex, st, add(s.top(ex, st), -1)), 0)),
            ('string ids are whole pairs', eq(mod(r.top(ex, st), 2), 1))]


def strwf(ex, st, g):
    """string heap: the last allocated cell is a terminator; string ref heap: ids are whole pairs"""
    for _, f in strwfl(ex, st, g):
        st.assume(f)


class SetString(HeapC):
    """setStringValue(fs, feature, offset): the feature denotes the NUL-terminated text at that offset of the string heap"""
    dem = F + 'setStringValue(unsigned int, unsigned int, int)'
    cost = 5

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        strwf(ex, st, g)
        fs, f = self.feature(ex, st, g)
        g.o = u('str', 1, LIM)
        st.assume(lt(g.o, g.H.str.top(ex, st)))
        g.c = g.H.fs.at(ex, st, g.cell)
        st.assume(le(0, g.c))
        st.assume(OR(eq(g.c, 0), lt(add(refcell(g.c), 1), g.H.ref.top(ex, st))))
        return [this, fs, f, g.o]

    def grown(self, g):
        return [g.H.ref]

    def cells(self, g):
        return [(g.H.fs, g.cell, add(g.cell, 1))]

    def post(self, ex, g, st0, st1, ret):
        H = g.H
        c = H.fs.at(ex, st1, g.cell)
        r = H.ref
        off, ln = r.at(ex, st1, refcell(c)), r.at(ex, st1, add(refcell(c), 1))
        t0, t1 = r.top(ex, st0), r.top(ex, st1)
        return [('the feature has a string reference', AND(ge(c, 1), lt(add(refcell(c), 1), t1))),
                ('the reference denotes the given text', eq(off, g.o)),
                ('the recorded length ends at the terminator', AND(lt(add(g.o, ln), H.str.cells(ex, st0)), eq(H.str.at(ex, st0, add(g.o, ln)), 0))),
                ('the recorded length skips no terminator', all_k(g.o, add(g.o, ln), lambda k: ne(H.str.at(ex, st0, k), 0))),
                ('a string reference already present is reused', IMP(ne(g.c, 0), AND(eq(c, g.c), eq(t0, t1)))),
                ('otherwise the reference is fresh', IMP(eq(g.c, 0), AND(ge(refcell(c), t0), eq(t1, add(t0, 2))))),
                ('every other string reference is kept', all_k(0, t0, lambda k: OR(eq(k, refcell(c)), eq(k, add(refcell(c), 1)), eq(r.at(ex, st1, k), r.at(ex, st0, k))))),
                ('string ids stay whole pairs', eq(mod(t1, 2), 1))] + r.wf(ex, st1) + self.kept(ex, g, st0, st1)


class GetString(HeapC):
    dem = F + 'getStringValue(unsigned int, unsigned int) const'

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        fs, f = self.feature(ex, st, g)
        self.strpre(ex, st, g, g.H.fs.at(ex, st, g.cell))
        return [this, fs, f]

    def strpre(self, ex, st, g, c):
        g.c = c
        st.assume(OR(eq(c, 0), lt(add(refcell(c), 1), g.H.ref.top(ex, st))))
        g.o, g.l = g.H.ref.at(ex, st, refcell(c)), g.H.ref.at(ex, st, add(refcell(c), 1))
        st.assume(OR(eq(c, 0), AND(le(g.o, LIM), le(g.l, LIM))))

    def post(self, ex, g, st0, st1, ret):
        p, l = ret.v[0], ret.v[1]
        if isinstance(p, int):
            raise Undecided('string result in an unexpected shape')
        b = g.H.str.buf(ex, st0)
        return [('the result refers to the recorded text', IMP(ne(g.c, 0), AND(eq(p.b, b.b), eq(p.o, mulc(g.o, 2))))),
                ('the result has the recorded length', IMP(ne(g.c, 0), eq(mod(l, 1 << 32), g.l))),
                ('a string never set reads as a null string of length 0', IMP(eq(g.c, 0), AND(eq(p.b, 0), eq(mod(l, 1 << 32), 0))))] + self.kept(ex, g, st0, st1)


class GetFSAsString(GetString):
    dem = F + 'getFSAsString(unsigned int) const'

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        c = u('ref', 0, LIM)
        self.strpre(ex, st, g, c)
        return [this, c]


class WithOffset(HeapC):
    def __init__(self, setter):
        self.setter = setter
        self.dem = F + ('setFeatureWithOffset(unsigned int, unsigned int, unsigned int)' if setter else 'getFeatureWithOffset(unsigned int, unsigned int) const')

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        g.fs, g.off, g.v = u('fs', 1), u('off', 1), u('v')
        g.cell = add(g.fs, g.off)
        st.assume(lt(g.cell, g.H.fs.top(ex, st)))
        return [this, g.fs, g.off] + ([g.v] if self.setter else [])

    def cells(self, g):
        return [(g.H.fs, g.cell, add(g.cell, 1))] if self.setter else []

    def post(self, ex, g, st0, st1, ret):
        if self.setter:
            return [('the cell at the offset holds the value', eq(g.H.fs.at(ex, st1, g.cell), g.v))] + self.kept(ex, g, st0, st1)
        return [('returns the cell at the offset', eq(ret, g.H.fs.at(ex, st0, g.cell)))] + self.kept(ex, g, st0, st1)


class Untouched(HeapC):
    dem = F + 'isUntouchedFSValue(unsigned int, unsigned int) const'

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        fs, f = self.feature(ex, st, g)
        return [this, fs, f]

    def post(self, ex, g, st0, st1, ret):
        return [('true exactly when the cell was never set', same(ret, eq(g.H.fs.at(ex, st0, g.cell), 0)))] + self.kept(ex, g, st0, st1)


class GetType(HeapC):
    dem = F + 'getType(unsigned int) const'

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        g.fs = u('fs', 1)
        st.assume(lt(g.fs, g.H.fs.top(ex, st)))
        return [this, g.fs]

    def post(self, ex, g, st0, st1, ret):
        return [('returns the type the structure was created with (its header cell)', eq(ret, g.H.fs.at(ex, st0, g.fs)))] + self.kept(ex, g, st0, st1)


class Conv(Contract):
    """conversions between values and cells: inverse of each other on every value"""

    def __init__(self, dem, bits, f, title=None):
        self.dem, self.bits, self.f = F + dem, bits, f

    def setup(self, ex, st, g):
        g.v = symval(self.bits)
        return [g.v]

    def post(self, ex, g, st0, st1, ret):
        return [('returns the specified encoding', same(ret, self.f(g.v)))]


CONV = [Conv('getAsFS(int)', 32, lambda v: v), Conv('getAsFS(float)', 32, lambda v: v), Conv('getAsFS(char)', 8, lambda v: sext(v, 8, 32)),
        Conv('getAsFS(short)', 16, lambda v: sext(v, 16, 32)), Conv('getAsFS(bool)', 1, lambda v: ite(v, 1, 2)),
        Conv('getFSAsInt(unsigned int)', 32, lambda v: v), Conv('getFSAsFloat(unsigned int)', 32, lambda v: v), Conv('getFSAsBoolean(unsigned int)', 32, lambda v: eq(v, 1)),
        Conv('getFSAsByte(unsigned int)', 32, lambda v: trunc(v, 8)), Conv('getFSAsShort(unsigned int)', 32, lambda v: trunc(v, 16))]

CONTRACTS = LIB + [Set(k) for k in DIRECT] + [Get(k) for k in DIRECT] + [Set64('Long', 'long'), Set64('Double', 'double'), Get64('Long'), Get64('Double'),
             SetString(), GetString(), GetFSAsString(), WithOffset(True), WithOffset(False), Untouched(), GetType()] + CONV


class CopyFeatures(HeapC):
    """copyFeatures(target, source, n): the first n features of the target (all when n is 0, both then of one type) denote the
    values of the source, and string references are not shared"""
    dem = F + 'copyFeatures(unsigned int, unsigned int, unsigned long)'
    cost = 8

    def __init__(self, some=False):
        self.some = some
        self.title = self.dem + (' for a given number of features' if some else ' for all features')

    def requires(self, ex, st, g, all_):
        """[(label, formula)] over g.H, g.ts, g.t, g.s, g.n; defines g.type, g.isstr"""
        H, ts, r = g.H, g.ts, g.H.ref
        L = strwfl(ex, st, g)
        g.type = H.fs.at(ex, st, g.t)
        L += [('the type of the target is known', AND(ge(g.type, 1), lt(g.type, ts.nt)))]
        nf = ts.featnum(st, g.type)
        if all_:
            g.n = nf
        L += [('no more features than the type has', AND(le(g.n, nf), le(nf, LIM // 64)))]
        for x, nm_ in ((g.t, 'target'), (g.s, 'source')):
            L.append(('the features of the %s are allocated' % nm_, AND(le(1, x), le(add(x, add(g.n, 1)), H.fs.top(ex, st)))))
        L.append(('target and source do not overlap', OR(le(add(g.t, add(g.n, 1)), g.s), le(add(g.s, add(g.n, 1)), g.t))))
        L.append(('features of the type are known', all_k(1, add(nf, 1), lambda k: AND(le(1, ts.featat(g.type, k)), lt(ts.featat(g.type, k), ts.nf)))))
        L.append(('ranges of features are known', all_k(1, ts.nf, lambda k: AND(le(1, ts.rangeof(st, k)), lt(ts.rangeof(st, k), ts.nt)))))
        g.isstr = lambda k: pred('subsumes', gconst(ex, st, 'gs_tyStringType'), ts.rangeof(g.st0 if hasattr(g, 'st0') else st, ts.featat(g.type, k)))
        L.append(('string features of the source hold null or a reference', all_k(1, add(g.n, 1), lambda k: OR(NOT(g.isstr(k)), eq(H.fs.at(ex, st, add(g.s, k)), 0),
                                                      AND(lt(add(refcell(H.fs.at(ex, st, add(g.s, k))), 1), r.top(ex, st)))))))
        L.append(('references lie in the string heap', all_k(1, r.top(ex, st), lambda k: lt(r.at(ex, st, k), H.str.top(ex, st)))))
        return L

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        g.t, g.s = u('target', 1), u('source', 1)
        g.n = u('n', 1, LIM) if self.some else None
        arg = g.n if self.some else 0
        for _, f in self.requires(ex, st, g, not self.some):
            st.assume(f)
        return [this, g.t, g.s, arg]

    def grown(self, g):
        return [g.H.ref]

    def cells(self, g):
        return [(g.H.fs, add(g.t, 1), add(g.t, add(g.n, 1)))]

    def rel(self, ex, g, st0, st1):
        H = g.H
        r = H.ref
        src = lambda k: H.fs.at(ex, st0, add(g.s, k))
        dst = lambda k: H.fs.at(ex, st1, add(g.t, k))
        lo, hi = 1, add(g.n, 1)
        t0, t1 = r.top(ex, st0), r.top(ex, st1)
        return [('non-string features are copied', all_k(lo, hi, lambda k: OR(g.isstr(k), eq(dst(k), src(k))))),
                ('a set string feature gets a fresh reference, not shared with the source', all_k(lo, hi, lambda k: OR(NOT(g.isstr(k)), eq(src(k), 0), AND(ge(refcell(dst(k)), t0), lt(refcell(dst(k)), t1))))),
                ('the fresh reference denotes the text of the source', all_k(lo, hi, lambda k: OR(NOT(g.isstr(k)), eq(src(k), 0), eq(r.at(ex, st1, refcell(dst(k))), r.at(ex, st0, refcell(src(k))))))),
                ('a string feature not set in the source is left alone', all_k(lo, hi, lambda k: OR(NOT(g.isstr(k)), ne(src(k), 0), eq(dst(k), H.fs.at(ex, st0, add(g.t, k)))))),
                ('existing string references are kept', all_k(0, t0, lambda k: eq(r.at(ex, st1, k), r.at(ex, st0, k)))),
                ('the string reference heap only grows', le(t0, t1)),
                ('string ids stay whole pairs', eq(mod(t1, 2), 1)),
                ('the source is unchanged', all_k(0, add(g.n, 1), lambda k: eq(H.fs.at(ex, st1, add(g.s, k)), src(k))))] + r.wf(ex, st1)

    def post(self, ex, g, st0, st1, ret):
        return self.rel(ex, g, st0, st1) + self.kept(ex, g, st0, st1)

    def inv(self, ex, lc):
        g = ex.g
        st0 = g.st0
        if not hasattr(g, 'isstr'):
            return []
        H, r, fs = g.H, g.H.ref, g.H.fs
        t0 = r.top(ex, st0)
        L = [('string ref heap is well formed', lambda v, s: AND(*[f for _, f in r.wf(ex, s)])),
             ('string ref heap only grows', lambda v, s: le(t0, r.top(ex, s))),
             ('string ids stay whole pairs', lambda v, s: eq(mod(r.top(ex, s), 2), 1)),
             ('existing string references are kept', lambda v, s: all_k(0, t0, lambda k: eq(r.at(ex, s, k), r.at(ex, st0, k)))),
             ('only cells of the target change', lambda v, s: all_k(0, fs.cells(ex, st0), lambda k: OR(AND(lt(g.t, k), le(k, add(g.t, g.n))), eq(fs.at(ex, s, k), fs.at(ex, st0, k))))),
             ('string features not set in the source are left alone', lambda v, s: all_k(1, add(g.n, 1), lambda k: OR(NOT(g.isstr(k)), ne(fs.at(ex, st0, add(g.s, k)), 0), eq(fs.at(ex, s, add(g.t, k)), fs.at(ex, st0, add(g.t, k))))))]
        src = lambda k: fs.at(ex, st0, add(g.s, k))
        for key in lc.ints:
            for d in (0, 1):
                hi = lambda v, key=key, d=d: add(v[key], d)
                L += [('features copied so far', lambda v, s, hi=hi: all_k(1, hi(v), lambda k: OR(g.isstr(k), eq(fs.at(ex, s, add(g.t, k)), src(k))))),
                      ('string features copied so far', lambda v, s, hi=hi: all_k(1, hi(v), lambda k: OR(NOT(g.isstr(k)), eq(src(k), 0),
                          AND(ge(refcell(fs.at(ex, s, add(g.t, k))), t0), lt(refcell(fs.at(ex, s, add(g.t, k))), r.top(ex, s)),
                              eq(r.at(ex, s, refcell(fs.at(ex, s, add(g.t, k)))), r.at(ex, st0, refcell(src(k))))))))]
        return L

    def inline_callee(self, dem):
        return False


class CopyFeaturesCall(CopyFeatures):
    """at call sites: only the contract above is known"""

    def call(self, ex, st, args):
        this, t, s, n = args
        g0 = ex.g
        g = type(g0)()
        g.H, g.ts, g.t, g.s, g.n, g.st0 = g0.H, g0.ts, t, s, n, st.snap()
        if isinstance(n, int):
            if n == 0:
                g.stype = g.H.fs.at(ex, st, s)
        else:
            ex.oblige(st, 'requires of copyFeatures: a number of features (0 would mean all of them)', ge(n, 1), 'pre')
        L = self.requires(ex, st, g, isinstance(n, int) and n == 0)
        if isinstance(n, int) and n == 0:
            L.append(('source and target are of one type', eq(g.stype, g.type)))
        for lb, f in L:
            ex.oblige(st, 'requires of copyFeatures: ' + lb, f, 'pre')
        H, r = g.H, g.H.ref
        fb = H.fs.buf(ex, st).b
        ex.setarr(st, fb, 32, a_havoc(st.mem[fb].arr(32), freshname('copied'), add(t, 1), add(t, add(g.n, 1))))
        old = r.buf(ex, st).b
        c1 = fresh('cells', 1)
        st.assume(le(c1, 4294967295))
        nb = ex.newblk(st, 'heap', 'grown', mulc(c1, r.sz))
        ob = st.mem[old].copy()
        ob.live = False
        st.mem[old] = ob
        fput(ex, st, r.b, r.o_buf, 'ptr', Ptr(nb, 0))
        fput(ex, st, r.b, r.o_top, 'i32', fresh('top', 1, (1 << 32) - 1))
        fput(ex, st, r.b, r.o_cells, 'i32', c1)
        for lb, f in self.rel(ex, g, g.st0, st):
            st.assume(f)
        return [('ret', st, None)]


class SubsumesPure(Contract):
    """TypeSystem::subsumes at call sites: a pure relation (its meaning is proved in V04)"""
    dem = 'uima::lowlevel::TypeSystem::subsumes(unsigned int, unsigned int) const'

    def call(self, ex, st, args):
        return [('ret', st, pred('subsumes', args[1], args[2]))]


ASSUMED = [SubsumesPure()]
CONTRACTS += [CopyFeatures(), CopyFeatures(True)]
