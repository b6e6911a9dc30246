"""V11: a FeatureStructure object reads and writes exactly the feature asked for and refuses everything that does not fit."""
from api import *
import V02
import V01

LEVEL = 'proof'
TUS = ['cas/featurestructure.cpp', 'cas/lowlevel_fsheap.cpp', 'cas/internal_typeshortcuts.cpp', 'cas/internal_fspromoter.cpp', 'cas/cas.cpp', 'cas/typesystem.cpp', 'cas/lowlevel_typesystem.cpp', 'cas/arrayfs.cpp']
REPLAY = 'V11.cpp'
FS = 'uima::FeatureStructure'
KTYPE = {'Int': 'Integer'}
BUILTIN = ('Integer', 'Float', 'String', 'Boolean', 'Byte', 'Short', 'Long', 'Double')


def approp(t, f):
    return pred('approp', t, f)


class AppropPure(Contract):
    """TypeSystem::isAppropriateFeature at call sites: a pure relation (its meaning is proved in V13)"""
    dem = 'uima::lowlevel::TypeSystem::isAppropriateFeature(unsigned int, unsigned int) const'

    def call(self, ex, st, args):
        ex.oblige(st, 'requires of isAppropriateFeature: a known type and feature', AND(le(1, args[1]), lt(args[1], ex.g.ts.nt), le(1, args[2]), lt(args[2], ex.g.ts.nf)), 'pre')
        return [('ret', st, approp(args[1], args[2]))]


class ParentPure(Contract):
    """TypeSystem::getParentType at call sites: the parent recorded for the type (proved in V04)"""
    dem = 'uima::lowlevel::TypeSystem::getParentType(unsigned int) const'

    def call(self, ex, st, args):
        ex.oblige(st, 'requires of getParentType: a known type', AND(le(1, args[1]), lt(args[1], ex.g.ts.nt)), 'pre')
        return [('ret', st, ex.g.ts.parent(ex.g.st0 if hasattr(ex.g, 'st0') else st, args[1]))]


class FeatC(ApiC):
    throws = True

    def obj(self, ex, st, g, name='this'):
        """a FeatureStructure object: reference and CAS, either of them possibly not valid"""
        P = ex.P
        self.cas(ex, st, g)
        g.fs, g.hascas = u('fs', 0), bvar('has a CAS')
        g.o = self.fsobj(ex, st, g, g.fs, name)
        fput(ex, st, g.o, P.off(FS, 'iv_cas'), 'ptr', Ptr(ite(g.hascas, g.cas, 0), 0))
        g.valid = AND(g.hascas, ne(g.fs, 0), lt(g.fs, g.H.fs.top(ex, st)))
        g.type = g.H.fs.at(ex, st, g.fs)
        st.assume(IMP(g.valid, AND(le(1, g.type), lt(g.type, g.ts.nt))))
        return Ptr(g.o, 0)

    def featobj(self, ex, st, g, name='feature'):
        """a Feature object, possibly not valid; a valid one is of the type system of the CAS"""
        P = ex.P
        g.f, g.hasts = u('f', 0), bvar('has a type system')
        st.assume(lt(g.f, g.ts.nf))
        b = ex.newblk(st, 'heap', name, 16)
        fput(ex, st, b, P.off('uima::Feature', 'iv_tyFeature'), 'i32', g.f)
        fput(ex, st, b, P.off('uima::Feature', 'iv_typeSystem'), 'ptr', Ptr(ite(g.hasts, g.ts.b, 0), 0))
        g.fvalid = AND(g.hasts, ne(g.f, 0))
        g.app = approp(g.type, g.f)
        g.off = g.ts.featoff(st, g.f)
        g.cell = add(g.fs, g.off)
        # layout of a structure (V01, V13): a cell for every feature of its type
        st.assume(IMP(AND(g.valid, g.fvalid, g.app), AND(le(1, g.off), lt(g.cell, g.H.fs.top(ex, st)))))
        g.range = g.ts.rangeof(st, g.f)
        st.assume(IMP(ne(g.f, 0), AND(le(1, g.range), lt(g.range, g.ts.nt))))
        return Ptr(b, 0)

    def ladder(self, g):
        """[(condition that refuses, exception)] in order of precedence"""
        return [(NOT(g.valid), 'InvalidFSObjectException', 'an object without a valid structure'),
                (NOT(g.fvalid), 'InvalidFSFeatureObjectException', 'an invalid feature'),
                (NOT(g.app), 'FeatureNotAppropriateException', 'a feature that the type does not have')] + self.fit(g)

    def fit(self, g):
        return []

    def exc(self, ex, g, st0, st1, e):
        L = []
        lad = self.ladder(g)
        L.append(('an exception is thrown only when something does not fit', OR(*[c for c, _, _ in lad])))
        before = []
        for c, x, doc in lad:
            L.append(('%s is reported as %s' % (doc, x), IMP(AND(*(before + [c])), throws(e, x))))
            before.append(NOT(c))
        return L + self.kept(ex, g, st0, st1)

    def ok(self, g):
        return ('returns only when everything fits', AND(*[NOT(c) for c, _, _ in self.ladder(g)]))


def admits(ex, g, kind):
    return pred('subsumes', g.range, gconst(ex, None, 'gs_ty%sType' % KTYPE.get(kind, kind)))


class Get(FeatC):
    def __init__(self, kind):
        self.kind = kind
        self.dem = FS + '::get%sValue(uima::Feature const&) const' % kind

    def setup(self, ex, st, g):
        this = self.obj(ex, st, g)
        f = self.featobj(ex, st, g)
        g.fits = admits(ex, g, self.kind)
        g.c = g.H.fs.at(ex, st, g.cell)
        if self.kind in ('Long', 'Double'):
            st.assume(IMP(AND(g.valid, g.fvalid, g.app, g.fits), lt(g.c, g.H.h64.top(ex, st))))
        return [this, f]

    def fit(self, g):
        return [(NOT(g.fits), 'IncompatibleValueTypeException', 'a feature of another range')]

    def post(self, ex, g, st0, st1, ret):
        if self.kind in ('Long', 'Double'):
            L = [('returns the value of the feature, 0 when it was never set', eq(ret, ite(eq(g.c, 0), 0, g.H.h64.at(ex, st0, g.c))))]
        else:
            L = [('returns the value of the feature, 0 when it was never set', V02.same(ret, V02.DIRECT[self.kind][3](g.c)))]
        return [self.ok(g)] + L + self.kept(ex, g, st0, st1)


class Set(FeatC):
    def __init__(self, kind):
        self.kind = kind
        cty = {'Long': 'long', 'Double': 'double'}.get(kind) or V02.DIRECT[kind][0]
        self.dem = FS + '::set%sValue(uima::Feature const&, %s)' % (kind, cty)

    def setup(self, ex, st, g):
        this = self.obj(ex, st, g)
        f = self.featobj(ex, st, g)
        g.fits = admits(ex, g, self.kind)
        g.v = V02.symval(64 if self.kind in ('Long', 'Double') else V02.DIRECT[self.kind][1], 'value')
        return [this, f, g.v]

    fit = Get.fit

    def grown(self, g):
        return [g.H.h64] if self.kind in ('Long', 'Double') else []

    def exc_modifies(self, ex, g, st0):
        return {}

    def cells(self, g):
        return [(g.H.fs, g.cell, add(g.cell, 1))]

    def exc(self, ex, g, st0, st1, e):
        return FeatC.exc(self, ex, g, st0, st1, e) + ([('no value is added', eq(g.H.h64.top(ex, st0), g.H.h64.top(ex, st1)))] if self.grown(g) else [])

    def post(self, ex, g, st0, st1, ret):
        c = g.H.fs.at(ex, st1, g.cell)
        if self.grown(g):
            h = g.H.h64
            t0 = h.top(ex, st0)
            L = [('the feature refers to a fresh cell with the value', AND(le(1, c), ge(c, t0), lt(c, h.top(ex, st1)), eq(h.at(ex, st1, c), g.v))),
                 ('every 64-bit value stored before is kept', all_k(0, t0, lambda k: eq(h.at(ex, st1, k), h.at(ex, st0, k))))] + h.wf(ex, st1)
        else:
            e, d = V02.DIRECT[self.kind][2:]
            L = [('the feature holds the value', AND(eq(c, e(g.v)), V02.same(d(c), g.v)))]
        return [self.ok(g)] + L + self.kept(ex, g, st0, st1)


class SetFS(FeatC):
    """setFSValue: the value is a structure of this CAS (or a view of it), or null there; anything else is refused"""

    def __init__(self, name='setFSValue'):
        self.dem = FS + '::%s(uima::Feature const&, uima::FeatureStructure const&)' % name

    def setup(self, ex, st, g):
        P = ex.P
        this = self.obj(ex, st, g)
        f = self.featobj(ex, st, g)
        H = g.H
        # a CAS with another type system
        ots = ex.newblk(st, 'heap', 'other type system', 512)
        oh = ex.newblk(st, 'heap', 'other heap', 8192)
        oc = ex.newblk(st, 'heap', 'other CAS', max(P.layouts.get('uima::CAS', {'': 4096}).values()) + 64)
        fput(ex, st, oh, P.off('uima::lowlevel::FSHeap', 'iv_rclTypeSystem'), 'ptr', Ptr(ots, 0))
        fput(ex, st, oc, P.off('uima::CAS', 'iv_heap'), 'ptr', Ptr(oh, 0))
        # a view of the same CAS
        vc = ex.newblk(st, 'heap', 'view', max(P.layouts.get('uima::CAS', {'': 4096}).values()) + 64)
        fput(ex, st, vc, P.off('uima::CAS', 'iv_heap'), 'ptr', Ptr(H.b, 0))
        g.none, g.alien, g.view = bvar('value has no CAS'), bvar('value of another CAS'), bvar('value of a view')
        g.v = u('value', 0)
        st.assume(lt(g.v, H.fs.top(ex, st)))
        b = self.fsobj(ex, st, g, g.v, 'value')
        fput(ex, st, b, P.off(FS, 'iv_cas'), 'ptr', Ptr(ite(g.none, 0, ite(g.alien, oc, ite(g.view, vc, g.cas))), 0))
        g.vt = H.fs.at(ex, st, g.v)
        arr = gconst(ex, None, 'gs_tyFSArrayType')
        g.fits = OR(AND(eq(g.vt, arr), OR(eq(g.range, arr), pred('subsumes', arr, g.range))), AND(ne(g.vt, arr), pred('subsumes', g.range, g.vt)))
        return [this, f, Ptr(b, 0)]

    def ladder(self, g):
        return [(NOT(g.valid), 'InvalidFSObjectException', 'an object without a valid structure'),
                (OR(g.none, g.alien), 'InvalidFSObjectException', 'a value that is no structure of this CAS'),
                (NOT(g.fvalid), 'InvalidFSFeatureObjectException', 'an invalid feature'),
                (NOT(g.app), 'FeatureNotAppropriateException', 'a feature that the type does not have'),
                (NOT(g.fits), 'IncompatibleValueTypeException', 'a value of another type')]

    def cells(self, g):
        return [(g.H.fs, g.cell, add(g.cell, 1))]

    def exc_modifies(self, ex, g, st0):
        return {}

    def post(self, ex, g, st0, st1, ret):
        return [self.ok(g), ('the feature refers to the structure', eq(g.H.fs.at(ex, st1, g.cell), g.v))] + self.kept(ex, g, st0, st1)


class Plain(FeatC):
    """isValid, getType, operator==, operator<, isUntouchedFSValue"""

    def __init__(self, kind, dem):
        self.kind = kind
        self.dem = FS + '::' + dem

    def setup(self, ex, st, g):
        P = ex.P
        this = self.obj(ex, st, g)
        if self.kind == 'untouched':
            return [this, self.featobj(ex, st, g)]
        if self.kind in ('eq', 'lt'):
            g.fs2, g.k = u('fs2', 0), bvar('same CAS')
            o = ex.newblk(st, 'heap', 'CAS 2', 64)
            b = self.fsobj(ex, st, g, g.fs2, 'other')
            fput(ex, st, b, P.off(FS, 'iv_cas'), 'ptr', Ptr(ite(g.k, ite(g.hascas, g.cas, 0), o), 0))
            return [this, Ptr(b, 0)]
        if self.kind == 'type':
            return [this]
        return [this]

    def ladder(self, g):
        if self.kind in ('eq', 'lt', 'valid'):
            return []
        if self.kind == 'type':
            return [(NOT(g.valid), 'InvalidFSObjectException', 'an object without a valid structure')]
        return FeatC.ladder(self, g)

    def exc(self, ex, g, st0, st1, e):
        return [('does not throw', False)] if not self.ladder(g) else FeatC.exc(self, ex, g, st0, st1, e)

    def post(self, ex, g, st0, st1, ret):
        k = self.kind
        if k == 'valid':
            L = [('true exactly for a reference into the heap of a CAS', IFF(ret, g.valid))]
        elif k == 'eq':
            L = [('equal exactly when reference and CAS are', IFF(ret, AND(g.k, eq(g.fs, g.fs2))))]
        elif k == 'lt':
            L = [('ordered by reference within a CAS', IFF(ret, AND(g.k, lt(g.fs, g.fs2))))]
        elif k == 'untouched':
            L = [self.ok(g), ('true exactly when the feature was never set', IFF(ret, eq(g.H.fs.at(ex, st0, g.cell), 0)))]
        else:
            t, p = ret.v[0], ret.v[1]
            L = [self.ok(g), ('the type the structure was created with', eq(t, g.type)), ('in the type system of the CAS', AND(eq(p.b, g.ts.b), eq(p.o, 0)))]
        return L + self.kept(ex, g, st0, st1)

    @property
    def throws(self):
        return self.kind in ('type', 'untouched')


class GetFS(FeatC):
    """getFSValue: the structure the feature refers to, in this CAS or (an annotation of another subject) the view it belongs to"""

    def __init__(self, name='getFSValue'):
        self.dem = FS + '::%s(uima::Feature const&) const' % name

    def setup(self, ex, st, g):
        P, H = ex.P, g.H if hasattr(g, 'H') else None
        this = self.obj(ex, st, g)
        H, ts = g.H, g.ts
        f = self.featobj(ex, st, g)
        g.res = ex.newblk(st, 'alloca', 'result', 24)
        g.view = ex.newblk(st, 'heap', 'view', max(P.layouts.get('uima::CAS', {'': 4096}).values()) + 64)
        fput(ex, st, g.view, P.off('uima::CAS', 'iv_heap'), 'ptr', Ptr(H.b, 0))
        g.sofa = u('sofa', 0)
        g.c = H.fs.at(ex, st, g.cell)
        string = gconst(ex, st, 'gs_tyStringType')
        prim = OR(*[eq(g.range, gconst(ex, st, 'gs_ty%sType' % KTYPE.get(k, k))) for k in BUILTIN])
        g.builtin = OR(prim, eq(ts.parent(st, g.range), string))
        g.ref = AND(g.valid, g.fvalid, g.app, NOT(g.builtin), ne(g.c, 0))
        # the feature holds a structure of this CAS
        g.ct = H.fs.at(ex, st, g.c)
        st.assume(IMP(g.ref, AND(lt(g.c, H.fs.top(ex, st)), le(1, g.ct), lt(g.ct, ts.nt))))
        # annotations have a sofa feature that refers to a sofa
        sr, sn = gconst(ex, st, 'gs_tySofaRefFeature'), gconst(ex, st, 'gs_tySofaNumFeature')
        g.ann = pred('subsumes', gconst(ex, st, 'gs_tyAnnotationType'), g.ct)
        o = ts.featoff(st, sr)
        g.asofa = H.fs.at(ex, st, add(g.c, o))
        st.assume(AND(lt(sr, ts.nf), lt(sn, ts.nf), le(1, o), le(1, ts.featoff(st, sn))))
        st.assume(IMP(AND(g.ref, g.ann), AND(lt(add(g.c, o), H.fs.top(ex, st)), OR(eq(g.asofa, g.sofa), lt(add(g.asofa, ts.featoff(st, sn)), H.fs.top(ex, st))))))
        return [Ptr(g.res, 0), this, f]

    def modifies(self, ex, g, st0):
        m = FeatC.modifies(self, ex, g, st0)
        m[g.res] = None
        return m

    exc_modifies = modifies

    def fit(self, g):
        return [(g.builtin, 'FeatureNotAppropriateException', 'a feature whose range is no structure')]

    def post(self, ex, g, st0, st1, ret):
        t = fget(ex, st1, g.res, ex.P.off(FS, 'iv_tyFS'), 'i32')
        c = fget(ex, st1, g.res, ex.P.off(FS, 'iv_cas'), 'ptr')
        return [self.ok(g), ('the structure the feature refers to (null when never set)', eq(t, g.c)),
                ('in the CAS, unless an annotation of another subject', IMP(OR(eq(g.c, 0), NOT(g.ann), eq(g.asofa, g.sofa)), eq(c.b, g.cas))),
                ('an annotation of another subject is in the view of that subject', IMP(AND(ne(g.c, 0), g.ann, ne(g.asofa, g.sofa)), eq(c.b, g.view)))] + self.kept(ex, g, st0, st1)


class GetArr(GetFS):
    """get...ArrayFSValue: as getFSValue, and the structure is an array of the named kind"""

    def __init__(self, kind):
        name, self.const = ARRS[kind]
        self.dem = FS + '::get%sArrayFSValue(uima::Feature const&) const' % name

    def setup(self, ex, st, g):
        a = GetFS.setup(self, ex, st, g)
        g.other = AND(ne(g.c, 0), ne(g.ct, gconst(ex, st, self.const)))
        return a

    def fit(self, g):
        return GetFS.fit(self, g) + [(g.other, 'FSIsNotArrayException', 'a structure that is no array of the kind')]


ARRS = {'fs': ('', 'gs_tyFSArrayType'), 'float': ('Float', 'gs_tyFloatArrayType'), 'int': ('Int', 'gs_tyIntArrayType'), 'string': ('String', 'gs_tyStringArrayType'),
        'bool': ('Boolean', 'gs_tyBooleanArrayType'), 'byte': ('Byte', 'gs_tyByteArrayType'), 'short': ('Short', 'gs_tyShortArrayType'),
        'long': ('Long', 'gs_tyLongArrayType'), 'double': ('Double', 'gs_tyDoubleArrayType')}


class GetStr(FeatC):
    dem = FS + '::getStringValue(uima::Feature const&) const'

    def setup(self, ex, st, g):
        this = self.obj(ex, st, g)
        f = self.featobj(ex, st, g)
        H = g.H
        g.fits = pred('subsumes', gconst(ex, st, 'gs_tyStringType'), g.range)
        g.good = AND(g.valid, g.fvalid, g.app, g.fits)
        c = g.c = H.fs.at(ex, st, g.cell)
        rc = V02.refcell(c)
        g.so, g.sl = H.ref.at(ex, st, rc), H.ref.at(ex, st, add(rc, 1))
        st.assume(IMP(AND(g.good, ne(c, 0)), AND(lt(add(rc, 1), H.ref.top(ex, st)), le(g.so, LIM), le(g.sl, LIM))))
        return [this, f]

    def fit(self, g):
        return [(NOT(g.fits), 'FSIsNotStringException', 'a feature whose range is no string')]

    def post(self, ex, g, st0, st1, ret):
        p, l = ret.v[0], ret.v[1]
        if isinstance(p, int):
            raise Undecided('string result in an unexpected shape')
        b = g.H.str.buf(ex, st0)
        return [self.ok(g), ('the result refers to the recorded text', IMP(ne(g.c, 0), AND(eq(p.b, b.b), eq(p.o, mulc(g.so, 2)), eq(mod(l, 1 << 32), g.sl)))),
                ('a string never set reads as a null string of length 0', IMP(eq(g.c, 0), AND(eq(p.b, 0), eq(mod(l, 1 << 32), 0))))] + self.kept(ex, g, st0, st1)


class SetStr(FeatC):
    """setStringValue: the feature denotes a fresh copy of the text; for a string subtype the text must be one of its values"""
    cost = 6

    def __init__(self, name):
        self.dem = FS + '::%s(uima::Feature const&, uima::UnicodeStringRef)' % name

    def setup(self, ex, st, g):
        this = self.obj(ex, st, g)
        f = self.featobj(ex, st, g)
        H = g.H
        V02.strwf(ex, st, g)
        string = gconst(ex, st, 'gs_tyStringType')
        g.fits = pred('subsumes', string, g.range)
        g.good = AND(g.valid, g.fvalid, g.app, g.fits)
        g.sub = ne(g.range, string)
        g.c = H.fs.at(ex, st, g.cell)
        st.assume(IMP(g.good, OR(eq(g.c, 0), lt(add(V02.refcell(g.c), 1), H.ref.top(ex, st)))))
        g.len = u('len', 0, LIM // 2)
        g.src = ex.newblk(st, 'heap', 'chars', mulc(g.len, 2))
        st.assume(all_k(0, g.len, lambda k: ne(cell(st, g.src, k, 16), 0)))
        # values allowed for the string subtype
        g.m = u('number of allowed values', 0, LIM)
        g.AT = ex.newblk(st, 'heap', 'allowed texts', None)
        g.vec = ex.newblk(st, 'heap', 'allowed values', 24)
        g.abuf, _ = vec_setup(ex, st, g.vec, 0, 'allowed', 64, g.m)
        g.isval = lambda k: pred('text is allowed value', k)
        g.member = exists_k(0, g.m, g.isval)
        ex.g = g
        return [this, f, Ptr(g.src, 0), g.len]

    def inv(self, ex, lc):
        g = ex.g
        L = []
        if hasattr(g, 'isval'):
            for key, nm_ in lc.ptrs.items():
                L.append(('no allowed value before %s is the text' % nm_, lambda v, s, key=key: AND(eq(mod(v[key].o, 64), 0), le(0, v[key].o), le(v[key].o, mulc(g.m, 64)), all_k(0, div(v[key].o, 64), lambda k: NOT(g.isval(k))))))
            for key, (nm_, w) in lc.ints.items():
                L.append(('no allowed value before number %s is the text' % nm_, lambda v, s, key=key: AND(le(0, v[key]), le(v[key], g.m), all_k(0, v[key], lambda k: NOT(g.isval(k))))))
        return L

    def fit(self, g):
        return [(NOT(g.fits), 'FSIsNotStringException', 'a feature whose range is no string'),
                (AND(g.sub, NOT(g.member)), 'WrongStringValueException', 'a text that is no value of the string subtype')]

    def grown(self, g):
        return [g.H.ref, g.H.str]

    def cells(self, g):
        return [(g.H.fs, g.cell, add(g.cell, 1))]

    def exc_modifies(self, ex, g, st0):
        # text of a refused value may stay behind in the string heap, unreferenced
        h = g.H.str
        return {h.b: [('ptr', h.o_buf // 8, h.o_buf // 8 + 1), (32, h.o_top // 4, h.o_top // 4 + 1), (32, h.o_cells // 4, h.o_cells // 4 + 1)], h.buf0: None}

    def exc_frees(self, ex, g, st0):
        return [g.H.str.buf0]

    def exc(self, ex, g, st0, st1, e):
        s = g.H.str
        return FeatC.exc(self, ex, g, st0, st1, e) + [('text of other strings is kept', AND(le(s.top(ex, st0), s.top(ex, st1)), all_k(0, s.top(ex, st0), lambda j: eq(s.at(ex, st1, j), s.at(ex, st0, j)))))]

    def post(self, ex, g, st0, st1, ret):
        H = g.H
        c = H.fs.at(ex, st1, g.cell)
        r, s = H.ref, H.str
        rc = V02.refcell(c)
        off, ln = r.at(ex, st1, rc), r.at(ex, st1, add(rc, 1))
        t0, t1 = r.top(ex, st0), r.top(ex, st1)
        return [self.ok(g), ('the feature has a string reference', AND(ge(c, 1), lt(add(rc, 1), t1))),
                ('the reference denotes text of the given length', eq(ln, g.len)),
                ('the text is stored fresh', AND(ge(off, s.top(ex, st0)), lt(add(off, g.len), s.top(ex, st1)))),
                ('the text is the given text', all_k(off, add(off, g.len), lambda j: eq(s.at(ex, st1, j), cell(st0, g.src, sub(j, off), 16)))),
                ('no other string reference changes', all_k(0, t0, lambda k: OR(eq(k, rc), eq(k, add(rc, 1)), eq(r.at(ex, st1, k), r.at(ex, st0, k))))),
                ('text of other strings is kept', all_k(0, s.top(ex, st0), lambda j: eq(s.at(ex, st1, j), s.at(ex, st0, j))))] + r.wf(ex, st1) + s.wf(ex, st1) + self.kept(ex, g, st0, st1)


def allowed(ex, st, a, i, d):
    """assumed: the values recorded for a string subtype; total on subtypes of string"""
    g = ex.g
    ex.oblige(st, 'requires of getStringsForStringSubtype: a proper subtype of string', AND(g.sub, g.fits), 'pre')
    return Ptr(g.vec, 0)


def entry(ex, st, p):
    g = ex.g
    rs = ex.resolve(st, p)
    if len(rs) != 1 or rs[0][1] != getattr(g, 'abuf', None):
        return None
    ex.checkaccess(st, g.abuf, p.o, 64, 'allowed value')
    return div(p.o, 64)


def ubuf(ex, st, a, i, d):
    k = entry(ex, st, a[0]) if hasattr(ex.g, 'abuf') else None
    return ex.opaqueobj(st, 'text') if k is None else Ptr(ex.g.AT, k)


def ulen(ex, st, a, i, d):
    k = entry(ex, st, a[0]) if hasattr(ex.g, 'abuf') else None
    return u(freshname('len'), 0, (1 << 31) - 1) if k is None else uf('length of allowed value', k, lo=0, hi=(1 << 31) - 1)


def refeq(ex, st, a, i, d):
    """operator== of string references (its meaning is proved in V06) between the given text and an allowed value"""
    g = ex.g
    o = ex.P.off('uima::UnicodeStringRef', 'iv_uiLength')
    sides = []
    for p in a[:2]:
        rs = ex.resolve(st, p)
        if len(rs) != 1:
            raise Undecided('string reference at an unknown place')
        b = rs[0][1]
        sides.append((fget(ex, st, b, p.o, 'ptr'), fget(ex, st, b, add(p.o, o), 'i32')))
    for (p, n), (q, m) in (sides, sides[::-1]):
        if q.b == g.AT and p.b == g.src:
            ex.oblige(st, 'requires of the comparison: whole texts are compared', AND(eq(n, g.len), eq(m, uf('length of allowed value', q.o, lo=0, hi=(1 << 31) - 1))), 'pre')
            r = g.isval(q.o)
            return ite(r, 1, 0)
    raise Undecided('comparison of other texts')


class TypeC(FeatC):
    """contracts that create a structure"""

    def sofas(self, ex, st, g):
        g.sofa = u('sofa', 0)
        sr = gconst(ex, st, 'gs_tySofaRefFeature')
        st.assume(lt(sr, g.ts.nf))
        g.so = g.ts.featoff(st, sr)

    def newtype(self, ex, st, g, t):
        """t: a known type"""
        ts = g.ts
        st.assume(le(ts.featnum(st, t), 1 << 20))
        g.isann = pred('subsumes', gconst(ex, st, 'gs_tyAnnotationType'), t)
        st.assume(IMP(g.isann, AND(le(1, g.so), le(g.so, ts.featnum(st, t)))))
        g.prim = OR(*[eq(t, gconst(ex, st, 'gs_ty%sType' % KTYPE.get(k, k))) for k in BUILTIN])
        g.nt = t
        g.nn = ts.featnum(st, t)

    def grown(self, g):
        return [g.H.fs]

    def modifies(self, ex, g, st0):
        m = FeatC.modifies(self, ex, g, st0)
        m[g.res] = None
        return m

    def exc_modifies(self, ex, g, st0):
        return {g.res: None}

    def exc(self, ex, g, st0, st1, e):
        return FeatC.exc(self, ex, g, st0, st1, e) + [('nothing is allocated', eq(g.H.fs.top(ex, st0), g.H.fs.top(ex, st1)))]

    def result(self, ex, g, st0, st1):
        r = fget(ex, st1, g.res, ex.P.off(FS, 'iv_tyFS'), 'i32')
        c = fget(ex, st1, g.res, ex.P.off(FS, 'iv_cas'), 'ptr')
        return [('a fresh structure of this CAS', AND(eq(r, g.H.fs.top(ex, st0)), ge(r, 1), eq(c.b, g.cas), eq(c.o, 0)))]


class CreateFS(TypeC):
    dem = 'uima::CAS::createFS(uima::Type const&)'
    cost = 3

    def setup(self, ex, st, g):
        P = ex.P
        self.cas(ex, st, g)
        g.ty, g.hasts = u('type', 0), bvar('has a type system')
        st.assume(lt(g.ty, g.ts.nt))
        b = ex.newblk(st, 'heap', 'type', 16)
        fput(ex, st, b, P.off('uima::Type', 'iv_tyType'), 'i32', g.ty)
        fput(ex, st, b, P.off('uima::Type', 'iv_typeSystem'), 'ptr', Ptr(ite(g.hasts, g.ts.b, 0), 0))
        self.sofas(ex, st, g)
        self.newtype(ex, st, g, g.ty)
        g.res = ex.newblk(st, 'alloca', 'result', 24)
        return [Ptr(g.res, 0), Ptr(g.cas, 0), Ptr(b, 0)]

    def ladder(self, g):
        return [(OR(NOT(g.hasts), eq(g.ty, 0)), 'InvalidFSTypeObjectException', 'an invalid type'), (g.prim, 'CouldNotCreateFSOfFinalTypeException', 'a primitive type')]

    def post(self, ex, g, st0, st1, ret):
        fs = g.H.fs
        t0 = fs.top(ex, st0)
        return [self.ok(g)] + self.result(ex, g, st0, st1) + \
            fs.grown(ex, st0, st1, add(g.nn, 1), lambda k: ite(eq(k, t0), g.ty, ite(AND(g.isann, eq(k, add(t0, g.so))), g.sofa, 0))) + self.kept(ex, g, st0, st1)


class Clone(TypeC):
    """clone(), clone(Type): a fresh structure with the values of the original in the features both types have"""
    cost = 8

    def __init__(self, typed):
        self.typed = typed
        self.dem = FS + ('::clone(uima::Type const&)' if typed else '::clone()')

    def setup(self, ex, st, g):
        P = ex.P
        this = self.obj(ex, st, g)
        H, ts, r = g.H, g.ts, g.H.ref
        self.sofas(ex, st, g)
        V02.strwf(ex, st, g)
        g.res = ex.newblk(st, 'alloca', 'result', 24)
        args = [Ptr(g.res, 0), this]
        if self.typed:
            g.ty, g.hasts = u('newtype', 0), bvar('has a type system')
            st.assume(lt(g.ty, ts.nt))
            b = ex.newblk(st, 'heap', 'type', 16)
            fput(ex, st, b, P.off('uima::Type', 'iv_tyType'), 'i32', g.ty)
            fput(ex, st, b, P.off('uima::Type', 'iv_typeSystem'), 'ptr', Ptr(ite(g.hasts, ts.b, 0), 0))
            args.append(Ptr(b, 0))
            g.good = AND(g.valid, g.hasts, ne(g.ty, 0))
            m = mcst(g.type, g.ty)
            st.assume(AND(le(1, m), lt(m, ts.nt)))
            g.n = ts.featnum(st, m)
            # inherited features come first, at the same offsets (V13)
            st.assume(IMP(g.good, AND(le(g.n, ts.featnum(st, g.type)), le(g.n, ts.featnum(st, g.ty)))))
            t = g.ty
        else:
            g.good = g.valid
            t = g.type
            g.n = ts.featnum(st, t)
        self.newtype(ex, st, g, t)
        g.good = AND(g.good, NOT(g.prim))
        st.assume(le(g.nn, LIM // 64))
        # representation of the original (V01, V02)
        top = H.fs.top(ex, st)
        st.assume(IMP(g.good, le(add(g.fs, add(ts.featnum(st, g.type), 1)), top)))
        st.assume(IMP(g.good, all_k(1, add(g.nn, 1), lambda k: AND(le(1, ts.featat(t, k)), lt(ts.featat(t, k), ts.nf)))))
        st.assume(all_k(1, ts.nf, lambda k: AND(le(1, ts.rangeof(st, k)), lt(ts.rangeof(st, k), ts.nt))))
        g.isstr = lambda k: pred('subsumes', gconst(ex, st, 'gs_tyStringType'), ts.rangeof(st, ts.featat(t, k)))
        st.assume(IMP(g.good, all_k(1, add(g.n, 1), lambda k: OR(NOT(g.isstr(k)), eq(H.fs.at(ex, st, add(g.fs, k)), 0), AND(lt(add(V02.refcell(H.fs.at(ex, st, add(g.fs, k))), 1), r.top(ex, st)))))))
        st.assume(all_k(1, r.top(ex, st), lambda k: lt(r.at(ex, st, k), H.str.top(ex, st))))
        return args

    def grown(self, g):
        return [g.H.fs, g.H.ref]

    def exc_modifies(self, ex, g, st0):
        return {g.res: None}

    def ladder(self, g):
        L = [(NOT(g.valid), 'InvalidFSObjectException', 'an object without a valid structure')]
        if self.typed:
            L.append((OR(NOT(g.hasts), eq(g.ty, 0)), 'InvalidFSTypeObjectException', 'an invalid type'))
        return L + [(g.prim, 'CouldNotCreateFSOfFinalTypeException', 'a primitive type')]

    def post(self, ex, g, st0, st1, ret):
        H = g.H
        fs, r = H.fs, H.ref
        t0, t1 = fs.top(ex, st0), fs.top(ex, st1)
        r0, r1 = r.top(ex, st0), r.top(ex, st1)
        src = lambda k: fs.at(ex, st0, add(g.fs, k))
        dst = lambda k: fs.at(ex, st1, add(t0, k))
        lo, hi = 1, add(g.n, 1)
        init = lambda k: ite(AND(g.isann, eq(k, g.so)), g.sofa, 0)
        return [self.ok(g)] + self.result(ex, g, st0, st1) + [
            ('of the requested type' if self.typed else 'of the same type', eq(fs.at(ex, st1, t0), g.nt)),
            ('with room for the features of the type', eq(t1, add(t0, add(g.nn, 1)))),
            ('the values of common features are copied', all_k(lo, hi, lambda k: OR(g.isstr(k), eq(dst(k), src(k))))),
            ('a set string is copied to a fresh reference', all_k(lo, hi, lambda k: OR(NOT(g.isstr(k)), eq(src(k), 0), AND(ge(V02.refcell(dst(k)), r0), lt(V02.refcell(dst(k)), r1))))),
            ('a copied string denotes the same text', all_k(lo, hi, lambda k: OR(NOT(g.isstr(k)), eq(src(k), 0), eq(r.at(ex, st1, V02.refcell(dst(k))), r.at(ex, st0, V02.refcell(src(k))))))),
            ('a string not set in the original is as after creation', all_k(lo, hi, lambda k: OR(NOT(g.isstr(k)), ne(src(k), 0), eq(dst(k), init(k))))),
            ('the features the original does not have are as after creation', all_k(hi, add(g.nn, 1), lambda k: eq(dst(k), init(k)))),
            ('every structure created before is unchanged', all_k(0, t0, lambda k: eq(fs.at(ex, st1, k), fs.at(ex, st0, k)))),
            ('existing string references are kept', all_k(0, r0, lambda k: eq(r.at(ex, st1, k), r.at(ex, st0, k))))] + fs.wf(ex, st1) + r.wf(ex, st1) + self.kept(ex, g, st0, st1)


def mcst(a, b):
    return uf('mcst', a, b, lo=0, hi=LIM)


class McstPure(Contract):
    """TypeSystem::getMostSpecificCommonSupertype at call sites: a function of the two types (its meaning is proved in V04)"""
    dem = 'uima::lowlevel::TypeSystem::getMostSpecificCommonSupertype(unsigned int, unsigned int) const'

    def call(self, ex, st, args):
        g = ex.g
        ex.oblige(st, 'requires of getMostSpecificCommonSupertype: the type of the original and the new type', OR(AND(eq(args[1], g.type), eq(args[2], g.ty)), AND(eq(args[1], g.ty), eq(args[2], g.type))), 'pre')
        return [('ret', st, mcst(g.type, g.ty))]


def getsofa(ex, st, a, i, d):
    """assumed: CAS::getSofa() (a search of the sofa index) returns the sofa of the view, or none"""
    res, cas = a[0], a[1]
    P = ex.P
    rs = ex.resolve(st, res)
    b = rs[0][1]
    fput(ex, st, b, add(res.o, P.off(FS, 'iv_tyFS')), 'i32', ex.g.sofa)
    fput(ex, st, b, add(res.o, P.off(FS, 'iv_cas')), 'ptr', Ptr(cas.b, 0))
    return None


def viewnum(ex, st, a, i, d):
    """assumed: the view for the number of a sofa"""
    g = ex.g
    sn = gconst(ex, st, 'gs_tySofaNumFeature')
    ex.oblige(st, 'requires of getViewBySofaNum: the number of the sofa of the annotation', eq(a[1], g.H.fs.at(ex, st, add(g.asofa, g.ts.featoff(st, sn)))), 'pre')
    return Ptr(g.view, 0)


ASSUMED = [V02.SubsumesPure(), AppropPure(), ParentPure(), McstPure()]
STUBS = [(re.compile(r'uima::CAS::getSofa\(\)'), getsofa), (re.compile(r'uima::CAS::getViewBySofaNum\(int\)'), viewnum),
         (re.compile(r'uima::lowlevel::TypeSystem::getStringsForStringSubtype\('), allowed),
         (re.compile(r'icu_\d+::UnicodeString::getBuffer\(\) const'), ubuf), (re.compile(r'icu_\d+::UnicodeString::length\(\) const'), ulen),
         (re.compile(r'uima::UnicodeStringRef::operator==\(uima::UnicodeStringRef const&\) const'), refeq)] + ESTUBS
KINDS = ('Int', 'Float', 'Boolean', 'Byte', 'Short', 'Long', 'Double')
CONTRACTS = LIB + [c(k) for c in (Get, Set) for k in KINDS] + [SetFS(), SetFS('setFeatureValue'), GetFS(), GetFS('getFeatureValue')] + [GetArr(k) for k in ARRS] + \
    [GetStr(), SetStr('setStringValue'), SetStr('setStringValueExternal'), CreateFS(), Clone(False), Clone(True), V02.CopyFeaturesCall(False), V02.CopyFeaturesCall(True)] + \
    [Plain('valid', 'isValid() const'), Plain('type', 'getType() const'), Plain('eq', 'operator==(uima::FeatureStructure const&) const'), Plain('lt', 'operator<(uima::FeatureStructure const&) const'),
     Plain('untouched', 'isUntouchedFSValue(uima::Feature const&) const')]
ASSUMPTIONS = ['building and logging error messages does not change CAS data', 'a Feature or Type object given to a structure belongs to the type system of its CAS',
               'CAS::getSofa() and CAS::getViewBySofaNum() return the sofa and the view of a subject and change no CAS data (their bodies search the sofa index)',
               'getStringsForStringSubtype returns the values recorded for the subtype']
