"""V03: arrays hold exactly what was stored; every access outside an array is refused."""
import os
from api import *

LEVEL = 'proof'
TUS = ['cas/arrayfs.cpp', 'cas/featurestructure.cpp', 'cas/lowlevel_fsheap.cpp', 'cas/internal_typeshortcuts.cpp', 'cas/internal_fspromoter.cpp', 'cas/cas.cpp', 'cas/lowlevel_typesystem.cpp']
REPLAY = 'V03.cpp'
STUBS = ESTUBS

# kind -> (C++ element type, constant, bits, heap key, encode, decode)
ident = lambda v: v
KIND = {
    'int': ('int', 'gs_tyIntArrayType', 32, None, ident, ident),
    'float': ('float', 'gs_tyFloatArrayType', 32, None, ident, ident),
    'bool': ('bool', 'gs_tyBooleanArrayType', 1, 'h8', lambda v: ite(v, 1, 0), lambda c: eq(c, 1)),
    'char': ('char', 'gs_tyByteArrayType', 8, 'h8', ident, ident),
    'short': ('short', 'gs_tyShortArrayType', 16, 'h16', ident, ident),
    'long': ('long', 'gs_tyLongArrayType', 64, 'h64', ident, ident),
    'double': ('double', 'gs_tyDoubleArrayType', 64, 'h64', ident, ident),
    'string': ('uima::UnicodeStringRef', 'gs_tyStringArrayType', 32, None, None, None),
    'fs': ('uima::FeatureStructure', 'gs_tyFSArrayType', 32, None, None, None),
}


def num(const):
    """the type code in the template argument, from the header of the tree under check"""
    t = open(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src/cas/uima/internal_typeshortcuts.hpp')).read()
    m = re.search(r'%s\s*=\s*(\d+)' % const, t)
    return m.group(1) + 'u' if m else '?'


class ArrC(ApiC):
    throws = True
    size_ok = True

    def __init__(self, kind):
        self.kind = kind
        self.cty, self.const, self.bits, self.side, self.enc, self.dec = KIND[kind]

    def cname(self, ex):
        return 'uima::BasicArrayFS<%s, %du>::' % (self.cty, gconst(ex, None, self.const))

    def arr(self, ex, st, g):
        """array object and its representation: header cells [type, size, (offset)] and the storage"""
        self.cas(ex, st, g)
        H = g.H
        g.fs = u('fs', 0)
        g.type = gconst(ex, st, self.const)
        g.store = getattr(H, self.side) if self.side else H.fs
        # iv_tyFS may be invalid (0 or past the end); when valid it refers to an array of this type
        g.valid = AND(ne(g.fs, 0), lt(g.fs, H.fs.top(ex, st)))
        hdr = 3 if self.side else 2
        st.assume(OR(NOT(g.valid), AND(eq(H.fs.at(ex, st, g.fs), g.type), le(add(g.fs, hdr), H.fs.top(ex, st)))))
        g.n = H.fs.at(ex, st, add(g.fs, 1))
        st.assume(OR(NOT(g.valid), le(g.n, LIM)))
        g.start = H.fs.at(ex, st, add(g.fs, 2)) if self.side else add(g.fs, 2)
        st.assume(OR(NOT(g.valid), AND(le(1, g.start), le(add(g.start, g.n), g.store.top(ex, st)))))
        g.obj = self.fsobj(ex, st, g, g.fs, 'array')
        return Ptr(g.obj, 0)

    def exc(self, ex, g, st0, st1, e):
        return [('an exception is thrown only for an invalid array or an index outside it', self.mustthrow(ex, g, st0)),
                ('an invalid array is reported as InvalidFSObjectException', IMP(NOT(g.valid), throws(e, 'InvalidFSObjectException'))),
                ('an index outside the array is reported as FSArrayOutOfBoundsException', IMP(g.valid, throws(e, 'FSArrayOutOfBoundsException')))] + self.kept(ex, g, st0, st1)

    def mustthrow(self, ex, g, st0):
        return OR(NOT(g.valid), NOT(lt(g.i, g.n)))


class Size(ArrC):
    def __init__(self, kind):
        ArrC.__init__(self, kind)
        self.dem = 'uima::BasicArrayFS<%s, %s>::size() const' % (self.cty, num(self.const))

    def setup(self, ex, st, g):
        g.i = 0
        return [self.arr(ex, st, g)]

    def mustthrow(self, ex, g, st0):
        return NOT(g.valid)

    def post(self, ex, g, st0, st1, ret):
        return [('returns the size given at creation (the size cell)', AND(g.valid, eq(ret, g.n)))] + self.kept(ex, g, st0, st1)


class Get(ArrC):
    def __init__(self, kind):
        ArrC.__init__(self, kind)
        self.dem = 'uima::BasicArrayFS<%s, %s>::get(unsigned long) const' % (self.cty, num(self.const))

    def setup(self, ex, st, g):
        this = self.arr(ex, st, g)
        g.i = u('index', 0, (1 << 64) - 1)
        if self.kind == 'string':
            c = g.H.fs.at(ex, st, add(g.start, g.i))
            g.c = c
            inr = AND(g.valid, lt(g.i, g.n))
            st.assume(OR(NOT(inr), eq(c, 0), lt(add(V02.refcell(c), 1), g.H.ref.top(ex, st))))
            g.o, g.l = g.H.ref.at(ex, st, V02.refcell(c)), g.H.ref.at(ex, st, add(V02.refcell(c), 1))
            st.assume(OR(NOT(inr), eq(c, 0), AND(le(g.o, LIM), le(g.l, LIM))))
        if self.kind == 'fs':
            g.res = ex.newblk(st, 'alloca', 'result', 24)
            return [Ptr(g.res, 0), this, g.i]
        return [this, g.i]

    def modifies(self, ex, g, st0):
        m = ArrC.modifies(self, ex, g, st0)
        if self.kind == 'fs':
            m[g.res] = None
        return m

    exc_modifies = modifies

    def post(self, ex, g, st0, st1, ret):
        L = [('returns only for an index inside a valid array', AND(g.valid, lt(g.i, g.n)))]
        k = add(g.start, g.i)
        if self.kind == 'string':
            p, l = ret.v[0], ret.v[1]
            b = g.H.str.buf(ex, st0)
            L += [('the element refers to the recorded text', IMP(ne(g.c, 0), AND(eq(p.b, b.b), eq(p.o, mulc(g.o, 2)), eq(mod(l, 1 << 32), g.l)))),
                  ('an element never set reads as null string', IMP(eq(g.c, 0), AND(eq(p.b, 0), eq(mod(l, 1 << 32), 0))))]
        elif self.kind == 'fs':
            v = fget(ex, st1, g.res, ex.P.off('uima::FeatureStructure', 'iv_tyFS'), 'i32')
            L += [('returns the feature structure whose reference is stored', eq(v, g.H.fs.at(ex, st0, k)))]
        else:
            L += [('returns the decoded element', V02.same(ret, self.dec(g.store.at(ex, st0, k))))]
        return L + self.kept(ex, g, st0, st1)


class Set(ArrC):
    def __init__(self, kind):
        ArrC.__init__(self, kind)
        self.dem = 'uima::BasicArrayFS<%s, %s>::set(unsigned long, %s const&)' % (self.cty, num(self.const), self.cty)

    def setup(self, ex, st, g):
        this = self.arr(ex, st, g)
        g.i = u('index', 0, (1 << 64) - 1)
        if self.kind == 'string':
            V02.strwf(ex, st, g)
            g.len = u('len', 0, LIM // 2)
            g.src = ex.newblk(st, 'heap', 'chars', mulc(g.len, 2))
            b = ex.newblk(st, 'heap', 'value', 16)
            fput(ex, st, b, ex.P.off('uima::UnicodeStringRef', 'iv_pUChars'), 'ptr', Ptr(g.src, 0))
            fput(ex, st, b, ex.P.off('uima::UnicodeStringRef', 'iv_uiLength'), 'i32', g.len)
            # no NUL inside the text
            st.assume(all_k(0, g.len, lambda k: ne(cell(st, g.src, k, 16), 0)))
        elif self.kind == 'fs':
            g.v = u('value', 0)
            b = self.fsobj(ex, st, g, g.v, 'value')
        else:
            g.v = V02.symval(self.bits, 'value')
            b = ex.newblk(st, 'heap', 'value', 8)
            fput(ex, st, b, 0, 'i%d' % max(self.bits, 8), ite(g.v, 1, 0) if self.bits == 1 else g.v)
        return [this, g.i, Ptr(b, 0)]

    def grown(self, g):
        return [g.H.str, g.H.ref] if self.kind == 'string' else []

    def cells(self, g):
        k = add(g.start, g.i)
        return [(g.store, k, add(k, 1))]

    def post(self, ex, g, st0, st1, ret):
        L = [('returns only for an index inside a valid array', AND(g.valid, lt(g.i, g.n)))]
        k = add(g.start, g.i)
        c = g.store.at(ex, st1, k)
        if self.kind == 'string':
            H = g.H
            r, s = H.ref, H.str
            off, ln = r.at(ex, st1, V02.refcell(c)), r.at(ex, st1, add(V02.refcell(c), 1))
            L += [('the element has a fresh string reference', AND(ge(V02.refcell(c), r.top(ex, st0)), lt(add(V02.refcell(c), 1), r.top(ex, st1)))),
                  ('the reference denotes text of the given length', eq(ln, g.len)),
                  ('the text is stored fresh', AND(ge(off, s.top(ex, st0)), lt(add(off, g.len), s.top(ex, st1)))),
                  ('the text is the given text', all_k(off, add(off, g.len), lambda j: eq(s.at(ex, st1, j), cell(st0, g.src, sub(j, off), 16)))),
                  ('existing string references are kept', all_k(0, r.top(ex, st0), lambda j: eq(r.at(ex, st1, j), r.at(ex, st0, j)))),
                  ('existing text is kept', all_k(0, s.top(ex, st0), lambda j: eq(s.at(ex, st1, j), s.at(ex, st0, j))))] + r.wf(ex, st1) + s.wf(ex, st1)
        elif self.kind == 'fs':
            L += [('the element holds the reference of the structure', eq(c, g.v))]
        else:
            L += [('the element holds the encoded value', eq(c, self.enc(g.v))),
                  ('lemma: the stored element decodes to the value that was set', V02.same(self.dec(c), g.v))]
        return L + self.kept(ex, g, st0, st1)


BULK = [k for k in KIND if k not in ('string', 'fs')]


class Copy(ArrC):
    """copyToArray(start, end, dest, off) and copyFromArray(src, start, end, off): exactly the elements start..end-1, or an exception.
    Indices are below 2^62 (no wrap-around of the 64-bit index sums)."""

    def __init__(self, kind, to):
        ArrC.__init__(self, kind)
        self.to = to
        c = 'uima::BasicArrayFS<%s, %s>::' % (self.cty, num(self.const))
        self.dem = c + ('copyToArray(unsigned long, unsigned long, %s*, unsigned long) const' if to == 1 else
                        'copyToArray(unsigned long, %s*, unsigned long, unsigned long) const' if to == 2 else
                        'copyFromArray(%s const*, unsigned long, unsigned long, unsigned long)') % self.cty

    def setup(self, ex, st, g):
        this = self.arr(ex, st, g)
        W = 1 << 62
        g.w = max(8, self.bits)
        g.s, g.e, g.d = u('start', 0, W), u('end', 0, W), u('offset', 0, W)
        st.assume(lt(g.s, g.e))
        g.m = u('outside', 0, LIM)
        g.ext = ex.newblk(st, 'heap', 'external', mulc(g.m, g.w // 8))
        g.len = sub(g.e, g.s)
        # the caller's array is large enough
        if self.to:
            st.assume(le(add(g.d, g.len), g.m))
            g.inb = le(g.e, g.n)
            if self.to == 2:
                return [this, g.s, Ptr(g.ext, 0), g.d, g.len]
            return [this, g.s, g.e, Ptr(g.ext, 0), g.d]
        st.assume(le(g.e, g.m))
        g.inb = le(add(g.d, g.len), g.n)
        return [this, Ptr(g.ext, 0), g.s, g.e, g.d]

    def mustthrow(self, ex, g, st0):
        return OR(NOT(g.valid), NOT(g.inb))

    def cells(self, g):
        if self.to:
            return []
        a = add(g.start, g.d)
        return [(g.store, a, add(a, g.len))]

    def modifies(self, ex, g, st0):
        m = ArrC.modifies(self, ex, g, st0)
        if self.to:
            m[g.ext] = [(g.w, g.d, add(g.d, g.len))] + ([('ptr', g.d, add(g.d, g.len))] if g.w == 64 else [])
        return m

    def post(self, ex, g, st0, st1, ret):
        L = [('returns only for a range inside a valid array', AND(g.valid, g.inb))]
        if self.to:
            L.append(('the elements are copied out in order', all_k(g.d, add(g.d, g.len), lambda k: eq(cell(st1, g.ext, k, g.w), g.store.at(ex, st0, add(g.start, add(g.s, sub(k, g.d))))))))
        else:
            lo = add(g.start, g.d)
            L.append(('the elements are copied in in order', all_k(lo, add(lo, g.len), lambda k: eq(g.store.at(ex, st1, k), cell(st0, g.ext, add(g.s, sub(k, lo)), g.w)))))
        return L + self.kept(ex, g, st0, st1)


class Create(ArrC):
    """createArrayFS: a fresh array of the given size with cleared elements; nothing allocated before changes"""
    throws = False
    cost = 3

    def __init__(self, kind):
        ArrC.__init__(self, kind)
        self.dem = 'uima::BasicArrayFS<%s, %s>::createArrayFS(uima::CAS&, unsigned long, bool)' % (self.cty, num(self.const))

    def setup(self, ex, st, g):
        self.cas(ex, st, g)
        g.n = var('size', 0, LIM)
        g.type = gconst(ex, st, self.const)
        g.side = getattr(g.H, self.side) if self.side else None
        g.res = ex.newblk(st, 'alloca', 'result', 24)
        return [Ptr(g.res, 0), Ptr(g.cas, 0), g.n, bvar('permanent')]

    def grown(self, g):
        return [g.H.fs] + ([g.side] if g.side else [])

    def modifies(self, ex, g, st0):
        m = ArrC.modifies(self, ex, g, st0)
        m[g.res] = None
        return m

    def exc(self, ex, g, st0, st1, e):
        return [('does not throw', False)]

    def post(self, ex, g, st0, st1, ret):
        P, fs = ex.P, g.H.fs
        t0 = fs.top(ex, st0)
        r = fget(ex, st1, g.res, P.off('uima::FeatureStructure', 'iv_tyFS'), 'i32')
        c = fget(ex, st1, g.res, P.off('uima::FeatureStructure', 'iv_cas'), 'ptr')
        L = [('the array is a fresh structure of this CAS', AND(eq(r, t0), ge(r, 1), eq(c.b, g.cas), eq(c.o, 0)))]
        if g.side is None:
            L += fs.grown(ex, st0, st1, add(g.n, 2), lambda k: ite(eq(k, t0), g.type, ite(eq(k, add(t0, 1)), g.n, 0)))
        else:
            s0 = g.side.top(ex, st0)
            L += fs.grown(ex, st0, st1, 3, lambda k: ite(eq(k, t0), g.type, ite(eq(k, add(t0, 1)), g.n, s0)))
            L += g.side.grown(ex, st0, st1, g.n)
        return L + self.kept(ex, g, st0, st1)


class Ctor(ArrC):
    """an array object made from a feature structure object: refused when the structure is of another type"""

    def __init__(self, kind):
        ArrC.__init__(self, kind)
        self.dem = 'uima::BasicArrayFS<%s, %s>::BasicArrayFS(uima::FeatureStructure const&)' % (self.cty, num(self.const))

    def setup(self, ex, st, g):
        self.cas(ex, st, g)
        H = g.H
        g.fs = u('fs', 0)
        g.type = gconst(ex, st, self.const)
        g.valid = AND(ne(g.fs, 0), lt(g.fs, H.fs.top(ex, st)))
        src = self.fsobj(ex, st, g, g.fs, 'source')
        g.this = ex.newblk(st, 'heap', 'this', 24)
        return [Ptr(g.this, 0), Ptr(src, 0)]

    def modifies(self, ex, g, st0):
        return {g.this: None}

    exc_modifies = modifies

    def exc(self, ex, g, st0, st1, e):
        return [('throws only for a structure that is no array of this kind', AND(g.valid, ne(g.H.fs.at(ex, st0, g.fs), g.type))),
                ('the exception is FSIsNotArrayException', throws(e, 'FSIsNotArrayException'))]

    def post(self, ex, g, st0, st1, ret):
        P = ex.P
        r = fget(ex, st1, g.this, P.off('uima::FeatureStructure', 'iv_tyFS'), 'i32')
        c = fget(ex, st1, g.this, P.off('uima::FeatureStructure', 'iv_cas'), 'ptr')
        return [('a valid structure is an array of this kind', IMP(g.valid, eq(g.H.fs.at(ex, st0, g.fs), g.type))),
                ('refers to the given structure', AND(eq(r, g.fs), eq(c.b, g.cas)))]


def cas_for(ex, st, args, i, dem):
    """assumed: getCasForTyFS returns some view of the same CAS and changes nothing"""
    return args[0]


STUBS = STUBS + [(re.compile(r'uima::CAS::getCasForTyFS\('), cas_for)]
CONTRACTS = LIB + [c(k) for c in (Size, Get, Set, Create, Ctor) for k in KIND] + [Copy(k, t) for k in BULK for t in (0, 1)]
ASSUMPTIONS = ['CAS::getCasForTyFS (the view an annotation belongs to) returns a CAS and has no side effect', 'building and logging error messages does not change CAS data']
