"""V08: lists hold the elements put into them, in order; every operation keeps all the others."""
from api import *
import V02
import V11
from V03 import num

LEVEL = 'proof'
TUS = ['cas/listfs.cpp', 'cas/featurestructure.cpp', 'cas/lowlevel_fsheap.cpp', 'cas/internal_typeshortcuts.cpp', 'cas/internal_fspromoter.cpp', 'cas/cas.cpp', 'cas/lowlevel_typesystem.cpp', 'cas/typesystem.cpp']
REPLAY = 'V08.cpp'
FS = 'uima::FeatureStructure'

# kind -> (element type, element parameter, infix of the constants, encode, decode)
KIND = {'fs': (FS, FS + ' const&', ''), 'float': ('float', 'float const&', 'Float'), 'int': ('int', 'int const&', 'Int'), 'string': ('uima::UnicodeStringRef', 'uima::UnicodeStringRef const&', 'String')}


def consts(inf):
    return ['gs_ty%sListType' % (inf or 'FS'), 'gs_tyE%sListType' % inf, 'gs_tyNE%sListType' % inf, 'gs_ty%sHeadFeature' % inf, 'gs_ty%sTailFeature' % inf]


class Lst:
    """ghost view of the list that starts at fs: its elements node(0) .. node(n-1), ended by the empty list node(n)"""

    def __init__(self, c, ex, st, g, name, fs, cond):
        self.name, self.fs, self.cond = name, fs, cond
        self.n = n = u(name + ' length', 0, LIM)
        self.node = lambda i: uf(name + '.node', i, lo=0, hi=LIM)
        self.idx = lambda x: uf(name + '.idx', x, lo=0, hi=LIM)
        H = g.H.fs
        self.head = lambda i: H.at(ex, g.st0 if hasattr(g, 'st0') else st, add(self.node(i), g.ho))
        self.facts = []
        top = H.top(ex, st)
        st.assume(IMP(cond, eq(self.node(0), fs)))
        i = bound('i')
        x = self.node(i)
        st.assume(FORALL(i, IMP(AND(cond, le(0, i), lt(i, n)), AND(le(1, x), lt(add(x, g.ho), top), lt(add(x, g.to), top), eq(H.at(ex, st, x), g.NE),
                                                                  eq(H.at(ex, st, add(x, g.to)), self.node(add(i, 1))), eq(self.idx(x), i))), [x]))
        e = self.node(n)
        st.assume(IMP(cond, AND(le(1, e), lt(e, top), eq(H.at(ex, st, e), g.E), eq(self.idx(e), n))))

    def apart(self, st, g, j):
        """no other element of the list lies over element j (structures do not overlap)"""
        i = bound('i')
        x, y = self.node(i), self.node(j)
        sz = add(g.nn, 1)
        st.assume(FORALL(i, IMP(AND(self.cond, le(0, i), le(i, self.n), ne(i, j)), OR(le(add(x, sz), y), le(add(y, sz), x))), [x]))


class ListC(ApiC):
    throws = True
    res = False           # returns an object

    def __init__(self, kind):
        self.kind = kind
        self.ty, self.pty, self.inf = KIND[kind]
        self.cls = 'uima::BasicListFS<%s, %s>' % (self.ty, ', '.join(num(c) for c in consts(self.inf)))
        self.targs = self.cls[len('uima::BasicListFS'):]
        self.dem = self.cls + '::' + self.sig()

    def sig(self):
        raise NotImplementedError

    def kinds(self, ex, st, g):
        """type system and constants of the kind"""
        self.cas(ex, st, g)
        g.LIST, g.E, g.NE, g.hf, g.tf = [gconst(ex, st, c) for c in consts(self.inf)]
        ts = g.ts
        g.ho, g.to = ts.featoff(st, g.hf), ts.featoff(st, g.tf)
        g.nn, g.en = ts.featnum(st, g.NE), ts.featnum(st, g.E)
        for f in (g.hf, g.tf):
            st.assume(lt(f, ts.nf))
        for t in (g.LIST, g.E, g.NE):
            st.assume(AND(lt(t, ts.nt), pred('subsumes', g.LIST, t)))
        # features of the non-empty list (V13): own cells, inside the structure
        st.assume(AND(le(1, g.ho), le(1, g.to), ne(g.ho, g.to), le(g.ho, g.nn), le(g.to, g.nn), le(g.nn, 1 << 20), le(g.en, 1 << 20)))

    def list(self, ex, st, g, name='list'):
        """a list object: valid and at a list of the kind, or not valid"""
        fs, has = u(name, 0), bvar(name + ' has a CAS')
        b = self.fsobj(ex, st, g, fs, name)
        fput(ex, st, b, ex.P.off(FS, 'iv_cas'), 'ptr', Ptr(ite(has, g.cas, 0), 0))
        valid = AND(has, ne(fs, 0), lt(fs, g.H.fs.top(ex, st)))
        l = Lst(self, ex, st, g, name, fs, valid)
        l.b, l.valid = b, valid
        return l

    def element(self, ex, st, g):
        """the value given, as a const reference; g.isval(c): what `== value` says about the value in cell c; g.enc: the cell of the value"""
        k = self.kind
        if k == 'fs':
            g.v = u('value', 0)
            b = self.fsobj(ex, st, g, g.v, 'value')
            g.isval = lambda c: eq(c, g.v)
            return Ptr(b, 0)
        if k == 'string':
            g.len = u('len', 0, LIM // 2)
            g.src = ex.newblk(st, 'heap', 'chars', mulc(g.len, 2))
            st.assume(all_k(0, g.len, lambda i: ne(cell(st, g.src, i, 16), 0)))
            b = ex.newblk(st, 'heap', 'value', 16)
            fput(ex, st, b, ex.P.off('uima::UnicodeStringRef', 'iv_pUChars'), 'ptr', Ptr(g.src, 0))
            fput(ex, st, b, ex.P.off('uima::UnicodeStringRef', 'iv_uiLength'), 'i32', g.len)
            g.valb = b
            r = g.H.ref

            def isval(c):
                s0 = g.st0 if hasattr(g, 'st0') else st
                rc = V02.refcell(c)
                return ite(eq(c, 0), pred('null is the value'), pred('text is the value', r.at(ex, s0, rc), r.at(ex, s0, add(rc, 1))))
            g.isval = isval
            return Ptr(b, 0)
        g.v = u('value', 0)
        b = ex.newblk(st, 'heap', 'value', 4)
        fput(ex, st, b, 0, 'i32', g.v)
        if k == 'float':
            x = bound('x')
            st.assume(FORALL(x, IFF(pred('feq32', g.v, x), pred('feq32', x, g.v)), [pred('feq32', g.v, x)]))
            g.isval = lambda c: pred('feq32', c, g.v)
        else:
            g.isval = lambda c: eq(c, g.v)
        return Ptr(b, 0)

    def strpre(self, ex, st, g, c, cond):
        """cell c of the heap holds null or a string reference"""
        st.assume(IMP(cond, OR(eq(c, 0), AND(lt(add(V02.refcell(c), 1), g.H.ref.top(ex, st)), le(g.H.ref.at(ex, st, V02.refcell(c)), LIM), le(g.H.ref.at(ex, st, add(V02.refcell(c), 1)), LIM)))))

    def headstr(self, ex, st, g, l):
        """string lists: every head is null or a string reference"""
        if self.kind == 'string':
            i = bound('i')
            c = l.head(i)
            rc = V02.refcell(c)
            R = g.H.ref
            st.assume(FORALL(i, IMP(AND(l.cond, le(0, i), lt(i, l.n), ne(c, 0)), AND(lt(add(rc, 1), R.top(ex, st)), le(R.at(ex, st, rc), LIM), le(R.at(ex, st, add(rc, 1)), LIM))), [l.node(i)]))

    def holds(self, ex, g, st0, st1, c):
        """[(label, formula)]: cell value c is the value given"""
        if self.kind != 'string':
            return [('the head of the element holds the value', eq(c, g.v))]
        r, s = g.H.ref, g.H.str
        rc = V02.refcell(c)
        off, ln = r.at(ex, st1, rc), r.at(ex, st1, add(rc, 1))
        t0, t1 = r.top(ex, st0), r.top(ex, st1)
        return [('the head of the element has a string reference', AND(ge(c, 1), lt(add(rc, 1), t1))),
                ('the reference denotes text of the given length', eq(ln, g.len)),
                ('the text is stored fresh', AND(ge(off, s.top(ex, st0)), lt(add(off, g.len), s.top(ex, st1)))),
                ('the text is the given text', all_k(off, add(off, g.len), lambda j: eq(s.at(ex, st1, j), cell(st0, g.src, sub(j, off), 16)))),
                ('no other string reference changes', all_k(0, t0, lambda k: OR(eq(k, rc), eq(k, add(rc, 1)), eq(r.at(ex, st1, k), r.at(ex, st0, k))))),
                ('text of other strings is kept', all_k(0, s.top(ex, st0), lambda j: eq(s.at(ex, st1, j), s.at(ex, st0, j))))] + r.wf(ex, st1) + s.wf(ex, st1)

    def strheaps(self, g):
        return [g.H.ref, g.H.str] if self.kind == 'string' else []

    # ---- results
    def result(self, ex, st, g):
        g.res = ex.newblk(st, 'alloca', 'result', 24)
        return Ptr(g.res, 0)

    def rfs(self, ex, st, g):
        return fget(ex, st, g.res, ex.P.off(FS, 'iv_tyFS'), 'i32')

    def rcas(self, ex, st, g):
        return fget(ex, st, g.res, ex.P.off(FS, 'iv_cas'), 'ptr')

    def returns(self, ex, st, g, doc, x):
        return [('returns ' + doc, eq(self.rfs(ex, st, g), x)), ('the returned object belongs to the CAS', AND(eq(self.rcas(ex, st, g).b, g.cas), eq(self.rcas(ex, st, g).o, 0)))]

    def objs(self, g):
        """list objects that may be redirected to another reference"""
        return []

    def modifies(self, ex, g, st0):
        m = ApiC.modifies(self, ex, g, st0)
        for b in self.objs(g):
            m[b] = None          # kept() says that the object stays in its CAS
        if hasattr(g, 'res'):
            m[g.res] = None
        for b in getattr(g, 'scratch', ()):
            m[b] = None
        return m

    def exc_modifies(self, ex, g, st0):
        return {b: None for b in [getattr(g, 'res', None)] + list(getattr(g, 'scratch', ())) if b is not None}

    def ladder(self, g):
        return [(NOT(g.l.valid), 'InvalidFSObjectException', 'an object without a valid structure')]

    def exc(self, ex, g, st0, st1, e):
        lad = self.ladder(g)
        L = [('an exception is thrown only for what the operation refuses', OR(*[c for c, _, _ in lad]))]
        before = []
        for c, x, doc in lad:
            L.append(('%s is reported as %s' % (doc, x), IMP(AND(*(before + [c])), throws(e, x))))
            before.append(NOT(c))
        return L + [('nothing is allocated', AND(*[eq(h.top(ex, st0), h.top(ex, st1)) for h in g.H.h.values()]))]

    def ok(self, g):
        return ('returns only for what the operation accepts', AND(*[NOT(c) for c, _, _ in self.ladder(g)]))

    def oldcells(self, ex, g, st0, st1, *changed):
        """every cell allocated before, except the changed ones, keeps its value"""
        fs = g.H.fs
        return [('every other feature of every structure is kept', all_k(0, fs.top(ex, st0), lambda k: OR(*([eq(k, c) for c in changed] + [eq(fs.at(ex, st1, k), fs.at(ex, st0, k))]))))]

    def kept(self, ex, g, st0, st1):
        o = ex.P.off(FS, 'iv_cas')
        L = [('the object stays in its CAS', AND(eq(fget(ex, st1, b, o, 'ptr').b, fget(ex, st0, b, o, 'ptr').b), eq(fget(ex, st1, b, o, 'ptr').o, fget(ex, st0, b, o, 'ptr').o))) for b in self.objs(g)]
        return L + ApiC.kept(self, ex, g, st0, st1)

    def inv(self, ex, lc):
        """the current element is an element of the list; counters give its position"""
        g = ex.g
        L = []
        for l in getattr(g, 'lists', ()):
            for key, (nm_, w) in lc.ints.items():
                if w != 32:
                    continue
                at = lambda v, key=key, l=l: AND(eq(l.node(l.idx(v[key])), v[key]), lt(l.idx(v[key]), l.n))
                L.append(('%s is an element of %s' % (nm_, l.name), lambda v, s, at=at: at(v)))
                L.append(('%s is an element of %s or its end' % (nm_, l.name), lambda v, s, key=key, l=l: AND(eq(l.node(l.idx(v[key])), v[key]), le(l.idx(v[key]), l.n))))
                if hasattr(g, 'r'):
                    L.append(('%s comes before the first match' % nm_, lambda v, s, key=key, l=l: lt(l.idx(v[key]), g.r)))
                    L.append(('%s does not come after the first match' % nm_, lambda v, s, key=key, l=l: le(l.idx(v[key]), g.r)))
                for k2, (n2, w2) in lc.ints.items():
                    if k2 != key:
                        for d in (0, 1):
                            L.append(('%s = position of %s %+d' % (n2, nm_, d), lambda v, s, key=key, k2=k2, l=l, d=d: eq(v[k2], add(l.idx(v[key]), d))))
                            if w2 == 32 and d == 1:
                                L.append(('%s follows %s' % (n2, nm_), lambda v, s, key=key, k2=k2, l=l: AND(eq(l.idx(v[k2]), add(l.idx(v[key]), 1)), eq(v[k2], l.node(l.idx(v[k2]))))))
        return L

    def grownfs(self, ex, g, st0, st1):
        return g.H.fs.wf(ex, st1)


class IsEmpty(ListC):
    sig = lambda self: 'isEmpty() const'

    def setup(self, ex, st, g):
        self.kinds(ex, st, g)
        g.l = self.list(ex, st, g)
        g.lists = [g.l]
        return [Ptr(g.l.b, 0)]

    def post(self, ex, g, st0, st1, ret):
        return [self.ok(g), ('true exactly for a list without elements', IFF(ret, eq(g.l.n, 0)))] + self.kept(ex, g, st0, st1)


class GetLength(IsEmpty):
    sig = lambda self: 'getLength() const'

    def post(self, ex, g, st0, st1, ret):
        return [self.ok(g), ('returns the number of elements', eq(ret, g.l.n))] + self.kept(ex, g, st0, st1)


class NonEmpty(IsEmpty):
    def ladder(self, g):
        return ListC.ladder(self, g) + [(eq(g.l.n, 0), 'ListIsEmptyException', 'an empty list')]


class GetHead(NonEmpty):
    sig = lambda self: 'getHead() const'

    def setup(self, ex, st, g):
        a = NonEmpty.setup(self, ex, st, g)
        g.c = g.l.head(0)
        if self.kind == 'string':
            self.strpre(ex, st, g, g.c, AND(g.l.valid, ge(g.l.n, 1)))
        return ([self.result(ex, st, g)] if self.kind == 'fs' else []) + a

    def post(self, ex, g, st0, st1, ret):
        c = g.c
        if self.kind == 'fs':
            L = self.returns(ex, st1, g, 'the head of the first element', c)
        elif self.kind == 'string':
            p, l = ret.v[0], ret.v[1]
            if isinstance(p, int):
                raise Undecided('string result in an unexpected shape')
            r = g.H.ref
            o, n = r.at(ex, st0, V02.refcell(c)), r.at(ex, st0, add(V02.refcell(c), 1))
            b = g.H.str.buf(ex, st0)
            L = [('returns the text of the head of the first element', IMP(ne(c, 0), AND(eq(p.b, b.b), eq(p.o, mulc(o, 2)), eq(mod(l, 1 << 32), n)))),
                 ('a head never set reads as null string', IMP(eq(c, 0), AND(eq(p.b, 0), eq(mod(l, 1 << 32), 0))))]
        else:
            L = [('returns the head of the first element', eq(ret, c))]
        return [self.ok(g)] + L + self.kept(ex, g, st0, st1)


class SetHead(NonEmpty):
    cost = 2

    def sig(self):
        return 'setHead(%s)' % self.pty

    def setup(self, ex, st, g):
        a = NonEmpty.setup(self, ex, st, g)
        v = self.element(ex, st, g)
        if self.kind == 'string':
            V02.strwf(ex, st, g)
            self.strpre(ex, st, g, g.l.head(0), AND(g.l.valid, ge(g.l.n, 1)))
        return a + [v]

    def grown(self, g):
        return self.strheaps(g)

    def cells(self, g):
        c = add(g.l.fs, g.ho)
        return [(g.H.fs, c, add(c, 1))]

    def post(self, ex, g, st0, st1, ret):
        return [self.ok(g)] + self.holds(ex, g, st0, st1, g.H.fs.at(ex, st1, add(g.l.fs, g.ho))) + self.kept(ex, g, st0, st1)


class GetTail(NonEmpty):
    sig = lambda self: 'getTail() const'

    def setup(self, ex, st, g):
        a = NonEmpty.setup(self, ex, st, g)
        return [self.result(ex, st, g)] + a

    def post(self, ex, g, st0, st1, ret):
        return [self.ok(g)] + self.returns(ex, st1, g, 'the list of the elements after the first', g.l.node(1)) + self.kept(ex, g, st0, st1)


class MoveToNext(NonEmpty):
    sig = lambda self: 'moveToNext()'

    def objs(self, g):
        return [g.l.b]

    def post(self, ex, g, st0, st1, ret):
        return [self.ok(g), ('the object is at the list of the elements after the first', eq(fget(ex, st1, g.l.b, ex.P.off(FS, 'iv_tyFS'), 'i32'), g.l.node(1)))] + self.kept(ex, g, st0, st1)


class Two(ListC):
    def setup(self, ex, st, g):
        self.kinds(ex, st, g)
        g.l = self.list(ex, st, g)
        g.m = self.list(ex, st, g, 'other')
        g.lists = [g.l, g.m]
        g.scratch = [g.m.b]           # an argument passed by value
        return [Ptr(g.l.b, 0), Ptr(g.m.b, 0)]

    def ladder(self, g):
        return [(OR(NOT(g.l.valid), NOT(g.m.valid)), 'InvalidFSObjectException', 'an object without a valid structure')]


class SetTail(Two):
    def sig(self):
        return 'setTail(%s)' % self.cls

    def ladder(self, g):
        return Two.ladder(self, g) + [(eq(g.l.n, 0), 'ListIsEmptyException', 'an empty list')]

    def cells(self, g):
        c = add(g.l.fs, g.to)
        return [(g.H.fs, c, add(c, 1))]

    def post(self, ex, g, st0, st1, ret):
        return [self.ok(g), ('the other list follows the first element', eq(g.H.fs.at(ex, st1, add(g.l.fs, g.to)), g.m.fs))] + self.kept(ex, g, st0, st1)


class Join(Two):
    """append(other), prepend(other)"""
    cost = 2

    def __init__(self, kind, name):
        self.opname = name
        ListC.__init__(self, kind)

    def sig(self):
        return '%s(%s)' % (self.opname, self.cls)

    def setup(self, ex, st, g):
        a = Two.setup(self, ex, st, g)
        g.a, g.z = (g.l, g.m) if self.opname == 'append' else (g.m, g.l)      # a comes before z
        g.a.apart(st, g, sub(g.a.n, 1))
        # lists without a common element (two empty lists may be one and the same)
        i, j = bound('i'), bound('j')
        sz = add(g.nn, 1)
        x, y = g.z.node(i), g.a.node(sub(g.a.n, 1))
        g.same = eq(g.l.fs, g.m.fs)
        st.assume(FORALL(i, IMP(AND(g.l.valid, g.m.valid, NOT(g.same), ge(g.a.n, 1), le(0, i), le(i, g.z.n)), OR(le(add(x, sz), y), le(add(y, sz), x))), [x]))
        return [self.result(ex, st, g)] + a

    def ladder(self, g):
        return Two.ladder(self, g) + [(AND(g.same, ge(g.l.n, 1)), 'ListIsCircularException', 'joining a list with itself')]

    def objs(self, g):
        return [g.l.b]

    def modifies(self, ex, g, st0):
        m = Two.modifies(self, ex, g, st0)
        # only the link behind the last element of the first part
        c = add(g.a.node(sub(g.a.n, 1)), g.to)
        m.setdefault(g.H.fs.buf0, []).append((32, ite(ge(g.a.n, 1), c, 0), ite(ge(g.a.n, 1), add(c, 1), 0)))
        return m

    def post(self, ex, g, st0, st1, ret):
        fs = g.H.fs
        a, z = g.a, g.z
        front = ite(ge(a.n, 1), a.fs, z.fs)
        at = lambda x, o: fs.at(ex, st1, add(x, o))
        return [self.ok(g), ('the list starts with the first element of the first part', eq(fget(ex, st1, g.l.b, ex.P.off(FS, 'iv_tyFS'), 'i32'), front))] + \
            self.returns(ex, st1, g, 'the joined list', front) + \
            [('the second part follows the last element of the first', IMP(ge(a.n, 1), eq(at(a.node(sub(a.n, 1)), g.to), z.fs))),
             ('the elements of the first part stay in order', all_k(0, sub(a.n, 1), lambda i: AND(eq(fs.at(ex, st1, a.node(i)), g.NE), eq(at(a.node(i), g.ho), a.head(i)), eq(at(a.node(i), g.to), a.node(add(i, 1)))))),
             ('the last element of the first part keeps its value', IMP(ge(a.n, 1), eq(at(a.node(sub(a.n, 1)), g.ho), a.head(sub(a.n, 1))))),
             ('the elements of the second part stay in order', all_k(0, z.n, lambda i: AND(eq(fs.at(ex, st1, z.node(i)), g.NE), eq(at(z.node(i), g.ho), z.head(i)), eq(at(z.node(i), g.to), z.node(add(i, 1)))))),
             ('the end of the second part stays an empty list', eq(fs.at(ex, st1, z.node(z.n)), g.E))] + self.kept(ex, g, st0, st1)


class Add(ListC):
    """addFirst(value), addLast(value)"""
    cost = 4

    def __init__(self, kind, first):
        self.first = first
        ListC.__init__(self, kind)

    def sig(self):
        return '%s(%s)' % ('addFirst' if self.first else 'addLast', self.pty)

    def setup(self, ex, st, g):
        self.kinds(ex, st, g)
        g.l = self.list(ex, st, g)
        g.lists = [g.l]
        if not self.first:
            g.l.apart(st, g, sub(g.l.n, 1))
        v = self.element(ex, st, g)
        if self.kind == 'string':
            V02.strwf(ex, st, g)
        return [self.result(ex, st, g), Ptr(g.l.b, 0), v]

    def grown(self, g):
        return [g.H.fs] + self.strheaps(g)

    def objs(self, g):
        return [g.l.b]

    def post(self, ex, g, st0, st1, ret):
        fs, l = g.H.fs, g.l
        t0, t1 = fs.top(ex, st0), fs.top(ex, st1)
        n = t0
        at = lambda x, o: fs.at(ex, st1, add(x, o))
        this = fget(ex, st1, l.b, ex.P.off(FS, 'iv_tyFS'), 'i32')
        L = [self.ok(g), ('one structure is allocated', eq(t1, add(t0, add(g.nn, 1)))), ('it is a list element', eq(fs.at(ex, st1, n), g.NE))] + self.holds(ex, g, st0, st1, at(n, g.ho))
        L += [('only head and tail of the new element are set', all_k(1, add(g.nn, 1), lambda k: OR(eq(k, g.ho), eq(k, g.to), eq(at(n, k), 0))))]
        if self.first:
            L += [('the new element is followed by the list', eq(at(n, g.to), l.fs)), ('the object is at the new element', eq(this, n))] + \
                self.returns(ex, st1, g, 'the list that starts with the new element', n) + self.oldcells(ex, g, st0, st1)
        else:
            last = l.node(sub(l.n, 1))
            L += [('the new element is followed by the end of the list', eq(at(n, g.to), l.node(l.n))),
                  ('the new element follows the last one', IMP(ge(l.n, 1), eq(at(last, g.to), n))),
                  ('the object stays at the first element, or is at the new one when there was none', eq(this, ite(ge(l.n, 1), l.fs, n))),
                  ('the elements before stay in order', all_k(0, sub(l.n, 1), lambda i: AND(eq(fs.at(ex, st1, l.node(i)), g.NE), eq(at(l.node(i), g.ho), l.head(i)), eq(at(l.node(i), g.to), l.node(add(i, 1)))))),
                  ('every other feature of every structure is kept', all_k(0, t0, lambda k: OR(AND(ge(l.n, 1), eq(k, add(last, g.to))), eq(fs.at(ex, st1, k), fs.at(ex, st0, k)))))] + \
                self.returns(ex, st1, g, 'the list that starts with the new element', n)
        return L + fs.wf(ex, st1) + self.kept(ex, g, st0, st1)


class Remove(ListC):
    """removeElement(value): takes out the first element with that value"""
    cost = 5
    lo = 0

    def sig(self):
        return 'removeElement(%s)' % self.pty

    def setup(self, ex, st, g):
        self.kinds(ex, st, g)
        l = g.l = self.list(ex, st, g)
        g.lists = [l]
        v = self.element(ex, st, g)
        self.headstr(ex, st, g, l)
        self.first(ex, st, g)
        return [self.result(ex, st, g), Ptr(l.b, 0), v]

    def first(self, ex, st, g):
        """g.r: position of the first element (from position lo) with the value, or the length"""
        l = g.l
        g.r = u('position of the first match', self.lo, LIM)
        i = bound('i')
        st.assume(IMP(l.cond, le(g.r, l.n)))
        st.assume(FORALL(i, IMP(AND(l.cond, le(self.lo, i), lt(i, g.r)), NOT(g.isval(l.head(i)))), [l.node(i)]))
        st.assume(IMP(AND(l.cond, lt(g.r, l.n)), g.isval(l.head(g.r))))
        l.apart(st, g, g.r)
        l.apart(st, g, sub(g.r, 1))

    def grown(self, g):
        return [g.H.fs]

    def objs(self, g):
        return [g.l.b]

    def rel(self, ex, g, st0, st1, thisfs):
        fs, l = g.H.fs, g.l
        t0, t1 = fs.top(ex, st0), fs.top(ex, st1)
        hit = lt(g.r, l.n)
        x = l.node(g.r)
        p = l.node(sub(g.r, 1))
        at = lambda x_, o: fs.at(ex, st1, add(x_, o))
        L = [('one empty list is allocated, for the removed element', IMP(hit, AND(eq(t1, add(t0, add(g.en, 1))), eq(fs.at(ex, st1, t0), g.E), all_k(add(t0, 1), t1, lambda k: eq(fs.at(ex, st1, k), 0))))),
             ('nothing is allocated without a match', OR(hit, eq(t1, t0))),
             ('the removed element becomes a list of its own', IMP(hit, eq(at(x, g.to), t0))),
             ('the element before the removed one is followed by the element after it', IMP(AND(hit, ge(g.r, 1)), eq(at(p, g.to), l.node(add(g.r, 1))))),
             ('every other feature of every structure is kept', all_k(0, t0, lambda k: OR(AND(hit, eq(k, add(x, g.to))), AND(hit, ge(g.r, 1), eq(k, add(p, g.to))), eq(fs.at(ex, st1, k), fs.at(ex, st0, k)))))]
        if thisfs is not None:
            L.append(('the object moves on only when its first element is removed', eq(thisfs, ite(AND(hit, eq(g.r, 0)), l.node(1), l.fs))))
        r, c = self.rfs(ex, st1, g), self.rcas(ex, st1, g)
        L += [('returns the removed element, or an invalid object when no element has the value', eq(r, ite(hit, x, 0))),
              ('the returned object belongs to the CAS', IMP(hit, AND(eq(c.b, g.cas), eq(c.o, 0)))), ('an invalid object belongs to no CAS', OR(hit, eq(c.b, 0)))]
        return L

    def post(self, ex, g, st0, st1, ret):
        l = g.l
        this = fget(ex, st1, l.b, ex.P.off(FS, 'iv_tyFS'), 'i32')
        return [self.ok(g)] + self.rel(ex, g, st0, st1, this) + g.H.fs.wf(ex, st1) + self.kept(ex, g, st0, st1)


class Delete(Remove):
    """deleteElementFromList(list, heap, value): the same from the second element on; at call sites (removeElement and its own
    recursion) only this contract is known"""
    lo = 1
    throws = False
    optional = True

    def inline_callee(self, dem):
        return False

    def __init__(self, kind):
        Remove.__init__(self, kind)
        self.dem = '%s uima::deleteElementFromList%s(%s&, uima::lowlevel::FSHeap&, %s)' % (self.cls, self.targs, self.cls, self.pty)

    def setup(self, ex, st, g):
        a = Remove.setup(self, ex, st, g)
        st.assume(AND(g.l.valid, ge(g.l.n, 1)))
        return [a[0], a[1], Ptr(g.H.b, 0), a[2]]

    def objs(self, g):
        return []

    def post(self, ex, g, st0, st1, ret):
        return self.rel(ex, g, st0, st1, g.l.fs) + g.H.fs.wf(ex, st1) + self.kept(ex, g, st0, st1)

    def exc(self, ex, g, st0, st1, e):
        return [('does not throw', False)]

    def call(self, ex, st, args):
        res, lp, hp, vp = args
        g = ex.g
        P, l, fs = ex.P, g.l, g.H.fs
        lb = ex.resolve(st, lp)
        rb = ex.resolve(st, res)
        if len(lb) != 1 or len(rb) != 1:
            raise Undecided('list object at an unknown place')
        x = fget(ex, lb[0][0], lb[0][1], add(lp.o, P.off(FS, 'iv_tyFS')), 'i32')
        c = fget(ex, lb[0][0], lb[0][1], add(lp.o, P.off(FS, 'iv_cas')), 'ptr')
        r = lambda lb_, f: ex.oblige(st, 'requires of deleteElementFromList: ' + lb_, f, 'pre')
        r('a list with an element', AND(l.cond, eq(l.node(l.idx(x)), x), lt(l.idx(x), l.n)))
        r('the value is not before the second element', lt(l.idx(x), g.r))
        if isinstance(ex.curcontract, Delete):
            r('the recursion goes on with a later element (termination)', gt(l.idx(x), l.idx(l.fs)))
        r('the list belongs to the CAS', AND(eq(c.b, g.cas), eq(c.o, 0)))
        r('the heap of the CAS', AND(eq(hp.b, g.H.b), eq(hp.o, 0)))
        r('nothing has changed yet', AND(eq(fs.top(ex, st), fs.top(ex, g.st0)), all_k(0, fs.top(ex, st), lambda k: eq(fs.at(ex, st, k), fs.at(ex, g.st0, k)))))
        self.samevalue(ex, st, g, vp, r)
        hit = lt(g.r, l.n)
        out = []
        s1, s2 = st.copy(), st
        s2.assume(NOT(hit))
        if not s2.dead:
            rb = ex.resolve(s2, res)[0][1]
            fput(ex, s2, rb, add(res.o, P.off(FS, 'iv_tyFS')), 'i32', 0)
            fput(ex, s2, rb, add(res.o, P.off(FS, 'iv_cas')), 'ptr', NULL)
            out.append(('ret', s2, None))
        s1.assume(hit)
        if not s1.dead:
            rb = ex.resolve(s1, res)[0][1]
            old = fs.buf(ex, s1).b
            c1 = fresh('cells', 1)
            s1.assume(le(c1, 4294967295))
            nb = ex.newblk(s1, 'heap', 'grown', mulc(c1, fs.sz))
            ob = s1.mem[old].copy()
            ob.live = False
            s1.mem[old] = ob
            fput(ex, s1, fs.b, fs.o_buf, 'ptr', Ptr(nb, 0))
            fput(ex, s1, fs.b, fs.o_top, 'i32', add(fs.top(ex, g.st0), add(g.en, 1)))
            fput(ex, s1, fs.b, fs.o_cells, 'i32', c1)
            fput(ex, s1, rb, add(res.o, P.off(FS, 'iv_tyFS')), 'i32', l.node(g.r))
            fput(ex, s1, rb, add(res.o, P.off(FS, 'iv_cas')), 'ptr', Ptr(g.cas, 0))
            g2 = type(g)()
            g2.__dict__.update(g.__dict__)
            g2.res = rb
            for lb_, f in Remove.rel(self, ex, g2, g.st0, s1, None)[:5] + fs.wf(ex, s1):
                s1.assume(f)
            out.append(('ret', s1, None))
        return out

    def samevalue(self, ex, st, g, vp, r):
        v = ex.resolve(st, vp)
        if len(v) != 1:
            raise Undecided('value at an unknown place')
        b = v[0][1]
        if self.kind == 'fs':
            r('the same value', AND(eq(fget(ex, st, b, add(vp.o, ex.P.off(FS, 'iv_tyFS')), 'i32'), g.v), eq(fget(ex, st, b, add(vp.o, ex.P.off(FS, 'iv_cas')), 'ptr').b, g.cas)))
        elif self.kind == 'string':
            o = ex.P.off('uima::UnicodeStringRef', 'iv_uiLength')
            p = fget(ex, st, b, vp.o, 'ptr')
            r('the same value', AND(eq(p.b, g.src), eq(p.o, 0), eq(fget(ex, st, b, add(vp.o, o), 'i32'), g.len)))
        else:
            r('the same value', eq(fget(ex, st, b, vp.o, 'i32'), g.v))


class Create(ListC):
    """createListFS(cas), createListFS(cas, head)"""
    throws = False

    def __init__(self, kind, head):
        self.withhead = head
        ListC.__init__(self, kind)

    def sig(self):
        return 'createListFS(uima::CAS&, %sbool)' % (self.pty + ', ' if self.withhead else '')

    def setup(self, ex, st, g):
        self.kinds(ex, st, g)
        a = [self.result(ex, st, g), Ptr(g.cas, 0)]
        if self.withhead:
            a.append(self.element(ex, st, g))
            if self.kind == 'string':
                V02.strwf(ex, st, g)
        return a + [bvar('permanent')]

    def grown(self, g):
        return [g.H.fs] + (self.strheaps(g) if self.withhead else [])

    def exc(self, ex, g, st0, st1, e):
        return [('does not throw', False)]

    def post(self, ex, g, st0, st1, ret):
        fs = g.H.fs
        t0, t1 = fs.top(ex, st0), fs.top(ex, st1)
        at = lambda x, o: fs.at(ex, st1, add(x, o))
        r = self.rfs(ex, st1, g)
        L = [('the returned object belongs to the CAS', AND(eq(self.rcas(ex, st1, g).b, g.cas), eq(self.rcas(ex, st1, g).o, 0))), ('the list is fresh', AND(le(t0, r), lt(r, t1), le(1, r)))]
        if self.withhead:
            e = at(r, g.to)
            L += [('a list element', eq(fs.at(ex, st1, r), g.NE)), ('followed by a fresh empty list', AND(le(t0, e), lt(e, t1), eq(fs.at(ex, st1, e), g.E))),
                  ('element and empty list are separate', AND(le(add(r, add(g.nn, 1)), t1), le(add(e, add(g.en, 1)), t1), OR(le(add(r, add(g.nn, 1)), e), le(add(e, add(g.en, 1)), r))))] + self.holds(ex, g, st0, st1, at(r, g.ho))
        else:
            L += [('an empty list', eq(fs.at(ex, st1, r), g.E))]
        return L + self.oldcells(ex, g, st0, st1) + fs.wf(ex, st1) + self.kept(ex, g, st0, st1)


class Make(ListC):
    """list objects from a structure: only for structures of the list types"""

    def __init__(self, kind, conv):
        self.conv = conv
        ListC.__init__(self, kind)

    def sig(self):
        return 'BasicListFS(%s)' % ('uima::FeatureStructure const&' if self.conv else 'unsigned int, uima::CAS&, bool')

    def setup(self, ex, st, g):
        P = ex.P
        self.kinds(ex, st, g)
        g.fs = u('fs', 0)
        g.self = ex.newblk(st, 'heap', 'new object', 24)
        g.scratch = [g.self]
        H = g.H.fs
        t = H.at(ex, st, g.fs)
        inside = AND(ne(g.fs, 0), lt(g.fs, H.top(ex, st)))
        st.assume(IMP(inside, AND(le(1, t), lt(t, g.ts.nt))))
        g.islist = pred('subsumes', g.LIST, t)
        if self.conv:
            g.has = bvar('has a CAS')
            g.inside = AND(g.has, inside)
            b = self.fsobj(ex, st, g, g.fs, 'structure')
            fput(ex, st, b, P.off(FS, 'iv_cas'), 'ptr', Ptr(ite(g.has, g.cas, 0), 0))
            return [Ptr(g.self, 0), Ptr(b, 0)]
        g.inside, g.has = inside, True
        g.check = bvar('checks')
        return [Ptr(g.self, 0), g.fs, Ptr(g.cas, 0), g.check]

    def ladder(self, g):
        if self.conv:
            return [(AND(g.inside, NOT(g.islist)), 'FSIsNotListException', 'a structure that is no list of the kind')]
        return [(AND(g.check, NOT(g.inside)), 'InvalidFSObjectException', 'an invalid structure'), (AND(g.check, NOT(g.islist)), 'FSIsNotListException', 'a structure that is no list of the kind')]

    def post(self, ex, g, st0, st1, ret):
        t = fget(ex, st1, g.self, ex.P.off(FS, 'iv_tyFS'), 'i32')
        c = fget(ex, st1, g.self, ex.P.off(FS, 'iv_cas'), 'ptr')
        return [self.ok(g), ('the object is at the given structure', AND(eq(t, g.fs), eq(c.b, ite(g.has, g.cas, 0))))] + self.kept(ex, g, st0, st1)


class GetList(V11.FeatC):
    """FeatureStructure::get...ListFSValue: the list the feature refers to; an unset feature is set to a fresh empty list"""
    cost = 2

    def __init__(self, kind):
        self.kind = kind
        self.inf = KIND[kind][2]
        self.dem = FS + '::get%sListFSValue(uima::Feature const&) const' % self.inf

    def setup(self, ex, st, g):
        this = self.obj(ex, st, g)
        f = self.featobj(ex, st, g)
        H, ts = g.H.fs, g.ts
        g.res = ex.newblk(st, 'alloca', 'result', 24)
        g.LIST, g.E = [gconst(ex, st, c) for c in consts(self.inf)[:2]]
        g.en = ts.featnum(st, g.E)
        st.assume(AND(lt(g.E, ts.nt), le(g.en, 1 << 20), pred('subsumes', g.LIST, g.E)))
        g.isl = pred('subsumes', g.LIST, g.range)
        g.good = AND(g.valid, g.fvalid, g.app, g.isl)
        g.c = H.at(ex, st, g.cell)
        g.ct = H.at(ex, st, g.c)
        # the feature holds a structure that its range allows (V11, V04)
        st.assume(IMP(AND(g.good, ne(g.c, 0)), AND(lt(g.c, H.top(ex, st)), le(1, g.ct), lt(g.ct, ts.nt), pred('subsumes', g.LIST, g.ct))))
        return [Ptr(g.res, 0), this, f]

    def fit(self, g):
        return [(NOT(g.isl), 'FSIsNotListException', 'a feature whose range is no list of the kind')]

    def grown(self, g):
        return [g.H.fs]

    def modifies(self, ex, g, st0):
        m = V11.FeatC.modifies(self, ex, g, st0)
        m[g.res] = None
        return m

    def exc_modifies(self, ex, g, st0):
        return {g.res: None}

    def exc(self, ex, g, st0, st1, e):
        return V11.FeatC.exc(self, ex, g, st0, st1, e) + [('nothing is allocated', eq(g.H.fs.top(ex, st0), g.H.fs.top(ex, st1)))]

    def post(self, ex, g, st0, st1, ret):
        fs = g.H.fs
        t0, t1 = fs.top(ex, st0), fs.top(ex, st1)
        r = fget(ex, st1, g.res, ex.P.off(FS, 'iv_tyFS'), 'i32')
        c = fget(ex, st1, g.res, ex.P.off(FS, 'iv_cas'), 'ptr')
        return [self.ok(g), ('the list belongs to the CAS', AND(eq(c.b, g.cas), eq(c.o, 0))),
                ('returns the list the feature refers to', IMP(ne(g.c, 0), AND(eq(r, g.c), eq(t1, t0)))),
                ('an unset feature is set to a fresh empty list', IMP(eq(g.c, 0), AND(le(t0, r), le(add(r, add(g.en, 1)), t1), eq(fs.at(ex, st1, r), g.E), eq(fs.at(ex, st1, g.cell), r)))),
                ('every other feature of every structure is kept', all_k(0, t0, lambda k: OR(AND(eq(k, g.cell), eq(g.c, 0)), eq(fs.at(ex, st1, k), fs.at(ex, st0, k)))))] + fs.wf(ex, st1) + self.kept(ex, g, st0, st1)


class HasElements(V11.FeatC):
    dem = FS + '::hasListElements(uima::Feature const&) const'
    cost = 2

    def setup(self, ex, st, g):
        this = self.obj(ex, st, g)
        f = self.featobj(ex, st, g)
        H = g.H.fs
        g.kinds = [[gconst(ex, st, c) for c in consts(KIND[k][2])[:3]] for k in KIND]
        g.isl = OR(*[eq(g.range, c) for k in g.kinds for c in k])
        g.good = AND(g.valid, g.fvalid, g.app, g.isl)
        g.c = H.at(ex, st, g.cell)
        g.ct = H.at(ex, st, g.c)
        st.assume(IMP(AND(g.good, ne(g.c, 0)), AND(lt(g.c, H.top(ex, st)), le(1, g.ct), lt(g.ct, g.ts.nt))))
        return [this, f]

    def fit(self, g):
        return [(NOT(g.isl), 'FSIsNotListException', 'a feature whose range is no list')]

    def post(self, ex, g, st0, st1, ret):
        ne_ = OR(*[AND(OR(*[eq(g.range, c) for c in k]), eq(g.ct, k[2])) for k in g.kinds])
        return [self.ok(g), ('true exactly when the feature refers to a list with an element', IFF(ret, AND(ne(g.c, 0), ne_)))] + self.kept(ex, g, st0, st1)


def refeq(ex, st, a, i, d):
    """operator== of string references (its meaning is proved in V06), between a head and the value given"""
    g = ex.g
    o = ex.P.off('uima::UnicodeStringRef', 'iv_uiLength')
    sides = []
    for p in a[:2]:
        rs = ex.resolve(st, p)
        if len(rs) != 1:
            raise Undecided('string reference at an unknown place')
        b = rs[0][1]
        sides.append((fget(ex, st, b, p.o, 'ptr'), fget(ex, st, b, add(p.o, o), 'i32')))
    sb = g.H.str.buf(ex, st).b
    for (p, n), (q, m) in (sides, sides[::-1]):
        if isinstance(p.b, int) and p.b == g.src:
            ex.oblige(st, 'requires of the comparison: the whole value is compared with a head', AND(eq(p.o, 0), eq(n, g.len), OR(AND(eq(q.b, 0), eq(m, 0)), eq(q.b, sb))), 'pre')
            return ite(ite(eq(q.b, 0), pred('null is the value'), pred('text is the value', div(q.o, 2), m)), 1, 0)
    raise Undecided('comparison of other texts')


ASSUMED = [V02.SubsumesPure(), V11.AppropPure()]
STUBS = [(re.compile(r'uima::UnicodeStringRef::operator==\(uima::UnicodeStringRef const&\) const'), refeq)] + ESTUBS
CONTRACTS = LIB + [c(k) for c in (IsEmpty, GetLength, GetHead, SetHead, GetTail, MoveToNext, SetTail, Remove, Delete) for k in KIND] + \
    [Join(k, n) for n in ('append', 'prepend') for k in KIND] + [Add(k, f) for f in (True, False) for k in KIND] + [Create(k, h) for h in (False, True) for k in KIND] + \
    [Make(k, c) for c in (False, True) for k in KIND] + [GetList(k) for k in KIND] + [HasElements()]
ASSUMPTIONS = ['building and logging error messages does not change CAS data', 'structures do not overlap (V01) and features of the list types have the offsets of V13',
               'lists are ended by an empty list of the kind and are not circular; lists that are joined have no common element',
               'operator== of string references compares the texts (V06)']
