"""V15: types and features are found by name exactly as declared; declaring adds exactly that type or feature, a refused declaration adds nothing."""
import re
from tsys import *
from stl import *
from ustr import *
from api import ESTUBS, throws
import V04

LEVEL = 'proof'
TUS = ['cas/lowlevel_typesystem.cpp', 'cas/typesystem.cpp']
REPLAY = 'V15.cpp'
T = 'uima::lowlevel::TypeSystem::'
US = 'icu_74::UnicodeString'
VU = 'std::vector<unsigned int, std::allocator<unsigned int>>'
VVU = 'std::vector<%s, std::allocator<%s>>' % (VU, VU)
VUS = 'std::vector<%s, std::allocator<%s>>' % (US, US)
STUBS = TEXT + ESTUBS


class TS(Contract):
    def base(self, ex, st, g):
        g.ts = ts = Tree(ex, st)
        ex.g = g
        P = ex.P
        o = ts.o
        # creator names
        g.tcre, _ = vec_setup(ex, st, ts.b, o('iv_vecTypeCreatorIDs'), 'ts.creators', 64, ts.nt)
        g.fcre, _ = vec_setup(ex, st, ts.b, o('iv_vecFeatureCreatorIDs'), 'ts.fcreators', 64, ts.nf)
        g.L = {'names': VecV(ts.b, o('iv_vecTypeNames'), 64, name='type names'), 'creators': VecV(ts.b, o('iv_vecTypeCreatorIDs'), 64, name='type creators'),
               'fnames': VecV(ts.b, o('iv_vecFeatureBaseNames'), 64, name='feature names'), 'fcreators': VecV(ts.b, o('iv_vecFeatureCreatorIDs'), 64, name='feature creators'),
               'parents': VecV(ts.b, o('iv_vecParents'), 4, name='parents'), 'range': VecV(ts.b, o('iv_vecRangeTypes'), 4, name='range types')}
        g.L['names'].buf0, g.L['creators'].buf0, g.L['fnames'].buf0, g.L['fcreators'].buf0, g.L['parents'].buf0, g.L['range'].buf0 = ts.names, g.tcre, ts.fnames, g.fcre, ts.parents, ts.range
        return Ptr(ts.b, 0)

    def inv0(self, ex, st, g, *ground):
        """representation invariant: tree, names distinct, every feature introduced by exactly one type"""
        ts = g.ts
        ts.wf(st, *ground)
        i, j = bound('i'), bound('j')
        st.assume(FORALL([i, j], IMP(AND(le(0, i), lt(i, j), lt(j, ts.nt)), NOT(eq(ts.tname(i), ts.tname(j)))), [(ts.tname(i), ts.tname(j))]))
        t, f = bound('t'), bound('f')
        st.assume(FORALL([t, i], self.rowi(ts, t, i), [ts.intro(t, i)]))
        st.assume(FORALL(f, self.feati(ts, f), [ts.fowner(f)]))

    def rowi(self, ts, t, i):
        f = ts.intro(t, i)
        return IMP(AND(le(0, t), lt(t, ts.nt), le(0, i), lt(i, ts.nintro(t))), AND(le(1, f), lt(f, ts.nf), eq(ts.fowner(f), t), eq(ts.fidx(f), i)))

    def feati(self, ts, f):
        t = ts.fowner(f)
        return IMP(AND(le(1, f), lt(f, ts.nf)), AND(le(1, t), lt(t, ts.nt), lt(ts.fidx(f), ts.nintro(t)), eq(ts.intro(t, ts.fidx(f)), f)))

    def textarg(self, ex, st, g, name='name'):
        b = ex.newblk(st, 'heap', name, 64)
        vtab(ex, st, b)
        return Ptr(b, 0), cell(st, b, 0, UST)

    def valid(self, st, g, t):
        st.assume(AND(le(1, t), lt(t, g.ts.nt)))


class TypeByName(TS):
    """getTypeByName: the type of that name, 0 when there is none"""
    dem = T + 'getTypeByName(%s const&) const' % US

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        p, g.x = self.textarg(ex, st, g)
        self.inv0(ex, st, g)
        return [this, p]

    def rel(self, ts, x, r):
        return [('a type of that name, or none', OR(eq(r, 0), AND(le(1, r), lt(r, ts.nt), eq(ts.tname(r), x)))),
                ('none only when no type has that name', IMP(eq(r, 0), all_k(1, ts.nt, lambda k: NOT(eq(ts.tname(k), x)))))]

    def post(self, ex, g, st0, st1, ret):
        return self.rel(g.ts, g.x, ret)

    def call(self, ex, st, args):
        ts = ex.g.ts
        x = text(ex, st, args[1])
        r = u(freshname('type'))
        for lb, f in self.rel(ts, x, r):
            st.assume(f)
        return [('ret', st, r)]

    def inv(self, ex, lc):
        g = ex.g
        return [('no name before %s' % nm, lambda v, s, k=k: all_k(0, v[k], lambda j: NOT(eq(g.ts.tname(j), g.x)))) for k, (nm, w) in lc.ints.items()]


class Feat(TS):
    """the search for a feature by name over the introduced features of a type and its ancestors below top"""

    def hit(self, ts, x, a):
        """some feature introduced at a has name x"""
        return exists_k(0, ts.nintro(a), lambda i: eq(ts.fname(ts.intro(a, i)), x))

    def nohit(self, ts, x, a):
        return all_k(0, ts.nintro(a), lambda i: NOT(eq(ts.fname(ts.intro(a, i)), x)))

    def rel(self, ts, t, x, r):
        a = bound('a')
        val = AND(le(1, t), lt(t, ts.nt))
        o = ts.fowner(r)
        return [('0 for an invalid type', IMP(NOT(val), eq(r, 0))),
                ('a feature of that name', IMP(ne(r, 0), AND(le(1, r), lt(r, ts.nf), eq(ts.fname(r), x)))),
                ('introduced by the type or one of its ancestors', IMP(ne(r, 0), ts.anc(o, t))),
                ('not introduced by top', IMP(ne(r, 0), ne(o, 1))),
                ('the one introduced closest to the type', FORALL(a, IMP(AND(val, ne(r, 0), ts.anc(a, t), ts.anc(o, a), ne(o, a)), self.nohit(ts, x, a)), [(ts.anc(a, t), ts.anc(o, a))])),
                ('none only when the type has no feature of that name', FORALL(a, IMP(AND(val, eq(r, 0), ts.anc(a, t), ne(a, 1)), self.nohit(ts, x, a)), [ts.anc(a, t)]))]


class FeatByName(Feat):
    dem = T + 'getFeatureByBaseName(unsigned int, %s const&) const' % US
    budget = 400

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        g.t = u('type')
        p, g.x = self.textarg(ex, st, g)
        self.inv0(ex, st, g, g.t)
        V04.laws(ex, st, g.ts)
        g.ts.ancdef(st)
        return [this, g.t, p]

    def post(self, ex, g, st0, st1, ret):
        return self.rel(g.ts, g.t, g.x, ret)

    def call(self, ex, st, args):
        ts = ex.g.ts
        x = text(ex, st, args[2])
        r = u(freshname('feat'))
        for lb, f in self.rel(ts, args[1], x, r):
            st.assume(f)
        return [('ret', st, r)]

    def inv(self, ex, lc):
        g = ex.g
        ts = g.ts
        L = []
        for k, (nm, w) in lc.ints.items():
            L += [('%s is an ancestor of the type' % nm, lambda v, s, k=k: AND(le(1, v[k]), lt(v[k], ts.nt), ts.anc(v[k], g.t))),
                  ('no feature of that name below %s' % nm, lambda v, s, k=k: (lambda a: FORALL(a, IMP(AND(ts.anc(a, g.t), NOT(ts.anc(a, v[k]))), self.nohit(ts, g.x, a)), [ts.anc(a, g.t)]))(bound('a')))]
            L.append(('descent of %s' % nm, lambda v, s, k=k: ts.unfold(ts.par(v[k]), v[k])))
            for x in V04.envints(lc)[:10]:
                L.append(('no feature of that name before %s' % nm, lambda v, s, k=k, x=x: all_k(0, v[k], lambda i: NOT(eq(ts.fname(ts.intro(x, i)), g.x)))))
        return L


class FeatByNames(Feat):
    dem = T + 'getFeatureByBaseName({0} const&, {0} const&) const'.format(US)

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        p, g.y = self.textarg(ex, st, g, 'typename')
        q, g.x = self.textarg(ex, st, g)
        self.inv0(ex, st, g)
        return [this, p, q]

    def post(self, ex, g, st0, st1, ret):
        ts = g.ts
        t = bound('t')
        L = self.rel(ts, t, g.x, ret)
        out = [('0 when no type has that name', IMP(all_k(1, ts.nt, lambda k: NOT(eq(ts.tname(k), g.y))), eq(ret, 0)))]
        for lb, f in L[1:]:
            out.append((lb, FORALL(t, IMP(AND(le(1, t), lt(t, ts.nt), eq(ts.tname(t), g.y)), f), [ts.tname(t)])))
        return out


class IntroType(TS):
    dem = T + 'getIntroType(unsigned int) const'

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        g.f = u('feature', 1)
        st.assume(lt(g.f, g.ts.nf))
        self.inv0(ex, st, g)
        st.assume(self.feati(g.ts, g.f))
        return [this, g.f]

    def post(self, ex, g, st0, st1, ret):
        return [('the type that declares the feature', eq(ret, g.ts.fowner(g.f)))]

    def call(self, ex, st, args):
        ts = ex.g.ts
        ex.oblige(st, 'requires of getIntroType: a valid feature', AND(le(1, args[1]), lt(args[1], ts.nf)), 'pre')
        return [('ret', st, ts.fowner(args[1]))]

    def inv(self, ex, lc):
        return V04.scan_inv(ex, lc, ex.g.ts.intro, ex.g.ts.nintro, lambda c: ne(c, ex.g.f))


class Get(TS):
    """accessors"""

    def __init__(self, m, arg, post, doc):
        self.dem = T + m
        self.arg, self.p = arg, post
        self.__doc__ = doc

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        if self.arg is None:
            return [this]
        g.k = u(self.arg, 1)
        if self.arg != 'any':
            st.assume(lt(g.k, g.ts.nt if self.arg == 'type' else g.ts.nf))
        return [this, g.k]

    def post(self, ex, g, st0, st1, ret):
        return [(self.__doc__, self.p(ex, g, st1, ret))]


def refto(buf):
    return lambda ex, g, st, r: AND(eq(r.b, buf(g)), eq(r.o, mulc(g.k, 64)))


def nosub(ex, t):
    """int, float, string and the array types take no subtypes"""
    return AND(*[ne(t, gconst(ex, None, n)) for n in ('gs_tyIntegerType', 'gs_tyFloatType', 'gs_tyStringType', 'gs_tyArrayBaseType', 'gs_tyFSArrayType', 'gs_tyIntArrayType', 'gs_tyFloatArrayType', 'gs_tyStringArrayType')])


ASSUMED = [V04.GetParent()]
CONTRACTS = [TypeByName(), FeatByName(), FeatByNames(), IntroType(),
             Get('getTypeName(unsigned int) const', 'type', refto(lambda g: g.ts.names), 'the name of the type'),
             Get('getTypeCreatorID(unsigned int) const', 'type', refto(lambda g: g.tcre), 'the creator of the type'),
             Get('getFeatureBaseName(unsigned int) const', 'feature', refto(lambda g: g.ts.fnames), 'the name of the feature'),
             Get('getFeatureCreatorID(unsigned int) const', 'feature', refto(lambda g: g.fcre), 'the creator of the feature'),
             Get('getRangeType(unsigned int) const', 'feature', lambda ex, g, st, r: eq(r, g.ts.rangeof(st, g.k)), 'the declared range type'),
             Get('isValidType(unsigned int) const', 'any', lambda ex, g, st, r: IFF(r, lt(g.k, g.ts.nt)), 'valid exactly for declared types'),
             Get('isValidFeature(unsigned int) const', 'any', lambda ex, g, st, r: IFF(r, lt(g.k, g.ts.nf)), 'valid exactly for declared features'),
             Get('getNumberOfTypes() const', None, lambda ex, g, st, r: eq(r, add(g.ts.nt, -1)), 'the number of declared types'),
             Get('getNumberOfFeatures() const', None, lambda ex, g, st, r: eq(r, add(g.ts.nf, -1)), 'the number of declared features'),
             Get('isAllowedToAddSubTypes(unsigned int) const', 'type', lambda ex, g, st, r: IFF(r, nosub(ex, g.k)), 'exactly the final types take no subtypes'),
             Get('isAllowedToCreateFeatures(unsigned int) const', 'type', lambda ex, g, st, r: IFF(r, AND(nosub(ex, g.k), ne(g.k, 1))), 'exactly the final types and top take no features')]


class Create(TS):
    """what a declaration adds"""
    ANYL = ('names', 'creators', 'parents')
    throws = True
    budget = 400

    def base(self, ex, st, g):
        this = TS.base(self, ex, st, g)
        P, o = ex.P, g.ts.o
        fput(ex, st, g.ts.b, o('iv_bIsCommitted'), 'i8', 0)
        g.built = u('builtins', 0, 1)
        fput(ex, st, g.ts.b, o('iv_bBuiltinTypesCreated'), 'i8', g.built)
        g.multi = BitV(g.ts.b, o('iv_vecMultiRefs'), 'multi refs').setup(ex, st, g.ts.nf)
        return this

    def oldrow(self, ex, st1, g, what, q):
        """row q of the table is the old one"""
        ts = g.ts
        off, buf0 = (ts.o('iv_vecTree'), ts.treebuf) if what == 'tree' else (ts.o('iv_vecIntroducedFeatures'), ts.introbuf)
        p = fget(ex, st1, ts.b, off, 'ptr')
        if not isinstance(p.b, int):
            raise Undecided('table not identified')
        b1, b0 = st1.mem[p.b], g.st0.mem[buf0]
        return AND(*[eq(a_read(b1.arr(w), add(mulc(q, 3), d)), a_read(b0.arr(w), add(mulc(q, 3), d))) for d in (0, 1, 2) for w in ('pb', 'po')])

    def row(self, ex, st1, g, what, q):
        ts = g.ts
        off = ts.o('iv_vecTree') if what == 'tree' else ts.o('iv_vecIntroducedFeatures')
        p = fget(ex, st1, ts.b, off, 'ptr')
        return VecV(p.b, mulc(q, 24), 4, name='row of ' + what)

    def rows(self, ex, st1, g, what):
        ts = g.ts
        off = ts.o('iv_vecTree') if what == 'tree' else ts.o('iv_vecIntroducedFeatures')
        return VecV(ts.b, off, 24, name=what).size(ex, st1)

    def kept(self, ex, g, st1, nm, n):
        v = g.L[nm]
        return ('%s of what was declared before are kept' % v.name, all_k(0, n, lambda k: eq(v.at(ex, st1, k), v.at(ex, g.st0, k))))

    def exc_modifies(self, ex, g, st0):
        return {}


class CreateType(Create):
    checked = True
    strides = (64, 256)

    def __init__(self, m, checked):
        self.dem = T + m + '(unsigned int, {0} const&, {0} const&)'.format(US)
        self.checked = checked

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        g.p = u('parent')
        self.valid(st, g, g.p)
        np_, g.x = self.textarg(ex, st, g)
        cp_, g.c = self.textarg(ex, st, g, 'creator')
        self.inv0(ex, st, g, g.p)
        return [this, g.p, np_, cp_]

    def dup(self, g):
        return exists_k(0, g.ts.nt, lambda k: eq(g.ts.tname(k), g.x))

    def final(self, ex, g):
        return AND(eq(g.built, 1), NOT(nosub(ex, g.p)))

    def post(self, ex, g, st0, st1, ret):
        ts, L = g.ts, g.L
        nt = ts.nt
        new = add(nt, 1)
        R = self.row(ex, st1, g, 'tree', g.p)
        n0 = ts.nchild(g.p)
        i, j = bound('i'), bound('j')
        out = [('the number of the new type is the next free one', eq(ret, nt)), ('no other type has that name', NOT(self.dup(g)))]
        if self.checked:
            out.append(('the parent may have subtypes', NOT(self.final(ex, g))))
        for nm in ('names', 'creators', 'parents'):
            out += [('%s: one entry more' % L[nm].name, eq(L[nm].size(ex, st1), new)), self.kept(ex, g, st1, nm, nt)] + L[nm].wf(ex, st1)
        out += [('the new type has the given name', eq(L['names'].at(ex, st1, nt), g.x)), ('the new type has the given creator', eq(L['creators'].at(ex, st1, nt), g.c)),
                ('the new type has the given parent', eq(L['parents'].at(ex, st1, nt), g.p)),
                ('one more row of subtypes and of features', AND(eq(self.rows(ex, st1, g, 'tree'), new), eq(self.rows(ex, st1, g, 'features'), new))),
                ('the new type is a direct subtype of its parent, after the others', AND(eq(R.size(ex, st1), add(n0, 1)), eq(R.at(ex, st1, n0), nt))),
                ('the other subtypes of the parent are kept', all_k(0, n0, lambda k: eq(R.at(ex, st1, k), ts.child(g.p, k)))),
                ('subtypes of all other types are kept', all_k(0, nt, lambda q: OR(eq(q, g.p), self.oldrow(ex, st1, g, 'tree', q)))),
                ('declared features of all types are kept', all_k(0, nt, lambda q: self.oldrow(ex, st1, g, 'features', q))),
                ('the new type has no subtypes and declares no features', AND(eq(self.row(ex, st1, g, 'tree', nt).size(ex, st1), 0), eq(self.row(ex, st1, g, 'features', nt).size(ex, st1), 0))),
                ('type names stay distinct', FORALL([i, j], IMP(AND(le(0, i), lt(i, j), lt(j, new)), NOT(eq(L['names'].at(ex, st1, i), L['names'].at(ex, st1, j))))))]
        return out

    def exc(self, ex, g, st0, st1, e):
        why = OR(self.dup(g), self.final(ex, g)) if self.checked else self.dup(g)
        return [('refused only when the name is taken or the parent is final', why), ('TypeCreationFailedException', throws(e, 'TypeCreationFailedException'))]

    def modifies(self, ex, g, st0):
        ts = g.ts
        m = {ts.b: []}
        for f in ('iv_vecTree', 'iv_vecIntroducedFeatures', 'iv_vecParents', 'iv_vecTypeNames', 'iv_vecTypeCreatorIDs'):
            m[ts.b].append(('ptr', ts.o(f) // 8, ts.o(f) // 8 + 3))
        for b in (ts.treebuf, ts.introbuf, ts.parents, ts.names, g.tcre):
            m[b] = None
        return m

    def frees(self, ex, g, st0):
        ts = g.ts
        return [ts.treebuf, ts.introbuf, ts.parents, ts.names, g.tcre]

    def inv(self, ex, lc):
        g = ex.g
        nmat = lambda k: eq(g.ts.tname(k), g.x)
        L = [('no such name before %s' % lc.ptrs[key], lambda v, s, key=key: all_k(0, div(v[key].o, 64), lambda j: NOT(nmat(j)))) for key in lc.ptrs]
        L += [('no such name before %s' % nm, lambda v, s, k=k: all_k(0, v[k], lambda j: NOT(nmat(j)))) for k, (nm, w) in lc.ints.items()]
        return L


class CreateFeature(Create):
    dem = T + 'createFeature(unsigned int, unsigned int, bool, {0} const&, {0} const&)'.format(US)

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        ts = g.ts
        g.t, g.r = u('intro'), u('range')
        self.valid(st, g, g.t)
        self.valid(st, g, g.r)
        g.m = u('multi', 0, 1)
        np_, g.x = self.textarg(ex, st, g)
        cp_, g.c = self.textarg(ex, st, g, 'creator')
        self.inv0(ex, st, g, g.t)
        V04.laws(ex, st, ts)
        return [this, g.t, g.r, eq(g.m, 1), np_, cp_]

    def has(self, g):
        """the type has a feature of that name, declared by itself or an ancestor"""
        ts = g.ts
        a = bound('a')
        return NOT(FORALL(a, IMP(AND(ts.anc(a, g.t), ne(a, 1), le(1, a), lt(a, ts.nt)), all_k(0, ts.nintro(a), lambda i: NOT(eq(ts.fname(ts.intro(a, i)), g.x)))), [ts.anc(a, g.t)]))

    def final(self, ex, g):
        return AND(eq(g.built, 1), OR(NOT(nosub(ex, g.t)), eq(g.t, 1)))

    def post(self, ex, g, st0, st1, ret):
        ts, L = g.ts, g.L
        nf = ts.nf
        new = add(nf, 1)
        R = self.row(ex, st1, g, 'features', g.t)
        n0 = ts.nintro(g.t)
        out = [('the number of the new feature is the next free one', eq(ret, nf)), ('the type had no feature of that name', NOT(self.has(g))), ('the type may have features', NOT(self.final(ex, g)))]
        for nm in ('fnames', 'fcreators', 'range'):
            out += [('%s: one entry more' % L[nm].name, eq(L[nm].size(ex, st1), new)), self.kept(ex, g, st1, nm, nf)] + L[nm].wf(ex, st1)
        out += [('the new feature has the given name', eq(L['fnames'].at(ex, st1, nf), g.x)), ('the new feature has the given creator', eq(L['fcreators'].at(ex, st1, nf), g.c)),
                ('the new feature has the given range', eq(L['range'].at(ex, st1, nf), g.r)),
                ('one more entry of multiple references', eq(g.multi.size(ex, st1), new)), ('multiple references allowed as given', eq(g.multi.at(ex, st1, nf), g.m)),
                ('multiple references of the other features are kept', all_k(0, nf, lambda k: eq(g.multi.at(ex, st1, k), g.multi.at(ex, st0, k)))),
                ('the type declares the new feature, after the others', AND(eq(R.size(ex, st1), add(n0, 1)), eq(R.at(ex, st1, n0), nf))),
                ('the other features of the type are kept', all_k(0, n0, lambda k: eq(R.at(ex, st1, k), ts.intro(g.t, k)))),
                ('declared features of all other types are kept', all_k(0, ts.nt, lambda q: OR(eq(q, g.t), self.oldrow(ex, st1, g, 'features', q))))]
        return out

    def exc(self, ex, g, st0, st1, e):
        return [('refused only when the type has a feature of that name or takes no features', OR(self.final(ex, g), self.has(g))),
                ('FeatureIntroductionFailedException', throws(e, 'FeatureIntroductionFailedException'))]

    def modifies(self, ex, g, st0):
        ts = g.ts
        m = {ts.b: []}
        for f in ('iv_vecFeatureBaseNames', 'iv_vecFeatureCreatorIDs', 'iv_vecRangeTypes'):
            m[ts.b].append(('ptr', ts.o(f) // 8, ts.o(f) // 8 + 3))
        m[ts.b].append(('ptr', ts.o('iv_vecMultiRefs') // 8, ts.o('iv_vecMultiRefs') // 8 + 5))
        for b in (ts.fnames, g.fcre, ts.range):
            m[b] = None
        m[ts.introbuf] = [('ptr', mulc(g.t, 3), mulc(add(g.t, 1), 3))]
        return m

    def frees(self, ex, g, st0):
        ts = g.ts
        return [ts.fnames, g.fcre, ts.range]


STUBS = BITS + [(re.compile(r'uima::lowlevel::TypeSystem::get(Type|Feature)'), lambda ex, st, a, i, d: INLINE)] + STUBS
CONTRACTS += [CreateType('createTypeNoChecks', False), CreateType('createType', True), CreateFeature(), Resize('unsigned int', 4)] + pushes('unsigned int', 4)
ASSUMED += [Resize(US, 64, EMPTY), Resize(VU, 24, widths={'pb': lambda: 0, 'po': lambda: 0}), Push(US, 64), Push(US, 64, US + '&&')]


class FullName(Feat):
    """getFeatureName: type name, separator, base name"""
    dem = T + 'getFeatureName(unsigned int) const'

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        g.f = u('feature', 1)
        st.assume(lt(g.f, g.ts.nf))
        self.inv0(ex, st, g)
        st.assume(self.feati(g.ts, g.f))
        g.r = ex.newblk(st, 'heap', 'result', 64)
        return [Ptr(g.r, 0), this, g.f]

    def post(self, ex, g, st0, st1, ret):
        ts = g.ts
        return [('name of the declaring type, colon, name of the feature', eq(cell(st1, g.r, 0, UST), cat(cat(ts.tname(ts.fowner(g.f)), chr1(ord(':'))), ts.fname(g.f))))]

    def modifies(self, ex, g, st0):
        return {g.r: None}


class FeatByFullName(Feat):
    """getFeatureByFullName: the text before the only colon names the type, the text after it the feature"""
    dem = T + 'getFeatureByFullName(%s const&) const' % US

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        p, g.x = self.textarg(ex, st, g)
        self.inv0(ex, st, g)
        g.i = uf('ust.first', g.x, ord(':'), lo=-1, hi=(1 << 31) - 2)
        g.j = uf('ust.last', g.x, ord(':'), lo=-1, hi=(1 << 31) - 2)
        g.n = uf('ust.len', g.x, lo=0, hi=(1 << 31) - 1)
        return [this, p]

    def post(self, ex, g, st0, st1, ret):
        ts = g.ts
        t = bound('t')
        ok = AND(ne(g.i, -1), eq(g.i, g.j))
        tn, fn = sub_(g.x, 0, g.i), sub_(g.x, add(g.i, 1), g.n)
        L = self.rel(ts, t, fn, ret)
        out = [('0 unless there is exactly one colon', IMP(NOT(ok), eq(ret, 0))),
               ('0 when no type has the first name', IMP(AND(ok, all_k(1, ts.nt, lambda k: NOT(eq(ts.tname(k), tn)))), eq(ret, 0)))]
        for lb, f in L[1:]:
            out.append((lb, FORALL(t, IMP(AND(ok, le(1, t), lt(t, ts.nt), eq(ts.tname(t), tn)), f), [ts.tname(t)])))
        return out


class All(TS):
    """getAllTypes / getAllFeatures: every declared number once, in order"""

    def __init__(self, m, n):
        self.dem = T + m + '(%s&) const' % VU
        self.n = n

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        g.vb = ex.newblk(st, 'heap', 'result', 24)
        g.v = VecV(g.vb, 0, 4, name='result').setup(ex, st)
        g.n = g.ts.nt if self.n == 'nt' else g.ts.nf
        return [this, Ptr(g.vb, 0)]

    def post(self, ex, g, st0, st1, ret):
        v = g.v
        return [('one entry for each', eq(v.size(ex, st1), add(g.n, -1))), ('in order', all_k(0, add(g.n, -1), lambda k: eq(v.at(ex, st1, k), add(k, 1))))] + v.wf(ex, st1)

    def modifies(self, ex, g, st0):
        return g.v.mod()

    def frees(self, ex, g, st0):
        return [g.v.buf0]

    def inv(self, ex, lc):
        g = ex.g
        v = g.v
        L = [(lb, (lambda v_, s, i=i: v.wf(ex, s)[i][1])) for i, (lb, f) in enumerate(v.wf(ex, lc.entry))]
        L += [('entries so far', lambda v_, s: all_k(0, v.size(ex, s), lambda k: eq(v.at(ex, s, k), add(k, 1))))]
        for key, (nm, w) in lc.ints.items():
            L += [('as many entries as %s' % nm, lambda v_, s, key=key: eq(add(v.size(ex, s), 1), v_[key]))]
        return L


CONTRACTS += [FullName(), FeatByFullName(), All('getAllTypes', 'nt'), All('getAllFeatures', 'nf')]
ASSUMPTIONS = ['icu::UnicodeString: equality, copy, append, indexOf, lastIndexOf, extractBetween are functions of the text content (ICU contracts)',
               'std::vector<UnicodeString>, std::vector<std::vector<>> resize and push_back, std::vector<bool> operations: library contracts, assumed (std::vector<unsigned int> is verified)',
               'building an error message and throwing it has no effect on the type system', 'the caller declares a type below a valid parent and a feature with a valid range, before commit (asserted in the source)',
               'string subtypes, std::map based tables and the predefined types created at start-up are not covered']
