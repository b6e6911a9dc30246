"""V04: the type hierarchy: subsumption, parents, common supertypes, subtypes agree with the declared tree."""
import os
from tsys import *

LEVEL = 'proof'
TUS = ['cas/lowlevel_typesystem.cpp']
REPLAY = 'V04.cpp'
T = 'uima::lowlevel::TypeSystem::'


class TC(Contract):
    def base(self, ex, st, g):
        g.ts = Tree(ex, st)
        return Ptr(g.ts.b, 0)

    def valid(self, st, g, t):
        st.assume(AND(le(1, t), lt(t, g.ts.nt)))


class Subsumes(TC):
    """subsumes(a, b): exactly when a is b or an ancestor of b in the declared hierarchy"""
    dem = T + 'subsumes(unsigned int, unsigned int) const'

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        g.a, g.b = u('t1'), u('t2')
        g.ts.wf(st, g.b)
        st.assume(g.ts.unfold(g.a, g.b))
        st.assume(g.ts.unfold(g.a, 1))
        g.ts.ancdef(st)
        return [this, g.a, g.b]

    def post(self, ex, g, st0, st1, ret):
        return [('true exactly for the type itself and its ancestors', IFF(ret, g.ts.isanc(g.a, g.b)))]

    def inline_callee(self, dem):
        return False

    def call(self, ex, st, args):
        ts = ex.g.ts
        return [('ret', st, ts.isanc(args[1], args[2]))]

    def inv(self, ex, lc):
        g = ex.g
        L = []
        for k, (nm, w) in lc.ints.items():
            if w != 32:
                continue
            L += [('%s is a type' % nm, lambda v, s, k=k: AND(le(1, v[k]), lt(v[k], g.ts.nt))),
                  ('ancestors still to be searched from %s' % nm, lambda v, s, k=k: IFF(g.ts.anc(g.a, g.b), g.ts.anc(g.a, v[k]))),
                  ('descent of %s' % nm, lambda v, s, k=k: g.ts.unfold(g.a, v[k]))]
        return L


class Laws(TC):
    """the relation decided by subsumes is a partial order with the top type as greatest element, and tree shaped
    (stated over the relation of the contract of subsumes)"""
    dem = T + 'subsumes(unsigned int, unsigned int) const'
    title = 'subsumption is a tree order (lemmas over the contract of subsumes)'

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        ts = g.ts
        g.a, g.b = u('t1'), u('t2')
        ts.wf(st, g.b)
        ts.ancdef(st)
        st.assume(ts.unfold(g.a, g.b))
        st.assume(ts.unfold(g.a, 1))
        A = ts.anc
        laws(ex, st, ts)
        return [this, g.a, g.b]

    def inline_callee(self, dem):
        return False

    def post(self, ex, g, st0, st1, ret):
        ts = g.ts
        x, y, z = u('x'), u('y'), u('z')
        S = ts.isanc
        v = lambda *q: AND(*[AND(le(1, t), lt(t, ts.nt)) for t in q])
        return [('reflexive', IMP(v(x), S(x, x))),
                ('transitive', IMP(AND(v(x, y, z), S(x, y), S(y, z)), S(x, z))),
                ('antisymmetric', IMP(AND(v(x, y), S(x, y), S(y, x)), eq(x, y))),
                ('top subsumes every type', IMP(v(x), S(1, x))),
                ('only top subsumes top', IMP(AND(v(x), S(x, 1)), eq(x, 1))),
                ('supertypes of a type are ordered (single inheritance)', IMP(AND(v(x, y, z), S(x, z), S(y, z)), OR(S(x, y), S(y, x))))]

    def has_call(self):
        return False


def laws(ex, st, ts):
    A = ts.anc
    par = ts.par
    at = lambda f: (lambda c: IMP(AND(eq(par(c), par(c))), f(c)))
    a, b = bound('a'), bound('b')
    def U(x):      # unfolding of the relation at x for every first argument
        q = bound('q')
        st.assume(FORALL(q, ts.unfold(q, x), [ts.anc(q, x)]))

    def ind(name, P, pats):
        x = var(freshname('x'), 1)
        U(x)
        st.assume(ts.w3(x))
        ex.oblige(st, 'lemma (induction): ' + name, IMP(AND(lt(x, ts.nt), all_k(1, x, P)), P(x)), 'post')
        y = bound('y')
        st.assume(FORALL(y, IMP(AND(le(1, y), lt(y, ts.nt)), P(y))))
    U(1)
    ind('top is an ancestor of every type', lambda x: A(1, x), None)
    ind('every type is its own ancestor', lambda x: A(x, x), None)
    ind('an ancestor has a smaller number', lambda x: FORALL(a, IMP(A(a, x), AND(le(1, a), le(a, x))), [A(a, x)]), None)
    ind('ancestors are transitive', lambda x: FORALL([a, b], IMP(AND(A(b, x), A(a, b)), A(a, x)), [(A(b, x), A(a, b))]), None)
    ind('ancestors of one type are ordered', lambda x: FORALL([a, b], IMP(AND(A(a, x), A(b, x)), OR(A(a, b), A(b, a))), [(A(a, x), A(b, x))]), None)


class GetParent(TC):
    dem = T + 'getParentType(unsigned int) const'

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        g.t = u('type')
        self.valid(st, g, g.t)
        g.ts.wf(st, g.t)
        return [this, g.t]

    def post(self, ex, g, st0, st1, ret):
        return [('returns the declared parent (none for the top type)', eq(ret, ite(eq(g.t, 1), 0, g.ts.par(g.t))))]

    def call(self, ex, st, args):
        ts = ex.g.ts
        t = args[1]
        ex.oblige(st, 'requires of getParentType: a valid type', AND(le(1, t), lt(t, ts.nt)), 'pre')
        st.assume(ts.w3(t))
        r = u(freshname('parent'))
        st.assume(eq(r, ite(eq(t, 1), 0, ts.par(t))))
        return [('ret', st, r)]

    def inv(self, ex, lc):
        return scan_inv(ex, lc, ex.g.ts.child, ex.g.ts.nchild, lambda c: ne(c, ex.g.t))


def envints(lc):
    """integer values of the enclosing scopes (loop variables of outer loops among them)"""
    out = {}
    for f in lc.entry.frames:
        for k, v in f.env.items():
            if isinstance(v, Node) and not v.isb and v.op == 'var':
                out[v.id] = v
    return list(out.values())


def scan_inv(ex, lc, get, num, P):
    """templates for a nested scan of get(t, i), i < num(t): everything scanned so far satisfies P"""
    L = []
    outs = envints(lc)
    for k, (nm, w) in lc.ints.items():
        L.append(('all rows before %s scanned' % nm, lambda v, s, k=k: all_k(0, v[k], lambda p: all_k(0, num(p), lambda i: P(get(p, i))))))
        for x in outs[:10]:
            L.append(('row scanned up to %s' % nm, lambda v, s, k=k, x=x: all_k(0, v[k], lambda i: P(get(x, i)))))
    return L


class Common(TC):
    dem = T + 'getMostSpecificCommonSupertype(unsigned int, unsigned int) const'

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        g.a, g.b = u('t1'), u('t2')
        self.valid(st, g, g.a)
        self.valid(st, g, g.b)
        g.ts.wf(st, g.a, g.b)
        laws(ex, st, g.ts)
        q = bound('q')
        g.ts.ancdef(st)
        for x in (g.a, g.b):
            st.assume(FORALL(q, g.ts.unfold(q, x), [g.ts.anc(q, x)]))
        return [this, g.a, g.b]

    def rel(self, ts, a, b, r):
        c = bound('c')
        A = ts.anc
        return [('returns a type that subsumes both', AND(le(1, r), lt(r, ts.nt), A(r, a), A(r, b))),
                ('every type that subsumes both subsumes the result', FORALL(c, IMP(AND(A(c, a), A(c, b)), A(c, r)), [(A(c, a), A(c, b))]))]

    def post(self, ex, g, st0, st1, ret):
        return self.rel(g.ts, g.a, g.b, ret)

    def call(self, ex, st, args):
        ts = ex.g.ts
        a, b = args[1], args[2]
        ex.oblige(st, 'requires of getMostSpecificCommonSupertype: valid types', AND(le(1, a), lt(a, ts.nt), le(1, b), lt(b, ts.nt)), 'pre')
        r = u(freshname('common'))
        for _, f in self.rel(ts, a, b, r):
            st.assume(f)
        return [('ret', st, r)]

    def inline_callee(self, dem):
        return False


def toward(ex, st, ts, t):
    """tow(x): the child of t towards its descendant x; lemmas on the subtrees of the children"""
    # tow(p, x): the child of p towards its descendant x
    tow = lambda x: uf('toward', t, x, lo=0)
    x = bound('x')
    q = var(freshname('x'), 1)
    P = lambda x: IMP(AND(ts.anc(t, x), ne(x, t)), AND(le(2, tow(x)), le(tow(x), x), eq(ts.par(tow(x)), t), ts.anc(tow(x), x)))
    D = lambda x: IMP(AND(le(2, x), lt(x, ts.nt)), eq(tow(x), ite(eq(ts.par(x), t), x, tow(ts.par(x)))))
    b = bound('b')
    st.assume(D(q))
    st.assume(FORALL(b, ts.unfold(b, q), [ts.anc(b, q)]))
    st.assume(ts.w3(q))
    ex.oblige(st, 'lemma (induction): a proper descendant lies below exactly one child', IMP(AND(lt(q, ts.nt), all_k(1, q, P)), P(q)), 'post')
    st.assume(FORALL(x, IMP(AND(le(1, x), lt(x, ts.nt)), P(x)), [ts.anc(t, x)]))
    a = bound('a')
    # siblings have no common descendant
    st.assume(FORALL(b, ts.unfold(b, t), [ts.anc(b, t)]))
    a, b, x = bound('a'), bound('b'), bound('x')
    y, z = var('sib1', 2), var('sib2', 2)
    for w in (y, z):
        st.assume(FORALL(b, ts.unfold(b, w), [ts.anc(b, w)]))
    v = u('below')
    ex.oblige(st, 'lemma: siblings have no common descendant', IMP(AND(lt(y, ts.nt), lt(z, ts.nt), le(1, v), lt(v, ts.nt), ts.anc(y, v), ts.anc(z, v), eq(ts.par(y), ts.par(z))), eq(y, z)), 'post')
    st.assume(FORALL([a, b, x], IMP(AND(le(2, a), lt(a, ts.nt), le(2, b), lt(b, ts.nt), le(1, x), lt(x, ts.nt), ts.anc(a, x), ts.anc(b, x), eq(ts.par(a), ts.par(b))), eq(a, b)), [(ts.anc(a, x), ts.anc(b, x))]))
    # a child of the type is no ancestor of the type, its descendants are descendants of the type
    ch = bound('ch')
    st.assume(FORALL([a, ch], IMP(AND(le(2, ch), lt(ch, ts.nt)), ts.unfold(a, ch)), [(ts.anc(a, ch), ts.par(ch))]))
    return tow


def child_hints(ex, st, ts, t0, c, tow):
    """facts on the descendants of a child c of t0, proved where a recursive call is made"""
    x = bound('x')
    val = lambda x: AND(le(1, x), lt(x, ts.nt))
    for lb, f in [('a child of the type is its descendant', IMP(eq(ts.par(c), t0), ts.anc(t0, c))),
                  ('the type is no descendant of its child', IMP(eq(ts.par(c), t0), NOT(ts.anc(c, t0)))),
                  ('descendants of a child are descendants', FORALL(x, IMP(AND(val(x), eq(ts.par(c), t0), ts.anc(c, x)), AND(ts.anc(t0, x), ne(x, t0))), [ts.anc(c, x)])),
                  ('descendants of a child lie towards it', FORALL(x, IMP(AND(val(x), eq(ts.par(c), t0), ts.anc(c, x)), eq(tow(x), c)), [ts.anc(c, x), tow(x)]))]:
        ex.oblige(st, 'hint: ' + lb, f, 'pre')


class Subsumed(TC):
    """getSubsumedTypes appends the type and all its descendants, each exactly once (W: ghost map from a type to its position)"""
    dem = T + 'getSubsumedTypes(unsigned int, std::vector<unsigned int, std::allocator<unsigned int>>&) const'
    cost = 9
    budget = 400

    def inline_callee(self, dem):
        return False

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        ts = g.ts
        g.t = u('type')
        self.valid(st, g, g.t)
        ts.wf(st, g.t)
        laws(ex, st, ts)
        g.vb = ex.newblk(st, 'heap', 'result', 24)
        g.v = VecV(g.vb, 0, 4, name='result').setup(ex, st)
        g.W = ex.newblk(st, 'ghost', 'position', None)
        st.mem[g.W].arrs[32] = a_store(a_base('position', 32), g.t, g.v.n0)
        g.tow = toward(ex, st, ts, g.t)
        return [this, g.t, Ptr(g.vb, 0)]

    def w(self, st, g, x):
        return cell(st, g.W, x, 32)

    def rel(self, ex, g, ts, t, v, s0, s1, n0):
        W0, W1 = (lambda x: self.w(s0, g, x)), (lambda x: self.w(s1, g, x))
        x = bound('x')
        n1 = v.size(ex, s1)
        at1 = lambda k: v.at(ex, s1, k)
        val = lambda x: AND(le(1, x), lt(x, ts.nt))
        return [('what was in the result stays', all_k(0, n0, lambda k: eq(at1(k), v.at(ex, s0, k)))),
                ('only types subsumed by the type are appended', all_k(n0, n1, lambda k: AND(val(at1(k)), ts.anc(t, at1(k))))),
                ('every subsumed type is appended', FORALL(x, IMP(AND(val(x), ts.anc(t, x)), AND(le(n0, W1(x)), lt(W1(x), n1), eq(at1(W1(x)), x))), [ts.anc(t, x)])),
                ('no type is appended twice', all_k(n0, n1, lambda k: eq(W1(at1(k)), k))),
                ('positions of other types are kept', FORALL(x, IMP(AND(val(x), NOT(ts.anc(t, x)), ne(x, t)), eq(W1(x), W0(x))), [ts.anc(t, x), W1(x)])),
                ('the result does not shrink', lt(n0, n1))]

    def post(self, ex, g, st0, st1, ret):
        return self.rel(ex, g, g.ts, g.t, g.v, st0, st1, g.v.n0) + g.v.wf(ex, st1)

    def modifies(self, ex, g, st0):
        m = dict(g.v.mod())
        m[g.W] = None
        return m

    def frees(self, ex, g, st0):
        return [g.v.buf0]

    def call(self, ex, st, args):
        g = ex.g
        ts = g.ts
        this, t, vp = args
        v = VecV(vp.b, vp.o, 4, name='result')
        ex.oblige(st, 'requires of getSubsumedTypes: a valid type', AND(le(1, t), lt(t, ts.nt)), 'pre')
        for lb, f in v.wf(ex, st):
            ex.oblige(st, 'requires of getSubsumedTypes: ' + lb, f, 'pre')
        child_hints(ex, st, ts, g.t, t, g.tow)
        s0 = st.snap()
        n0 = v.size(ex, st)
        n1 = u(freshname('n'), 0, MAXB // 4)
        v.move(ex, st, n1)
        nm = freshname('position')
        ex.setarr(st, g.W, 32, a_havoc(st.mem[g.W].arr(32), nm))
        for lb, f in self.rel(ex, g, ts, t, v, s0, st, n0) + v.wf(ex, st):
            st.assume(f)
        return [('ret', st, None)]

    def inv(self, ex, lc):
        g = ex.g
        ts, v, st0 = g.ts, g.v, g.st0
        if lc.fn.dem != self.dem:
            return []
        n0 = v.n0
        L = [(lb, (lambda v_, s, i=i: v.wf(ex, s)[i][1])) for i, (lb, f) in enumerate(v.wf(ex, lc.entry))]
        W = lambda s, x: self.w(s, g, x)
        val = lambda x: AND(le(1, x), lt(x, ts.nt))
        L += [('prefix kept', lambda v_, s: all_k(0, n0, lambda k: eq(v.at(ex, s, k), v.at(ex, st0, k)))),
              ('the type itself is first', lambda v_, s: AND(lt(n0, v.size(ex, s)), eq(v.at(ex, s, n0), g.t), eq(W(s, g.t), n0))),
              ('only descendants', lambda v_, s: all_k(n0, v.size(ex, s), lambda k: AND(val(v.at(ex, s, k)), ts.anc(g.t, v.at(ex, s, k))))),
              ('no duplicates', lambda v_, s: all_k(n0, v.size(ex, s), lambda k: eq(W(s, v.at(ex, s, k)), k))),
              ('other positions kept', lambda v_, s: (lambda x: FORALL(x, IMP(AND(val(x), NOT(ts.anc(g.t, x))), eq(W(s, x), W(st0, x))), [ts.anc(g.t, x)]))(bound('x')))]
        for key in lc.ints:
            def done(v_, s, key=key):
                x = bound('x')
                return FORALL(x, IMP(AND(val(x), ts.anc(g.t, x), OR(eq(x, g.t), lt(ts.idx(g.tow(x)), v_[key]))),
                                     AND(le(n0, W(s, x)), lt(W(s, x), v.size(ex, s)), eq(v.at(ex, s, W(s, x)), x))), [ts.anc(g.t, x)])
            L += [('subtrees of the children before the index are in', done),
                  ('only those subtrees', lambda v_, s, key=key: all_k(n0, v.size(ex, s), lambda k: OR(eq(v.at(ex, s, k), g.t), lt(ts.idx(g.tow(v.at(ex, s, k))), v_[key]))))]
        return L


class Direct(TC):
    dem = T + 'getDirectSubTypes(unsigned int, std::vector<unsigned int, std::allocator<unsigned int>>&) const'

    def setup(self, ex, st, g):
        this = self.base(ex, st, g)
        g.t = u('type')
        self.valid(st, g, g.t)
        g.ts.wf(st, g.t)
        g.vb = ex.newblk(st, 'heap', 'result', 24)
        g.v = VecV(g.vb, 0, 4, name='result').setup(ex, st)
        return [this, g.t, Ptr(g.vb, 0)]

    def post(self, ex, g, st0, st1, ret):
        v, ts = g.v, g.ts
        x = bound('x')
        return [('as many entries as the type has direct subtypes', eq(v.size(ex, st1), ts.nchild(g.t))),
                ('every entry is a declared direct subtype', all_k(0, v.size(ex, st1), lambda k: eq(ts.par(v.at(ex, st1, k)), g.t))),
                ('every declared direct subtype is an entry', FORALL(x, IMP(AND(le(2, x), lt(x, ts.nt), eq(ts.par(x), g.t)), eq(v.at(ex, st1, ts.idx(x)), x)), [ts.idx(x)])),
                ] + v.wf(ex, st1)

    def modifies(self, ex, g, st0):
        return g.v.mod()

    def frees(self, ex, g, st0):
        return [g.v.buf0]

    def inv(self, ex, lc):
        g = ex.g
        v, ts = g.v, g.ts
        L = [(lb, (lambda v_, s, i=i: v.wf(ex, s)[i][1])) for i, (lb, f) in enumerate(v.wf(ex, lc.entry))]
        L += [('entries so far', lambda v_, s: all_k(0, v.size(ex, s), lambda k: eq(v.at(ex, s, k), ts.child(g.t, k))))]
        for key, (nm, w) in lc.ints.items():
            L += [('as many entries as %s' % nm, lambda v_, s, key=key: eq(v.size(ex, s), v_[key]))]
        return L


CONTRACTS = [Subsumes(), Laws(), GetParent(), Common(), Subsumed(), Direct()]
