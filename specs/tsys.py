"""Logical view of the type system: names, tree (children, parents), introduced features; ghost ancestor relation."""
from fsh import *

UST = 512          # one 64-byte icu::UnicodeString, seen as a cell that holds its abstract content


class Tree(TSV):
    """type system tables satisfying their representation invariant.
    parent(t), child(p, i), nchild(p), intro(t, i), nintro(t); anc(a, b): a is b or an ancestor of b"""

    def __init__(self, ex, st, name='ts'):
        TSV.__init__(self, ex, st, name)
        o = self.o
        nt = self.nt
        self.names, _ = vec_setup(ex, st, self.b, o('iv_vecTypeNames'), name + '.names', 64, nt)
        self.fnames, _ = vec_setup(ex, st, self.b, o('iv_vecFeatureBaseNames'), name + '.fnames', 64, self.nf)
        self.nchild = lambda p: uf(name + '.nchild', p, lo=0, hi=LIM)
        self.nintro = lambda p: uf(name + '.nintro', p, lo=0, hi=LIM)
        self.tree, self.treebuf = vecfam_setup(ex, st, self.b, o('iv_vecTree'), name + '.tree', nt, 4, self.nchild)
        self.introf, self.introbuf = vecfam_setup(ex, st, self.b, o('iv_vecIntroducedFeatures'), name + '.intro', nt, 4, self.nintro)
        self.child = cells_uf(name + '.tree', 32)
        self.intro = cells_uf(name + '.intro', 32)
        self.idx = lambda t: uf(name + '.idx', t, lo=0, hi=LIM)
        self.fidx = lambda f: uf(name + '.fidx', f, lo=0, hi=LIM)
        self.fowner = lambda f: uf(name + '.fowner', f, lo=0, hi=LIM)
        self.st = st

    def par(self, t):
        return cell(self.st, self.parents, t, 32)

    def tname(self, t):
        return cell(self.st, self.names, t, UST)

    def fname(self, f):
        return cell(self.st, self.fnames, f, UST)

    def anc(self, a, b):
        return pred('anc', a, b)

    def isanc(self, a, b):
        """what subsumes(a, b) has to return"""
        return OR(eq(a, b), AND(le(1, b), lt(b, self.nt), self.anc(a, b)))

    def w2(self, p, i):
        c = self.child(p, i)
        return IMP(AND(le(0, p), lt(p, self.nt), le(0, i), lt(i, self.nchild(p))), AND(le(2, c), lt(c, self.nt), eq(self.par(c), p), eq(self.idx(c), i)))

    def w3(self, t):
        p = self.par(t)
        return IMP(AND(le(2, t), lt(t, self.nt)), AND(le(1, p), lt(p, t), lt(self.idx(t), self.nchild(p)), eq(self.child(p, self.idx(t)), t)))

    def unfold(self, a, b):
        return IMP(AND(le(1, b), lt(b, self.nt)), IFF(self.anc(a, b), OR(eq(a, b), AND(ne(b, 1), self.anc(a, self.par(b))))))

    def wf(self, st, *ground):
        """assume the representation invariant"""
        st.assume(eq(self.par(1), 1))
        st.assume(eq(self.par(0), 0))
        p, i, t = bound('p'), bound('i'), bound('t')
        st.assume(FORALL([p, i], self.w2(p, i), [self.child(p, i)]))
        st.assume(FORALL(t, self.w3(t), [self.par(t)]))
        for x in ground:
            st.assume(self.w3(x))

    def ancdef(self, st):
        """definition of the ancestor relation (well founded: a parent has a smaller number)"""
        a, b = bound('a'), bound('b')
        st.assume(FORALL([a, b], self.unfold(a, b), [(self.anc(a, b), self.par(b))]))

    def induct(self, ex, st, name, P, lo=1):
        """lemma by induction over type numbers: (forall y < x. P(y)) -> P(x), then forall x. P(x) is assumed"""
        x = var(freshname('x'), lo)
        hyp = AND(lt(x, self.nt), all_k(lo, x, P))
        ex.oblige(st, 'lemma (induction): ' + name, IMP(hyp, P(x)), 'post')
        y = bound('y')
        st.assume(FORALL(y, IMP(AND(le(lo, y), lt(y, self.nt)), P(y))))


def ust_at(ex, st, p):
    """content of the UnicodeString at p"""
    if not isinstance(p.b, int) or p.b not in st.mem:
        rs = ex.resolve(st, p)
        if len(rs) != 1:
            raise Undecided('UnicodeString at an unknown place')
        p = Ptr(rs[0][1], p.o)
    return a_read(st.mem[p.b].arr(UST), div(p.o, 64))
