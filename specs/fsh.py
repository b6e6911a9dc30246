"""Contracts shared by the properties over the feature structure heap (V01 heap growth used in call mode, string length)."""
import re
from spec import *
import V01

F = 'uima::lowlevel::FSHeap::'
LIB = [V01.Grow(e) for e in V01.ELT]      # proved in V01, used here through their contracts only


def u_strlen(ex, st, args, i, dem):
    """assumed contract of ICU's u_strlen: the index of the first NUL"""
    p, = args
    out = []
    for s, b in ex.resolve(st, p):
        ex.checkaccess(s, b, p.o, 2, 'u_strlen argument')
        blk = s.mem[b]
        nm_ = freshname('strlen')
        n = var(nm_, 0, (1 << 31) - 1)
        o = div(p.o, 2)
        # the argument must be terminated inside its object
        ex.oblige(s, 'requires of u_strlen: the text is NUL-terminated inside its object',
                  exists_k(o, div(blk.size, 2), lambda k: eq(a_read(blk.arr(16), k), 0)), 'pre')
        s.assume(lt(add(o, n), div(blk.size, 2)))
        s.assume(eq(a_read(blk.arr(16), add(o, n)), 0))
        s.assume(all_k(o, add(o, n), lambda k: ne(a_read(blk.arr(16), k), 0)))
        out.append(('ret', s, n))
    return out


STUBS = [(re.compile(r'u_strlen(_\d+)?$'), u_strlen)]


class HeapC(Contract):
    """a contract over one FSHeap, with a frame that names the heaps that may change"""

    def base(self, ex, st, g):
        g.ts = TSV(ex, st)
        g.H = FSHeapV(ex, st, g.ts)
        return Ptr(g.H.b, 0)

    def grown(self, g):
        """heaps that may be reallocated"""
        return []

    def cells(self, g):
        """[(heap, lo, hi)] cells that may change without growth"""
        return []

    def modifies(self, ex, g, st0):
        m = {}
        for h in self.grown(g):
            m.setdefault(h.b, []).extend([('ptr', h.o_buf // 8, h.o_buf // 8 + 1), (32, h.o_top // 4, h.o_top // 4 + 1), (32, h.o_cells // 4, h.o_cells // 4 + 1)])
            m[h.buf0] = None
        for h, lo, hi in self.cells(g):
            if h not in self.grown(g):
                m.setdefault(h.buf0, []).append((h.w, lo, hi))
        return m

    def frees(self, ex, g, st0):
        return [h.buf0 for h in self.grown(g)]

    def kept(self, ex, g, st0, st1):
        """heaps not mentioned keep everything (the frame condition covers their cells; this covers top and form)"""
        L = []
        for h in g.H.h.values():
            if h not in self.grown(g):
                L += [('%s: top unchanged' % h.name, eq(h.top(ex, st0), h.top(ex, st1)))]
        return L

    def feature(self, ex, st, g, fs='fs', f='feat'):
        """a feature structure reference and a feature that is appropriate for it"""
        g.fs = u(fs, 1)
        g.f = u(f, 1)
        st.assume(lt(g.f, g.ts.nf))
        g.off = g.ts.featoff(st, g.f)
        g.cell = add(g.fs, g.off)
        st.assume(le(1, g.off))
        st.assume(lt(g.cell, g.H.fs.top(ex, st)))
        return g.fs, g.f


def sext(v, w, t):
    """sign extension from w to t bits on canonical unsigned values"""
    return ite(ge(v, 1 << (w - 1)), add(v, (1 << t) - (1 << w)), v)


def trunc(v, w):
    return mod(v, 1 << w)
