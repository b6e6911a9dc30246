"""An index iterator seen through its contract (the functions of STLSingleIndexIterator, proved in V14): a position
pos in 0..n over a sequence S(0..n-1) of structures; n means 'not at a structure' (isValid is false)."""
import re
from fsh import *

NSI = 'uima::lowlevel::internal::'
ITB = re.escape(NSI + 'STLSingleIndexIterator<std::vector<unsigned int, std::allocator<unsigned int>>>::')
ITVT = '_ZTVN4uima8lowlevel8internal22STLSingleIndexIteratorISt6vectorIjSaIjEEEE'
LIMI = 1 << 27


class Wrapped:
    """one iterator object with its ghost position"""

    def __init__(self, ex, st, name='wrapped'):
        self.b = ex.newblk(st, 'heap', name, 40)
        fput(ex, st, self.b, 0, 'ptr', ex.globalptr(st, ITVT, 16))
        self.gb = ex.newblk(st, 'ghost', name + ' position', 8)
        self.n = u(name + '.n', 0, LIMI)
        self.i = u(name + '.i', 0, LIMI)
        st.assume(le(self.i, self.n))
        self.S = lambda k: uf(name + '.S', k, lo=0, hi=(1 << 32) - 1)
        self.tgt = u(name + '.target', 0, LIMI)      # where moveTo goes; n: nowhere
        st.assume(le(self.tgt, self.n))
        fput(ex, st, self.gb, 0, 'i64', self.i)

    def pos(self, ex, st):
        return fget(ex, st, self.gb, 0, 'i64')

    def put(self, ex, st, v):
        fput(ex, st, self.gb, 0, 'i64', v)

    def mod(self):
        return {self.gb: None}


def _w(ex, a):
    g = ex.g
    if not (isinstance(a[0].b, int) and a[0].b in g.iters):
        raise Undecided('an iterator that is not the wrapped one')
    return g.iters[a[0].b]


def first(ex, st, a, i, d):
    _w(ex, a).put(ex, st, 0)


def last(ex, st, a, i, d):
    w = _w(ex, a)
    w.put(ex, st, ite(eq(w.n, 0), 0, add(w.n, -1)))


def nxt(ex, st, a, i, d):
    w = _w(ex, a)
    p = w.pos(ex, st)
    ex.oblige(st, 'requires of moveToNext: the iterator is at a structure', lt(p, w.n), 'pre')
    w.put(ex, st, add(p, 1))


def prv(ex, st, a, i, d):
    w = _w(ex, a)
    p = w.pos(ex, st)
    ex.oblige(st, 'requires of moveToPrevious: the iterator is at a structure', lt(p, w.n), 'pre')
    w.put(ex, st, ite(eq(p, 0), w.n, add(p, -1)))


def valid(ex, st, a, i, d):
    w = _w(ex, a)
    return ne(w.pos(ex, st), w.n)


def get(ex, st, a, i, d):
    w = _w(ex, a)
    p = w.pos(ex, st)
    ex.oblige(st, 'requires of get: the iterator is at a structure', lt(p, w.n), 'pre')
    return w.S(p)


def gettype(ex, st, a, i, d):
    w = _w(ex, a)
    p = w.pos(ex, st)
    ex.oblige(st, 'requires of getTyFSType: the iterator is at a structure', lt(p, w.n), 'pre')
    return uf('typeof', w.S(p), lo=0, hi=(1 << 32) - 1)


def moveto(ex, st, a, i, d):
    w = _w(ex, a)
    ex.oblige(st, 'requires of moveTo: the structure asked for', eq(a[1], ex.g.x), 'pre')
    w.put(ex, st, ite(lt(w.tgt, w.n), w.tgt, w.pos(ex, st)))
    return lt(w.tgt, w.n)


ITSTUBS = [(re.compile(ITB + r'moveToFirst\(\)'), first), (re.compile(ITB + r'moveToLast\(\)'), last), (re.compile(ITB + r'moveToNext\(\)'), nxt),
           (re.compile(ITB + r'moveToPrevious\(\)'), prv), (re.compile(ITB + r'isValid\(\)'), valid), (re.compile(ITB + r'get\(\)'), get),
           (re.compile(ITB + r'getTyFSType\(\)'), gettype), (re.compile(ITB + r'moveTo\('), moveto)]
