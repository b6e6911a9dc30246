"""ICU UnicodeString seen through its abstract content: one 512-bit cell per object; equality of texts is equality of contents."""
import re
from tsys import *

I = r'icu_\d+::UnicodeString'


def put(ex, st, p, c):
    for s, b in ex.resolve(st, p):
        ex.checkaccess(s, b, p.o, 64, 'text object')
        ex.setarr(s, b, UST, a_store(s.mem[b].arr(UST), div(p.o, 64), c))


def one(ex, st, p):
    rs = ex.resolve(st, p)
    if len(rs) != 1:
        raise Undecided('text object at an unknown place')
    return Ptr(rs[0][1], p.o)


def text(ex, st, p):
    p = one(ex, st, p)
    ex.checkaccess(st, p.b, p.o, 64, 'text object')
    return ust_at(ex, st, p)


def fset(ex, st, p, c):
    p = one(ex, st, p)
    ex.checkaccess(st, p.b, p.o, 64, 'text object')
    ex.setarr(st, p.b, UST, a_store(st.mem[p.b].arr(UST), div(p.o, 64), c))


EMPTY = lambda: uf('ust.empty', lo=0)


def eqs(ex, st, a, i, d):
    return eq(text(ex, st, a[0]), text(ex, st, a[1]))


def nes(ex, st, a, i, d):
    return NOT(eq(text(ex, st, a[0]), text(ex, st, a[1])))


def assign(ex, st, a, i, d):
    fset(ex, st, a[0], text(ex, st, a[1]))
    return a[0]


def copyctor(ex, st, a, i, d):
    src = a[1]
    if not isinstance(src.b, int) and src.b.op == 'var':      # text returned by a call outside the model (error messages): any text
        fset(ex, st, a[0], u(freshname('text'), 0, None))
        return None
    fset(ex, st, a[0], text(ex, st, src))
    return None


def emptyctor(ex, st, a, i, d):
    fset(ex, st, a[0], EMPTY())
    return None


def cat(a, b):
    return uf('ust.cat', a, b, lo=0)


def chr1(c):
    return uf('ust.chr', c, lo=0)


def appendu(ex, st, a, i, d):
    fset(ex, st, a[0], cat(text(ex, st, a[0]), text(ex, st, a[1])))
    return a[0]


def appendc(ex, st, a, i, d):
    fset(ex, st, a[0], cat(text(ex, st, a[0]), chr1(a[1])))
    return a[0]


def length(ex, st, a, i, d):
    return uf('ust.len', text(ex, st, a[0]), lo=0, hi=(1 << 31) - 1)


def dtor(ex, st, a, i, d):
    return None


def ix(kind):
    def f(ex, st, a, i, d):
        t = text(ex, st, a[0])
        r = u(freshname('pos'), 0, (1 << 32) - 1)
        v = uf('ust.' + kind, t, a[1], lo=-1, hi=(1 << 31) - 1)
        st.assume(eq(r, ite(eq(v, -1), (1 << 32) - 1, v)))
        return r
    return f


def sub_(t, lo, hi):
    return uf('ust.sub', t, lo, hi, lo=0)


def extractb(ex, st, a, i, d):
    fset(ex, st, a[3], sub_(text(ex, st, a[0]), a[1], a[2]))
    return None


TEXT = [(re.compile(I + r'::operator==\(' + I + r' const&\) const'), eqs), (re.compile(I + r'::operator!=\(' + I + r' const&\) const'), nes),
        (re.compile(I + r'::operator=\(' + I + r'( const&|&&)\)'), assign), (re.compile(I + r'::UnicodeString\(' + I + r'( const&|&&)\)$'), copyctor),
        (re.compile(I + r'::UnicodeString\(\)$'), emptyctor), (re.compile(I + r'::append\(' + I + r' const&\)'), appendu),
        (re.compile(I + r'::operator\+=\(' + I + r' const&\)'), appendu), (re.compile(I + r'::(append|operator\+=)\(char16_t\)'), appendc),
        (re.compile(I + r'::length\(\) const'), length), (re.compile(I + r'::~UnicodeString\(\)'), dtor),
        (re.compile(I + r'::indexOf\(char16_t\) const'), ix('first')), (re.compile(I + r'::lastIndexOf\(char16_t\) const'), ix('last')),
        (re.compile(I + r'::extractBetween\(int, int, ' + I + r'&\) const'), extractb)]


def vtab(ex, st, b):
    """virtual table of a UnicodeString (ICU 74: slot 3 is extractBetween)"""
    if not hasattr(ex, 'ustvt'):
        name = '_ZNK6icu_7413UnicodeString14extractBetweenEiiRS0_'
        c = ex.newblk(st, 'code', '@extractBetween', 1)
        ex.codename[c] = name
        ex.P.decl.setdefault(name, {'dem': 'icu_74::UnicodeString::extractBetween(int, int, icu_74::UnicodeString&) const'})
        ex.ustvt = ex.newblk(st, 'global', 'vtable of UnicodeString', None)
        st.mem[ex.ustvt].arrs['pb'] = Arr('lam', lambda k: ite(eq(k, 3), c, 0), 'pb')
        st.mem[ex.ustvt].arrs['po'] = Arr('lam', lambda k: 0, 'po')
    fput(ex, st, b, 0, 'ptr', Ptr(ex.ustvt, 0))
