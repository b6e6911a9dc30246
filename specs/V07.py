"""V07: language codes: accepted exactly when well formed, stored normalized; comparisons, matching and the numeric form agree with the code."""
import re
from spec import *

LEVEL = 'proof'
TUS = ['framework/language.cpp']
REPLAY = 'V07.cpp'
L = 'uima::Language::'
STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'


def lower(c):
    return ite(AND(le(65, c), le(c, 90)), add(c, 32), c)


def letter(c):
    return AND(le(97, c), le(c, 122))


# ---- C library on short texts (assumed: the functions do what the C standard says, in the C or UTF-8 locale) -------------
def byte(ex, st, p, k, what):
    (s, b), = one(ex, st, p)
    ex.checkaccess(s, b, add(p.o, k), 1, what)
    return cell(s, b, add(p.o, k), 8)


def one(ex, st, p):
    rs = ex.resolve(st, p)
    if len(rs) != 1:
        raise Undecided('text at an unknown place')
    return rs


def sizeof(ex, st, p):
    (s, b), = one(ex, st, p)
    z = s.mem[b].size
    return z - p.o if isinstance(z, int) and isinstance(p.o, int) else None


def strlen(ex, st, a, i, d):
    p, = a
    (s, b), = one(ex, st, p)
    blk = s.mem[b]
    n = var(freshname('strlen'), 0, (1 << 31) - 1)
    ex.oblige(s, 'requires of strlen: the text is NUL-terminated inside its object', exists_k(p.o, blk.size, lambda k: eq(a_read(blk.arr(8), k), 0)), 'pre')
    s.assume(lt(add(p.o, n), blk.size))
    s.assume(eq(a_read(blk.arr(8), add(p.o, n)), 0))
    s.assume(all_k(p.o, add(p.o, n), lambda k: ne(a_read(blk.arr(8), k), 0)))
    return n


def tolow(ex, st, a, i, d):
    c = a[0]
    return ite(AND(le(65, c), le(c, 90)), add(c, 32), c)


def toupp(ex, st, a, i, d):
    c = a[0]
    return ite(AND(le(97, c), le(c, 122)), sub(c, 32), c)


def strspn(ex, st, a, i, d):
    p, q = a
    m = sizeof(ex, st, p)
    if m is None or m > 16:
        raise Undecided('strspn over a long text')
    acc = []
    for k in range(64):
        c = byte(ex, st, q, k, 'strspn')
        if not isinstance(c, int):
            raise Undecided('strspn with a set that is not constant')
        if c == 0:
            break
        acc.append(c)
    bs = [cell(st, one(ex, st, p)[0][1], add(p.o, k), 8) for k in range(m)]
    ins = [OR(*[eq(x, c) for c in sorted(set(acc))]) for x in bs]
    # the text ends inside its object or at a byte outside the set
    ex.oblige(st, 'requires of strspn: the text ends inside its object', OR(*[NOT(x) for x in ins]), 'pre')
    r = m
    for k in reversed(range(m)):
        r = ite(ins[k], r, k)
    return r


def put8(ex, st, p, k, v, what):
    (s, b), = one(ex, st, p)
    ex.checkaccess(s, b, add(p.o, k), 1, what)
    ex.setarr(s, b, 8, a_store(s.mem[b].arr(8), add(p.o, k), v))


def strcpy(ex, st, a, i, d):
    p, q = a
    for k in range(64):
        c = byte(ex, st, q, k, 'strcpy read')
        put8(ex, st, p, k, c, 'strcpy write')
        if c == 0 and isinstance(c, int):
            return p
        if not isinstance(c, int):
            raise Undecided('strcpy of a text that is not constant')
    raise Undecided('strcpy of a long text')


def strncpy(ex, st, a, i, d):
    p, q, n = a
    if not isinstance(n, int) or n > 64:
        raise Undecided('strncpy of a long text')
    ended = False
    m = sizeof(ex, st, q)
    for k in range(n):
        if m is not None and k < m:
            c = cell(st, one(ex, st, q)[0][1], add(q.o, k), 8)
        else:
            ex.oblige(st, 'requires of strncpy: the text ends inside its object', ended, 'pre')
            c = 0
        v = ite(ended, 0, c) if ended is not False else c
        ended = OR(ended, eq(c, 0))
        put8(ex, st, p, k, v, 'strncpy write')
    return p


def compare(fold, limited):
    def f(ex, st, a, i, d):
        p, q = a[:2]
        ms = [sizeof(ex, st, x) for x in (p, q)]
        if None in ms:
            raise Undecided('comparison of texts of unknown size')
        m = min(ms + [16])
        if limited:
            if not isinstance(a[2], int):
                raise Undecided('comparison with a length that is not constant')
            m = min(m, a[2])
        r = 0
        P, Q = one(ex, st, p)[0][1], one(ex, st, q)[0][1]
        xs = []
        for k in range(m):
            x, y = cell(st, P, add(p.o, k), 8), cell(st, Q, add(q.o, k), 8)
            xs.append((lower(x), lower(y)) if fold else (x, y))
        if not limited or m < a[2]:
            ex.oblige(st, 'requires of a comparison: the texts end inside their objects', OR(*[OR(ne(x, y), eq(x, 0)) for x, y in xs]), 'pre')
        r = 0
        for x, y in reversed(xs):
            r = ite(lt(x, y), (1 << 32) - 1, ite(lt(y, x), 1, ite(eq(x, 0), 0, r)))
        # the sign is specified, not the value
        v = u(freshname('order'))
        st.assume(IFF(eq(v, 0), eq(r, 0)))
        st.assume(IFF(lt(v, 1 << 31), OR(eq(r, 0), eq(r, 1))))
        return v
    return f


def conv(c):
    return ite(OR(letter(lower(c)), eq(c, 45), eq(c, 95), AND(le(c, 127), pred('invariant', c))), c, 0)


def uchars(ex, st, a, i, d):
    """u_UCharsToChars, unit by unit: letters, - and _ are invariant characters; a unit that is not an invariant character gives 0"""
    src, dst, n = a
    (s, b), = one(ex, st, src)
    (s, t), = one(ex, st, dst)
    ex.checkaccess(s, b, src.o, mulc(n, 2), 'u_UCharsToChars read') if n != 0 else None
    ex.checkaccess(s, t, dst.o, n, 'u_UCharsToChars write')
    A, B = s.mem[b].arr(16), s.mem[t].arr(8)
    so = div(src.o, 2)
    new = lam(8, lambda k: ite(AND(le(dst.o, k), lt(k, add(dst.o, n))), conv(a_read(A, add(so, sub(k, dst.o)))), a_read(B, k)))
    ex.g.local = t
    ex.setarr(s, t, 8, new)
    return None


def newstr(ex, st, a, i, d):
    """the text made from a NUL-terminated text: its length, and its bytes up to 15"""
    n = strlen(ex, st, [a[1]], i, d)
    (s, b), = one(ex, st, a[0])
    (s, t), = one(ex, st, a[1])
    buf = ex.newblk(s, 'heap', 'characters', add(n, 1))
    A, o = s.mem[t].arr(8), a[1].o
    ex.setarr(s, buf, 8, lam(8, lambda k: a_read(A, add(o, k))))
    ex.store(s, Ptr(b, a[0].o), 'ptr', Ptr(buf, 0))
    ex.store(s, Ptr(b, add(a[0].o, 8)), 'i64', n)
    return None


def c_str(ex, st, a, i, d):
    return fget(ex, st, one(ex, st, a[0])[0][1], a[0].o, 'ptr')


STUBS = [(re.compile(r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>\s?>::basic_string<std::allocator<char>\s?>\(char const\*, '), newstr), (re.compile(r'strlen$'), strlen), (re.compile(r'tolower$'), tolow), (re.compile(r'toupper$'), toupp), (re.compile(r'strspn$'), strspn),
         (re.compile(r'strcpy$'), strcpy), (re.compile(r'strncpy$'), strncpy), (re.compile(r'strcasecmp$'), compare(True, False)), (re.compile(r'strcmp$'), compare(False, False)),
         (re.compile(r'strncmp$|memcmp$'), compare(False, True)), (re.compile(r'strncasecmp$'), compare(True, True)), (re.compile(r'u_UCharsToChars(_\d+)?$'), uchars),
         (re.compile(r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>\s?>::(c_str|data)\(\) const'), c_str)]


# ---- the language a text denotes ------------------------------------------------------------------------------------
def denoted(n, c):
    """bytes of the normalized code of a text of n bytes c(0..)"""
    l = [lower(c(k)) for k in range(5)]
    two = AND(eq(n, 2), letter(l[0]), letter(l[1]))
    five = AND(eq(n, 5), letter(l[0]), letter(l[1]), OR(eq(c(2), 45), eq(c(2), 95)), letter(l[3]), letter(l[4]))
    none = eq(n, 0)
    ok = OR(two, five)
    b = [ite(ok, l[k], ite(none, 0, 63)) for k in range(2)]
    b.append(ite(five, 45, 0))
    b += [ite(five, l[k], 0) for k in (3, 4)]
    return b + [0]


class Lang:
    """a language object: its code, unspecified, ll, ll-cc or the invalid one"""

    def __init__(self, ex, st, name, filled=True):
        P = ex.P
        self.b = ex.newblk(st, 'heap', name, 9)
        self.o, self.l = P.off('uima::Language', 'iv_locale'), P.off('uima::Language', 'iv_lang')
        if filled:
            c = self.bytes(st)
            self.c = c
            st.assume(wf(c))
            st.assume(AND(*[eq(a, b) for a, b in zip(self.lang(st), [c[0], c[1], 0])]))

    def ptr(self):
        return Ptr(self.b, 0)

    def bytes(self, st):
        return [cell(st, self.b, self.o + k, 8) for k in range(6)]

    def lang(self, st):
        return [cell(st, self.b, self.l + k, 8) for k in range(3)]

    def is_(self, st, b):
        c, l = self.bytes(st), self.lang(st)
        nm_ = ['first', 'second']
        return [('the %s letter of the language' % nm_[k], AND(eq(c[k], b[k]), eq(l[k], b[k]))) for k in range(2)] + \
               [('a separator exactly when there is a territory', eq(c[2], b[2]))] + \
               [('the %s letter of the territory' % nm_[k], eq(c[3 + k], b[3 + k])) for k in range(2)] + \
               [('both codes are terminated', AND(eq(c[5], 0), eq(l[2], 0)))]


def wf(c):
    ll = AND(letter(c[0]), letter(c[1]))
    rest0 = AND(eq(c[2], 0), eq(c[3], 0), eq(c[4], 0))
    return AND(eq(c[5], 0), OR(AND(eq(c[0], 0), eq(c[1], 0), rest0), AND(eq(c[0], 63), eq(c[1], 63), rest0), AND(ll, rest0),
                               AND(ll, eq(c[2], 45), letter(c[3]), letter(c[4]))))


class Make(Contract):
    """a language made from a text"""
    opts = {'use_init': {'_ZN4uima8Language11UNSPECIFIEDE': True}}      # the constant is declared writable

    def __init__(self, sig, kind):
        self.dem, self.kind = L + sig, kind

    def setup(self, ex, st, g):
        g.me = Lang(ex, st, 'language', False)
        if self.kind is None:
            g.n, g.c = 0, lambda k: 0
            return [g.me.ptr()]
        g.n = u('text.length', 0, LIM)
        if self.kind == 'ref':
            t = ex.newblk(st, 'heap', 'text', mulc(g.n, 2))
            A = st.mem[t].arr(16)
            ex.g, g.A = g, A
            r = ex.newblk(st, 'heap', 'reference', 16)
            P = ex.P
            fput(ex, st, r, P.off('uima::UnicodeStringRef', 'iv_pUChars'), 'ptr', Ptr(t, 0))
            fput(ex, st, r, P.off('uima::UnicodeStringRef', 'iv_uiLength'), 'i32', g.n)
            g.c = lambda k: ite(lt(k, g.n), conv(a_read(A, k)), 0)      # 0: a unit that no code has
            return [g.me.ptr(), Ptr(r, 0)]
        t = ex.newblk(st, 'heap', 'text', add(g.n, 1))
        A = st.mem[t].arr(8)
        st.assume(eq(a_read(A, g.n), 0))
        st.assume(all_k(0, g.n, lambda k: ne(a_read(A, k), 0)))
        g.c = lambda k: a_read(A, k)
        p = Ptr(t, 0)
        if self.kind == 'str':
            r = ex.newblk(st, 'heap', 'string', 32)
            fput(ex, st, r, 0, 'ptr', p)
            p = Ptr(r, 0)
        return [g.me.ptr(), p]

    def post(self, ex, g, st0, st1, ret):
        return g.me.is_(st1, denoted(g.n, g.c))

    def modifies(self, ex, g, st0):
        return {g.me.b: None}

    def inv(self, ex, lc):
        g = getattr(ex, 'g', None)
        t = getattr(g, 'local', None)
        if self.kind != 'ref' or t is None:
            return []
        src = lambda k: conv(a_read(g.A, k))
        bad = lambda b: AND(ne(b, 0), NOT(letter(lower(b))), ne(b, 45), ne(b, 95))
        ok = lambda s, k: ite_b(eq(src(k), 0), bad(cell(s, t, k, 8)), eq(cell(s, t, k, 8), src(k)))
        at = [(ik, nm_, lambda v, ik=ik: v[ik]) for ik, (nm_, w) in lc.ints.items()]
        at += [(pk, nm_, lambda v, pk=pk: v[pk].o) for pk, nm_ in lc.ptrs.items()]
        R = [('other units are replaced before %s' % nm_, lambda v, s, f=f: all_k(0, f(v), lambda k: ok(s, k))) for ik, nm_, f in at]
        R += [('units from %s on are as converted' % nm_, lambda v, s, f=f: all_k(f(v), 32, lambda k: eq(cell(s, t, k, 8), cell(lc.entry, t, k, 8)))) for ik, nm_, f in at]
        return R


class Number(Contract):
    """the language of a number made by asNumber"""
    dem = L + 'Language(long)'

    def setup(self, ex, st, g):
        g.me = Lang(ex, st, 'language', False)
        g.o = Lang(ex, st, 'other')
        c = g.o.c
        return [g.me.ptr(), add(mulc(c[0], 1 << 24), add(mulc(c[1], 1 << 16), add(mulc(c[3], 256), c[4])))]

    def post(self, ex, g, st0, st1, ret):
        return g.me.is_(st1, g.o.c)

    def modifies(self, ex, g, st0):
        return {g.me.b: None}


class Ask(Contract):
    """a question about one language"""

    def __init__(self, sig, what, f):
        self.dem, self.what, self.f = L + sig, what, f

    def setup(self, ex, st, g):
        g.me = Lang(ex, st, 'language')
        return [g.me.ptr()]

    def post(self, ex, g, st0, st1, ret):
        return [(self.what, self.f(ret, g.me.c, g.me))]


class AsString(Ask):
    def __init__(self):
        self.dem = L + 'asString[abi:cxx11]() const'

    def setup(self, ex, st, g):
        g.r = ex.newblk(st, 'heap', 'result', 32)
        return [Ptr(g.r, 0)] + Ask.setup(self, ex, st, g)

    def modifies(self, ex, g, st0):
        return {g.r: None}

    def post(self, ex, g, st0, st1, ret):
        p, n, c = fget(ex, st1, g.r, 0, 'ptr'), fget(ex, st1, g.r, 8, 'i64'), g.me.c
        return [('as long as the code', eq(n, ite(eq(c[0], 0), 0, ite(eq(c[3], 0), 2, 5))))] + \
               [('byte %d of the text is that of the code' % k, IMP(lt(k, n), eq(cell(st1, p.b, add(p.o, k), 8), c[k]))) for k in range(5)]


def lexless(a, b):
    r = False
    for x, y in reversed(list(zip(a, b))):
        r = OR(lt(x, y), AND(eq(x, y), r))
    return r


class Two(Contract):
    def __init__(self, sig, what, f):
        self.dem, self.what, self.f = L + sig, what, f

    def setup(self, ex, st, g):
        g.me, g.o = Lang(ex, st, 'language'), Lang(ex, st, 'other language')
        return [g.me.ptr(), g.o.ptr()]

    def post(self, ex, g, st0, st1, ret):
        return [(self.what, IFF(ret, self.f(g.me.c, g.o.c)))]


same = lambda a, b: AND(*[eq(x, y) for x, y in zip(a, b)])
matches = lambda a, b: OR(same(a, b), eq(a[0], 0), eq(b[0], 0), AND(eq(a[0], b[0]), eq(a[1], b[1]), OR(eq(a[3], 0), eq(b[3], 0))))
num = lambda c: add(mulc(c[0], 1 << 24), add(mulc(c[1], 1 << 16), add(mulc(c[3], 256), c[4])))
CMP = '(uima::Language const&) const'
CONTRACTS = [Make('Language()', None), Make('Language(char const*)', 'c'), Make('Language(%s const&)' % STR, 'str'), Make('Language(uima::UnicodeStringRef const&)', 'ref'),
             Make('setValue(%s const&)' % STR, 'str'), Number(),
             Two('operator==' + CMP, 'equal exactly when the codes are', same), Two('operator!=' + CMP, 'different exactly when the codes are', lambda a, b: NOT(same(a, b))),
             Two('operator<' + CMP, 'ordered as the codes', lexless),
             Two('matches' + CMP, 'matches exactly when equal, one is unspecified, or the language is equal and one has no territory', matches),
             Ask('isValid() const', 'valid exactly when the code is not the invalid one', lambda r, c, m: IFF(r, ne(c[0], 63))),
             Ask('hasLanguage() const', 'has a language exactly when specified', lambda r, c, m: IFF(r, ne(c[0], 0))),
             Ask('hasTerritory() const', 'has a territory exactly when the code has one', lambda r, c, m: IFF(r, ne(c[3], 0))),
             Ask('getLanguageCode() const', 'the code of the language', lambda r, c, m: AND(r.b == m.b, eq(r.o, m.l))),
             Ask('getTerritoryCode() const', 'the code of the territory', lambda r, c, m: AND(r.b == m.b, eq(r.o, m.o + 3))),
             AsString(), Ask('asNumber() const', 'the bytes of the language and the territory', lambda r, c, m: eq(r, num(c))),
             Ask('getLanguage() const', 'the bytes of the language', lambda r, c, m: eq(r, num([c[0], c[1], 0, 0, 0]))),
             Ask('getTerritory() const', 'the bytes of the territory', lambda r, c, m: eq(r, num([0, 0, 0, c[3], c[4]])))]
ASSUMPTIONS = ['strlen, strspn, strcpy, strncpy, strcasecmp and tolower do what the C standard says (C or UTF-8 locale); u_UCharsToChars copies invariant characters (letters, - and _ are some) and gives 0 for others',
               ]
