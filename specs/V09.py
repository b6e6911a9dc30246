"""V09: a local sofa stream delivers exactly the bytes of the sofa data, in order, and never bytes outside it."""
from api import *
import V03
from V07 import one

LEVEL = 'proof'
TUS = ['cas/sofastream.cpp', 'cas/arrayfs.cpp', 'cas/featurestructure.cpp', 'cas/cas.cpp', 'cas/internal_typeshortcuts.cpp', 'cas/lowlevel_fsheap.cpp', 'cas/lowlevel_typesystem.cpp']
REPLAY = 'V09.cpp'
S = 'uima::LocalSofaDataStream::'
CN = 'uima::LocalSofaDataStream'
MAX = (1 << 31) - 1
FLAG = {'string': 'iv_isstring', 'int': 'iv_isintarray', 'float': 'iv_isfloatarray', 'bool': 'iv_isbooleanarray', 'byte': 'iv_isbytearray',
        'short': 'iv_isshortarray', 'long': 'iv_islongarray', 'double': 'iv_isdoublearray'}
ESZ = {'string': 1, 'int': 4, 'float': 4, 'bool': 1, 'byte': 1, 'short': 2, 'long': 8, 'double': 8}
NAME = {'int': 'IntegerArray', 'float': 'FloatArray', 'bool': 'BooleanArray', 'byte': 'ByteArray', 'short': 'ShortArray', 'long': 'LongArray', 'double': 'DoubleArray'}


class Stream(Contract):
    """an open stream over size bytes at data, positioned at pos; or a closed one (no data)"""

    def stream(self, ex, st, g, open_=True, kind=None):
        P = ex.P
        lay = P.layouts[CN]
        g.o = lambda f: P.off(CN, f)
        g.this = ex.newblk(st, 'heap', 'stream', max(lay.values()) + 8)
        g.kind = kind
        fput(ex, st, g.this, 0, 'ptr', ex.globalptr(st, '_ZTVN4uima19LocalSofaDataStreamE', 16))
        if not open_:
            fput(ex, st, g.this, g.o('iv_psofadata'), 'ptr', NULL)
            return Ptr(g.this, 0)
        g.size, g.pos = u('stream.size', 0, MAX), u('stream.pos', 0, MAX)
        st.assume(le(g.pos, g.size))
        g.data = ex.newblk(st, 'heap', 'sofa data', None)
        g.d0 = u('data.start', 0, LIM * 8)
        st.mem[g.data].allow = lambda off, n: AND(le(g.d0, off), le(add(off, n), add(g.d0, g.size)))
        fput(ex, st, g.this, g.o('iv_psofadata'), 'ptr', Ptr(g.data, g.d0))
        fput(ex, st, g.this, g.o('iv_curpos'), 'i64', g.pos)
        fput(ex, st, g.this, g.o('iv_size'), 'i32', g.size)
        for k, f in FLAG.items():
            fput(ex, st, g.this, g.o(f), 'i8', 1 if k == kind else 0)
        return Ptr(g.this, 0)

    def posn(self, ex, g, st):
        return fget(ex, st, g.this, g.o('iv_curpos'), 'i64')

    def poscell(self, g):
        return (64, g.o('iv_curpos') // 8, g.o('iv_curpos') // 8 + 1)


class Read(Stream):
    """read of elements of the size of the data"""
    dem = S + 'read(void*, int, unsigned long)'

    def __init__(self, kind):
        self.kind = kind

    @property
    def name(self):
        return self.dem + ' of %s data' % self.kind

    def setup(self, ex, st, g):
        p = self.stream(ex, st, g, True, self.kind)
        e = g.e = ESZ[self.kind]
        g.n = u('numElements', 0, LIM * 8)
        g.room = u('buffer.size', 0, LIM * 64)
        st.assume(le(mulc(g.n, e), g.room))
        g.buf = ex.newblk(st, 'heap', 'buffer', g.room)
        g.avail = sub(g.size, g.pos)
        g.moved = ite(le(mulc(g.n, e), g.avail), mulc(g.n, e), g.avail)
        return [p, Ptr(g.buf, 0), e, g.n]

    def post(self, ex, g, st0, st1, ret):
        end = eq(g.pos, g.size)
        return [('at the end -1 is returned', IMP(end, eq(ret, (1 << 32) - 1))),
                ('the number of elements read is returned', IMP(NOT(end), eq(ret, div(g.moved, g.e)))),
                ('the position moves by the bytes read', eq(self.posn(ex, g, st1), add(g.pos, g.moved))),
                ('the buffer holds the next bytes of the data', all_k(0, g.moved, lambda k: eq(cell(st1, g.buf, k, 8), cell(st0, g.data, add(add(g.d0, g.pos), k), 8)))),
                ('nothing behind them is written', all_k(g.moved, g.room, lambda k: eq(cell(st1, g.buf, k, 8), cell(st0, g.buf, k, 8))))]

    def modifies(self, ex, g, st0):
        return {g.buf: None, g.this: [self.poscell(g)]}


class ReadWrong(Stream):
    """read with another element size than that of text, int or float data"""
    dem = S + 'read(void*, int, unsigned long)'
    throws = True

    def __init__(self, kind):
        self.kind = kind

    @property
    def name(self):
        return self.dem + ' of %s data with another element size' % self.kind

    def setup(self, ex, st, g):
        p = self.stream(ex, st, g, True, self.kind)
        e = u('elementSize', 0, (1 << 32) - 1)
        st.assume(ne(e, ESZ[self.kind]))
        g.buf = ex.newblk(st, 'heap', 'buffer', None)
        return [p, Ptr(g.buf, 0), e, u('numElements', 0, LIM)]

    def post(self, ex, g, st0, st1, ret):
        return [('returns only at the end, with -1', AND(eq(g.pos, g.size), eq(ret, (1 << 32) - 1)))]

    def exc(self, ex, g, st0, st1, e):
        return [('the exception is SofaDataStreamException', throws(e, 'SofaDataStreamException')), ('not at the end', NOT(eq(g.pos, g.size)))]


class Closed(Stream):
    """read and seek on a stream that is not open"""
    throws = True
    may_not_return = True

    def __init__(self, sig):
        self.dem = S + sig

    @property
    def name(self):
        return self.dem + ' on a closed stream'

    def setup(self, ex, st, g):
        p = self.stream(ex, st, g, False)
        if 'read' in self.dem:
            return [p, Ptr(ex.newblk(st, 'heap', 'buffer', None), 0), u('e'), u('n')]
        return [p, u('offset', -(1 << 62), 1 << 62), u('origin')]

    def post(self, ex, g, st0, st1, ret):
        return [('does not return', False)]

    def exc(self, ex, g, st0, st1, e):
        return [('the exception is SofaDataStreamException', throws(e, 'SofaDataStreamException'))]


class Seek(Stream):
    """SEEK_SET 0: from the start, SEEK_CUR 1: from the position, SEEK_END 2: offset bytes before the end"""
    dem = S + 'seek(long, int)'
    throws = True

    def setup(self, ex, st, g):
        p = self.stream(ex, st, g)
        raw = u('offset', 0, (1 << 64) - 1)
        g.off = ite(lt(raw, 1 << 63), raw, add(raw, -(1 << 64)))
        g.org = u('origin')
        g.to = ite(eq(g.org, 0), g.off, ite(eq(g.org, 1), add(g.pos, g.off), sub(g.size, g.off)))
        g.ok = AND(le(0, g.to), le(g.to, g.size))
        return [p, raw, g.org]

    def post(self, ex, g, st0, st1, ret):
        return [('a known origin', le(g.org, 2)),
                ('a place inside the data: 0 is returned', IMP(g.ok, eq(ret, 0))),
                ('a place inside the data: the position is there', IMP(g.ok, eq(self.posn(ex, g, st1), g.to))),
                ('a place outside the data: -1 is returned', IMP(NOT(g.ok), eq(ret, (1 << 32) - 1))),
                ('a place outside the data: the position is kept', IMP(NOT(g.ok), eq(self.posn(ex, g, st1), g.pos)))]

    def exc(self, ex, g, st0, st1, e):
        return [('an unknown origin', lt(2, g.org)), ('the exception is SofaDataStreamException', throws(e, 'SofaDataStreamException'))]

    def modifies(self, ex, g, st0):
        return {g.this: [self.poscell(g)]}


class Ask(Stream):
    def __init__(self, sig, what, f):
        self.dem, self.what, self.f = S + sig, what, f

    def setup(self, ex, st, g):
        p = self.stream(ex, st, g)
        if 'Bytes' in self.dem:
            st.assume(ne(g.size, 0))
        return [p]

    def post(self, ex, g, st0, st1, ret):
        return [(self.what, self.f(g, ret))]


class Close(Stream):
    """close frees the text made by open and leaves no data"""
    dem = S + 'close()'

    def setup(self, ex, st, g):
        p = self.stream(ex, st, g)
        for f in FLAG.values():
            fput(ex, st, g.this, g.o(f), 'i8', u(f, 0, 1))
        g.txt = ex.newblk(st, 'heap', 'text in UTF-8', g.size)
        g.has = bvar('has text')
        fput(ex, st, g.this, g.o('iv_pstringsofadata'), 'ptr', Ptr(ite(g.has, g.txt, 0), 0))
        return [p]

    def post(self, ex, g, st0, st1, ret):
        return [('no data is left', eq(fget(ex, st1, g.this, g.o('iv_psofadata'), 'ptr').b, 0)),
                ('no text is left', eq(fget(ex, st1, g.this, g.o('iv_pstringsofadata'), 'ptr').b, 0)),
                ('the position is the start', eq(self.posn(ex, g, st1), 0)),
                ('the size is that of no data', eq(fget(ex, st1, g.this, g.o('iv_size'), 'i32'), 0)),
                ('no kind of data is added', AND(*[IMP(eq(fget(ex, st0, g.this, g.o(f), 'i8'), 0), eq(fget(ex, st1, g.this, g.o(f), 'i8'), 0)) for f in FLAG.values()])),
                ('the text is freed', IMP(g.has, not st1.mem[g.txt].live))]

    def modifies(self, ex, g, st0):
        return {g.this: None}

    def frees(self, ex, g, st0):
        return (g.txt,)


# ---- open ------------------------------------------------------------------------------------------------------------
def ctext(ex, st, p):
    """the characters of a constant text"""
    s = ''
    while len(s) < 80:
        c = cell(st, one(ex, st, p)[0][1], add(p.o, len(s)), 8)
        if not isinstance(c, int):
            raise Undecided('text that is not constant')
        if c == 0:
            return s
        s += chr(c)
    raise Undecided('long text')


TEXTS = []


def ustr(ex, st, a, i, d):
    t = ctext(ex, st, a[1])
    if t not in TEXTS:
        TEXTS.append(t)
    fput(ex, st, one(ex, st, a[0])[0][1], a[0].o, 'i32', TEXTS.index(t) + 1)
    return None


def textof(ex, st, p):
    k = fget(ex, st, one(ex, st, p)[0][1], p.o, 'i32')
    if not isinstance(k, int) or not 1 <= k <= len(TEXTS):
        raise Undecided('text that is not constant')
    return TEXTS[k - 1]


def featname(ex, st, a, i, d):
    """getFeatureByBaseName: a feature named by the text"""
    return Agg([TEXTS.index(textof(ex, st, a[1])) + 1, NULL])


def featof(ex, st, p):
    k = fget(ex, st, p.b, add(p.o, ex.P.off('uima::Feature', 'iv_tyFeature')), 'i32')
    if not isinstance(k, int):
        raise Undecided('unknown feature')
    return TEXTS[k - 1]


def untouched(ex, st, a, i, d):
    return NOT(ex.g.isset(featof(ex, st, a[1])))


def sofafs(ex, st, a, i, d):
    """getFSValue and the array getters (V11): the array the sofa refers to"""
    g = ex.g
    ex.oblige(st, 'the data of the sofa array feature is asked for, and is there', featof(ex, st, a[2]) == 'sofaArray' and g.isset('sofaArray'), 'pre')
    P = ex.P
    fput(ex, st, a[0].b, add(a[0].o, P.off('uima::FeatureStructure', 'iv_tyFS')), 'i32', g.fs)
    fput(ex, st, a[0].b, add(a[0].o, P.off('uima::FeatureStructure', 'iv_cas')), 'ptr', Ptr(g.cas, 0))
    return None


def stringvalue(ex, st, a, i, d):
    g = ex.g
    ex.oblige(st, 'the data of the sofa string feature is asked for, and is there', featof(ex, st, a[1]) == 'sofaString' and g.isset('sofaString'), 'pre')
    return Agg([Ptr(g.txt, 0), g.len16])


def typename_compare(ex, st, a, i, d):
    t = textof(ex, st, a[1])
    if not t.startswith('uima.cas.'):
        raise Undecided('comparison with ' + t)
    r = u(freshname('cmp'), 0, 255)
    st.assume(IFF(eq(r, 0), t == ex.g.typename))
    return r


def u8(ex, st, a, i, d):
    """u_strToUTF8(dest, capacity, &length, text, length of text, &error)"""
    g = ex.g
    dst, cap, plen, src, slen, perr = a
    ex.oblige(st, 'the whole text is converted', AND(eq(src.b, g.txt), eq(src.o, 0), eq(slen, g.len16)), 'pre')
    if plen.b != 0:
        fput(ex, st, plen.b, plen.o, 'i32', g.len8)
    e = u(freshname('error'))
    short = lt(cap, g.len8)
    if g.illformed:
        st.assume(eq(e, 10))                                   # U_INVALID_CHAR_FOUND
    else:
        st.assume(IFF(eq(e, 15), short))                       # U_BUFFER_OVERFLOW_ERROR
        st.assume(OR(eq(e, 15), eq(e, 0), ge(e, 1 << 31)))     # else success or a warning
    fput(ex, st, perr.b, perr.o, 'i32', e)
    if dst.b != 0:
        (s, b), = one(ex, st, dst)
        if not (isinstance(cap, int) and cap == 0):
            ex.checkaccess(s, b, dst.o, cap, 'u_strToUTF8 write')
        A, o = s.mem[b].arr(8), dst.o
        ex.setarr(s, b, 8, lam(8, lambda k: ite(AND(le(o, k), lt(k, add(o, ite(short, cap, g.len8)))), uf('utf8', sub(k, o), lo=0, hi=255), a_read(A, k))))
    return dst


class CasNames(dict):
    """the names of the CAS types and features: constants that are declared writable"""

    def get(self, name, d=None):
        return name.startswith('_ZN4uima3CAS')


class OpenC(V03.ArrC):
    opts = {'use_init': CasNames()}
    dem = S + 'open(unsigned long)'

    def newstream(self, ex, st, g):
        P = ex.P
        ex.g = g
        g.o = lambda f: P.off(CN, f)
        g.this = ex.newblk(st, 'heap', 'stream', max(P.layouts[CN].values()) + 8)
        # new, or closed after it was open on the same data (close adds no kind)
        for k, f in FLAG.items():
            fput(ex, st, g.this, g.o(f), 'i8', u(f, 0, 1) if k == g.kind else 0)
        sofa = ex.newblk(st, 'heap', 'sofa', 24)
        fput(ex, st, sofa, P.off('uima::FeatureStructure', 'iv_cas'), 'ptr', Ptr(g.cas, 0))
        t = u('sofa', 1)
        st.assume(lt(t, g.H.fs.top(ex, st)))
        fput(ex, st, sofa, P.off('uima::FeatureStructure', 'iv_tyFS'), 'i32', t)
        fput(ex, st, g.this, g.o('iv_psofafs'), 'ptr', Ptr(sofa, 0))
        return [Ptr(g.this, 0), u('minbufsize')]

    def modifies(self, ex, g, st0):
        return {g.this: None}

    def flags(self, ex, g, st1, kind):
        return [('the stream is %sone of %s data' % ('' if k == kind else 'not ', k), eq(fget(ex, st1, g.this, g.o(f), 'i8'), 1 if k == kind else 0)) for k, f in FLAG.items()] + \
               [('the position is the start', eq(fget(ex, st1, g.this, g.o('iv_curpos'), 'i64'), 0))]

    def exc(self, ex, g, st0, st1, e):
        return [('does not throw', False)]


class OpenArray(OpenC):
    throws = False

    def __init__(self, kind):
        V03.ArrC.__init__(self, 'char' if kind == 'byte' else kind)
        self.kind = kind

    @property
    def name(self):
        return self.dem + ' of %s data' % self.kind

    def setup(self, ex, st, g):
        self.arr(ex, st, g)
        st.assume(g.valid)
        g.isset = lambda f: f == 'sofaArray'
        g.kind = self.kind
        g.typename = 'uima.cas.' + NAME[self.kind]
        g.bytes = ESZ[self.kind]
        st.assume(le(mulc(g.n, g.bytes), MAX))
        return self.newstream(ex, st, g)

    def post(self, ex, g, st0, st1, ret):
        p = fget(ex, st1, g.this, g.o('iv_psofadata'), 'ptr')
        return [('returns 0', eq(ret, 0)), ('a stream over an empty array is open', ne(p.b, 0)), ('the data is that of the array', IMP(ne(g.n, 0), AND(eq(p.b, g.store.buf(ex, st1).b), eq(p.o, add(g.store.buf(ex, st1).o, mulc(g.start, g.bytes)))))),
                ('the size is that of the array', eq(fget(ex, st1, g.this, g.o('iv_size'), 'i32'), mulc(g.n, g.bytes)))] + self.flags(ex, g, st1, self.kind)


class OpenString(OpenC):
    throws = False

    def __init__(self):
        V03.ArrC.__init__(self, 'int')

    @property
    def name(self):
        return self.dem + ' of text data'

    def setup(self, ex, st, g):
        self.cas(ex, st, g)
        g.isset = lambda f: f == 'sofaString'
        g.kind, g.illformed = 'string', False
        g.len16, g.len8 = u('text.length', 0, LIM), u('text.bytes', 0, LIM * 4)
        g.txt = ex.newblk(st, 'heap', 'text', mulc(g.len16, 2))
        return self.newstream(ex, st, g)

    def post(self, ex, g, st0, st1, ret):
        p = fget(ex, st1, g.this, g.o('iv_psofadata'), 'ptr')
        q = fget(ex, st1, g.this, g.o('iv_pstringsofadata'), 'ptr')
        if not isinstance(p.b, int) or p.b == 0:
            raise Undecided('data pointer of the stream')
        return [('returns 0', eq(ret, 0)), ('the size is the number of UTF-8 bytes', eq(fget(ex, st1, g.this, g.o('iv_size'), 'i32'), g.len8)),
                ('the data is the text in UTF-8', all_k(0, g.len8, lambda k: eq(cell(st1, p.b, add(p.o, k), 8), uf('utf8', k, lo=0, hi=255)))),
                ('the data is kept for close', AND(eq(q.b, p.b), eq(q.o, p.o)))] + self.flags(ex, g, st1, 'string')


class OpenNone(OpenC):
    """no local data, an array of another kind, or a text that is not well-formed UTF-16"""
    throws = True
    may_not_return = True

    def __init__(self, what):
        V03.ArrC.__init__(self, 'int')
        self.what = what

    @property
    def name(self):
        return self.dem + ' ' + self.what

    def setup(self, ex, st, g):
        self.arr(ex, st, g)
        st.assume(g.valid)
        g.isset = lambda f: f == {'without data': None, 'of another array': 'sofaArray', 'of a text that is not well-formed': 'sofaString'}[self.what]
        g.kind, g.illformed = None, True
        g.typename = 'uima.cas.StringArray'
        g.len16, g.len8 = u('text.length', 0, LIM), u('text.bytes', 0, LIM * 4)
        g.txt = ex.newblk(st, 'heap', 'text', mulc(g.len16, 2))
        return self.newstream(ex, st, g)

    def post(self, ex, g, st0, st1, ret):
        return [('does not return', False)]

    def exc(self, ex, g, st0, st1, e):
        return [('the exception is SofaDataStreamException', throws(e, 'SofaDataStreamException'))]

    def exc_modifies(self, ex, g, st0):
        return {g.this: None}


CONTRACTS = LIB + [Read(k) for k in ESZ] + [ReadWrong(k) for k in ('string', 'int', 'float')] + [Closed('read(void*, int, unsigned long)'), Closed('seek(long, int)'), Seek(),
             Ask('getTotalStreamSizeInBytes()', 'the number of bytes of the data', lambda g, r: eq(r, g.size)),
             Ask('howManyBytesAvailable()', 'the number of bytes behind the position', lambda g, r: eq(r, sub(g.size, g.pos))),
             Ask('getDataPointer()', 'the data', lambda g, r: AND(eq(r.b, g.data), eq(r.o, g.d0))), Close()] + [OpenArray(k) for k in NAME] + [OpenString(), OpenNone('without data'), OpenNone('of another array'), OpenNone('of a text that is not well-formed')]
FS = r'uima::FeatureStructure::'
STUBS = [(re.compile(r'icu_\d+::UnicodeString::UnicodeString\(char const\*\)'), ustr), (re.compile(r'uima::Type::getFeatureByBaseName\('), featname),
         (re.compile(FS + r'isUntouchedFSValue\('), untouched), (re.compile(FS + r'get(\w+Array)?FSValue\('), sofafs), (re.compile(FS + r'getStringValue\('), stringvalue),
         (re.compile(r'uima::UnicodeStringRef::compare\(icu_\d+::UnicodeString const&\) const'), typename_compare), (re.compile(r'u_strToUTF8(_\d+)?$'), u8),
         (re.compile(FS + r'(getType\(\)|~)|uima::\w+ArrayFS::~'), opaque)] + ESTUBS
ASSUMPTIONS = ['the sofa feature accessors of FeatureStructure give the text or array the sofa refers to (V11)', 'u_strToUTF8 writes the UTF-8 bytes of the text and reports their number, or reports that it is not well-formed',
               'the caller gives read a buffer of elementSize * numElements bytes and the element size of the data', 'sofa data has less than 2^31 bytes']
