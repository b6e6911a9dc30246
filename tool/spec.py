"""Contracts, object set-up helpers and the per-function verification driver."""
import time, traceback
from terms import *
import sx
from sx import *

LIM = 1 << 27      # representable sizes: heap top + requested size stays below this (32-bit cell counts)


class G:
    """per-run ghost names of a contract"""
    pass


class Contract:
    dem = None            # demangled signature of the function under contract
    props = ()            # properties it serves
    throws = False        # may end by an exception (then exc() gives the exceptional postcondition)
    opts = {}
    timeout = 9000
    budget = 240
    may_not_return = False

    def __init__(self, dem=None, **kw):
        if dem:
            self.dem = dem
        for k, v in kw.items():
            setattr(self, k, v)

    # verify mode ------------------------------------------------------
    def setup(self, ex, st, g):
        raise NotImplementedError

    def post(self, ex, g, st0, st1, ret):
        return []

    def exc(self, ex, g, st0, st1, e):
        return [('does not throw', False)]

    def modifies(self, ex, g, st0):
        """{block: None | [(w, lo, hi)]}: what a normal return may change"""
        return {}

    def exc_modifies(self, ex, g, st0):
        return {}

    def frees(self, ex, g, st0):
        return ()

    def exc_frees(self, ex, g, st0):
        return ()

    def lemmas(self, ex, g, st):
        pass

    # call mode --------------------------------------------------------
    def call(self, ex, st, args):
        raise Undecided('contract of %s has no call mode' % self.dem)

    def has_call(self):
        return type(self).call is not Contract.call

    # hooks ------------------------------------------------------------
    def inv(self, ex, lc):
        return []

    def unroll(self, fn):
        return False

    def inline_callee(self, dem):
        return dem == self.dem

    @property
    def name(self):
        return getattr(self, 'title', None) or self.dem


# ---------------------------------------------------------------- objects
def fput(ex, st, b, off, ty, v):
    ex.store(st, Ptr(b, off), ty, v)


def fget(ex, st, b, off, ty):
    return ex.load(st, Ptr(b, off), ty)


def newobj(ex, st, kind, name, size):
    return ex.newblk(st, kind, name, size)


def u(name, lo=0, hi=(1 << 32) - 1):
    return var(name, lo, hi)


def cell(st, b, k, w, ex=None):
    return a_read(st.mem[b].arr(w), k, ex.oracle(st) if ex is not None else None)


def vec_setup(ex, st, b, off, name, esz, n=None, cap=None, kind='heap'):
    """std::vector<T> at (b, off) with n elements of esz bytes: one separate buffer"""
    if n is None:
        n = u(name + '.size', 0, LIM)
    cap = n if cap is None else cap
    buf = ex.newblk(st, kind, name, mulc(cap, esz))
    fput(ex, st, b, off, 'ptr', Ptr(buf, 0))
    fput(ex, st, b, off + 8, 'ptr', Ptr(buf, mulc(n, esz)))
    fput(ex, st, b, off + 16, 'ptr', Ptr(buf, mulc(cap, esz)))
    return buf, n


def lam(w, f):
    return Arr('lam', f, w)


def family(ex, name, sizef, arrs, kind='heap'):
    """a family of separate objects indexed by integers: sizef(idx...) bytes, arrs {w: f(idx..., k)}"""
    def mkblk(ex_, t):
        ix = t.args[1:]
        b = Blk(kind, '%s#%d' % (name, t.id), sizef(*ix))
        for w, f in arrs.items():
            b.arrs[w] = lam(w, (lambda f: lambda k: f(*(tuple(ix) + (k,))))(f))
        return b
    ex.fams[name] = mkblk
    return lambda *ix: uf('fam!' + name, *ix, lo=1 << 20)


def cells_uf(name, w):
    return lambda *a: uf('%s.%d' % (name, w), *a, lo=0, hi=(1 << w) - 1)


def vecfam_setup(ex, st, b, off, name, n, esz, lenf, capf=None, elem=None):
    """std::vector<std::vector<T>> at (b, off): n inner vectors, the i-th with lenf(i) elements of esz bytes"""
    capf = capf or lenf
    fam = family(ex, name, lambda i: mulc(capf(i), esz), {esz * 8: elem or cells_uf(name, esz * 8)})
    buf = ex.newblk(st, 'heap', name + '.outer', mulc(n, 24))
    blk = st.mem[buf]
    blk.arrs['pb'] = lam('pb', lambda k: fam(div(k, 3)))
    blk.arrs['po'] = lam('po', lambda k: ite(eq(mod(k, 3), 0), 0, ite(eq(mod(k, 3), 1), mulc(lenf(div(k, 3)), esz), mulc(capf(div(k, 3)), esz))))
    fput(ex, st, b, off, 'ptr', Ptr(buf, 0))
    fput(ex, st, b, off + 8, 'ptr', Ptr(buf, mulc(n, 24)))
    fput(ex, st, b, off + 16, 'ptr', Ptr(buf, mulc(n, 24)))
    return fam, buf


MAXB = 1 << 47


class VecV:
    """logical view of a std::vector<T> object at (b, off), T of esz bytes and cell width w"""

    def __init__(self, b, off, esz, w=None, name='vec'):
        self.b, self.off, self.esz, self.w, self.name = b, off, esz, w or esz * 8, name

    def setup(self, ex, st, n=None):
        self.cap0 = u(self.name + '.cap', 0, LIM)
        self.n0 = u(self.name + '.n', 0, LIM) if n is None else n
        st.assume(le(self.n0, self.cap0))
        self.buf0, _ = vec_setup(ex, st, self.b, self.off, self.name + '.buf', self.esz, self.n0, self.cap0)
        return self

    def ptrs(self, ex, st):
        return [fget(ex, st, self.b, add(self.off, d), 'ptr') for d in (0, 8, 16)]

    def size(self, ex, st):
        p = self.ptrs(ex, st)
        return div(sub(p[1].o, p[0].o), self.esz)

    def at(self, ex, st, k):
        p = self.ptrs(ex, st)[0]
        if not isinstance(p.b, int) or p.b not in st.mem:
            blk = self.member(ex, st, p)
            if blk is None:
                raise Undecided('buffer of %s is not a known object' % self.name)
            return a_read(blk.arr(self.w), add(k, div(p.o, self.esz)))
        return a_read(st.mem[p.b].arr(self.w), add(k, div(p.o, self.esz)))

    def member(self, ex, st, p):
        """the buffer when it is one of a family of objects"""
        if isinstance(p.b, int) or sx.famname(p.b) is None:
            return None
        return st.mem[ex.famblk(st, sx.famname(p.b), p.b)]

    def wf(self, ex, st):
        b, e, c = self.ptrs(ex, st)
        if isinstance(b.b, int) and b.b == 0:
            return [('%s: no buffer, no elements' % self.name, AND(eq(e.b, 0), eq(c.b, 0), eq(b.o, 0), eq(e.o, 0), eq(c.o, 0)))]
        blk = st.mem.get(b.b) if isinstance(b.b, int) else self.member(ex, st, b)
        if blk is None or not blk.live:
            return [('%s: buffer is a live object' % self.name, False)]
        return [('%s: one buffer' % self.name, AND(eq(b.o, 0), eq(e.b, b.b), eq(c.b, b.b))),
                ('%s: size within the capacity' % self.name, AND(le(0, e.o), le(e.o, c.o), eq(c.o, blk.size), le(c.o, MAXB))),
                ('%s: whole elements' % self.name, AND(eq(mod(e.o, self.esz), 0), eq(mod(c.o, self.esz), 0)))]

    def mod(self):
        return {self.b: [('ptr', self.off // 8, self.off // 8 + 3)], self.buf0: None}

    def move(self, ex, st, n):
        """callee effect: the buffer is replaced by one with n elements (old contents given up)"""
        old = self.ptrs(ex, st)[0]
        cap = u(freshname(self.name + '.cap'), 0, MAXB // self.esz)
        st.assume(AND(le(0, n), le(n, cap)))
        nb = ex.newblk(st, 'heap', self.name + '.buf', mulc(cap, self.esz))
        if isinstance(old.b, int) and old.b in st.mem:
            x = st.mem[old.b].copy()
            x.live = False
            st.mem[old.b] = x
        fput(ex, st, self.b, self.off, 'ptr', Ptr(nb, 0))
        fput(ex, st, self.b, add(self.off, 8), 'ptr', Ptr(nb, mulc(n, self.esz)))
        fput(ex, st, self.b, add(self.off, 16), 'ptr', Ptr(nb, mulc(cap, self.esz)))
        return nb


HEAPT = {'iv_clTemporaryHeap': ('unsigned int', 32), 'iv_clTemporaryStringHeap': ('char16_t', 16),
         'iv_clTemporaryStringRefHeap': ('unsigned int', 32), 'iv_clTemporary8BitHeap': ('char', 8),
         'iv_clTemporary16BitHeap': ('short', 16), 'iv_clTemporary64BitHeap': ('long', 64)}


class HeapV:
    """logical view of a uima::lowlevel::internal::Heap<T> object"""

    def __init__(self, ex, b, off, elt, w, name):
        self.b, self.off, self.w, self.name = b, off, w, name
        self.cls = 'uima::lowlevel::internal::Heap<%s>' % elt
        P = ex.P
        self.o_buf = off + P.off(self.cls, 'iv_pTHeap')
        self.o_top = off + P.off(self.cls, 'iv_topOfHeap')
        self.o_cells = off + P.off(self.cls, 'iv_uiCellNumber')
        self.o_def = off + P.off(self.cls, 'iv_iDefaultValue')
        self.sz = w // 8

    def setup(self, ex, st, mintop=1):
        """a heap satisfying its representation invariant"""
        n = self.name
        cells = u(n + '.cells', 1, LIM)
        top = u(n + '.top', mintop, LIM)
        self.buf0 = ex.newblk(st, 'heap', n + '.buf', mulc(cells, self.sz))
        fput(ex, st, self.b, self.o_buf, 'ptr', Ptr(self.buf0, 0))
        fput(ex, st, self.b, self.o_top, 'i32', top)
        fput(ex, st, self.b, self.o_cells, 'i32', cells)
        fput(ex, st, self.b, self.o_def, 'i32', 0)
        st.assume(le(top, cells))
        st.assume(all_k(top, cells, lambda k: eq(cell(st, self.buf0, k, self.w), 0)))
        return self

    def top(self, ex, st):
        return fget(ex, st, self.b, self.o_top, 'i32')

    def cells(self, ex, st):
        return fget(ex, st, self.b, self.o_cells, 'i32')

    def buf(self, ex, st):
        return fget(ex, st, self.b, self.o_buf, 'ptr')

    def at(self, ex, st, k):
        p = self.buf(ex, st)
        if not isinstance(p.b, int) or p.b == 0 or p.b not in st.mem:
            raise Undecided('heap buffer of %s is not a known object' % self.name)
        return a_read(st.mem[p.b].arr(self.w), k)

    def wf(self, ex, st):
        """representation invariant as formula list (label, formula)"""
        p = self.buf(ex, st)
        t, c = self.top(ex, st), self.cells(ex, st)
        blk = st.mem.get(p.b) if isinstance(p.b, int) else None
        if blk is None or not blk.live:
            return [('%s: buffer is a live object' % self.name, False)]
        return [('%s: buffer starts at offset 0' % self.name, eq(p.o, 0)),
                ('%s: buffer holds exactly the recorded number of cells' % self.name, eq(blk.size, mulc(c, self.sz))),
                ('%s: first free cell lies within the buffer and is not cell 0' % self.name, AND(le(1, t), le(t, c))),
                ('%s: cells past the top are zero' % self.name,
                 all_k(t, c, lambda k: eq(self.at(ex, st, k), 0))),
                ('%s: fill value is zero' % self.name, eq(fget(ex, st, self.b, self.o_def, 'i32'), 0))]

    def grown(self, ex, st0, st1, n, touched=None):
        """(label, formula): st1 is st0 with n more cells reserved, old cells kept, new ones zero
        except those for which touched(k) gives a value"""
        t0, t1 = self.top(ex, st0), self.top(ex, st1)
        L = [('%s: top advances by exactly the requested size' % self.name, eq(t1, add(t0, n))),
             ('%s: every cell allocated before keeps its value' % self.name,
              all_k(0, t0, lambda k: eq(self.at(ex, st1, k), self.at(ex, st0, k))))]
        if touched is None:
            L.append(('%s: freshly reserved cells are zero' % self.name,
                      all_k(t0, t1, lambda k: eq(self.at(ex, st1, k), 0))))
        else:
            L.append(('%s: freshly reserved cells hold the specified values' % self.name,
                      all_k(t0, t1, lambda k: eq(self.at(ex, st1, k), touched(k)))))
        return L + self.wf(ex, st1)

    def same(self, ex, st0, st1):
        L = [('%s: top unchanged' % self.name, eq(self.top(ex, st0), self.top(ex, st1)))]
        t0 = self.top(ex, st0)
        p0, p1 = self.buf(ex, st0), self.buf(ex, st1)
        if isinstance(p1.b, int) and p1.b in st1.mem and st1.mem[p1.b].arr(self.w) is st0.mem[p0.b].arr(self.w):
            return L
        L.append(('%s: contents unchanged' % self.name, all_k(0, t0, lambda k: eq(self.at(ex, st1, k), self.at(ex, st0, k)))))
        return L + self.wf(ex, st1)


class TSV:
    """logical view of the committed type system tables"""
    CLS = 'uima::lowlevel::TypeSystem'

    def __init__(self, ex, st, name='ts'):
        P = ex.P
        self.ex = ex
        self.nt = u(name + '.ntypes', 2, LIM)
        self.nf = u(name + '.nfeats', 1, LIM)
        sz = max(P.layouts.get(self.CLS, {'': 0}).values()) + 64
        self.b = ex.newblk(st, 'heap', name, sz)
        o = lambda f: P.off(self.CLS, f)
        self.o = o
        self.range, _ = vec_setup(ex, st, self.b, o('iv_vecRangeTypes'), name + '.range', 4, self.nf)
        self.foff, _ = vec_setup(ex, st, self.b, o('iv_vecFeatureOffset'), name + '.featoff', 4, self.nf)
        self.fnum, _ = vec_setup(ex, st, self.b, o('iv_vecFeatureNumber'), name + '.featnum', 4, self.nt)
        self.parents, _ = vec_setup(ex, st, self.b, o('iv_vecParents'), name + '.parents', 4, self.nt)
        fput(ex, st, self.b, o('iv_tyTop'), 'i32', 1)

        self.mapname = name + '.offmap'
        self.map, self.mapbuf = vecfam_setup(ex, st, self.b, o('iv_vecTypeFeatureOffsetMapping'), self.mapname, self.nt, 4, lambda t: add(cell(st, self.fnum, t, 32), 1))

    def featat(self, t, k):
        """feature of type t at offset k"""
        return cells_uf(self.mapname, 32)(t, k)

    def featoff(self, st, f):
        return cell(st, self.foff, f, 32)

    def featnum(self, st, t):
        return cell(st, self.fnum, t, 32)

    def rangeof(self, st, f):
        return cell(st, self.range, f, 32)

    def parent(self, st, t):
        return cell(st, self.parents, t, 32)


class FSHeapV:
    CLS = 'uima::lowlevel::FSHeap'

    def __init__(self, ex, st, ts=None, name='heap'):
        P = ex.P
        self.ts = ts
        o_ts = P.off(self.CLS, 'iv_rclTypeSystem')
        self.b = ex.newblk(st, 'heap', name, o_ts + 8)
        if ts is not None:
            fput(ex, st, self.b, o_ts, 'ptr', Ptr(ts.b, 0))
        self.h = {}
        for f, (elt, w) in HEAPT.items():
            self.h[f] = HeapV(ex, self.b, P.off(self.CLS, f), elt, w, f.replace('iv_clTemporary', ''))
        self.fs = self.h['iv_clTemporaryHeap']
        self.str = self.h['iv_clTemporaryStringHeap']
        self.ref = self.h['iv_clTemporaryStringRefHeap']
        self.h8 = self.h['iv_clTemporary8BitHeap']
        self.h16 = self.h['iv_clTemporary16BitHeap']
        self.h64 = self.h['iv_clTemporary64BitHeap']
        self.fs.name, self.str.name, self.ref.name = 'FSHeap', 'StringHeap', 'StringRefHeap'
        for h in self.h.values():
            h.setup(ex, st)

    def others(self, *used):
        return [h for h in self.h.values() if h not in used]

    def writes_cell(self, h, k):
        """frame: only cell k of heap h"""
        return {h.buf0: [(h.w, k, add(k, 1))]}


# ---------------------------------------------------------------- frames
def frame_obls(ex, g, st0, st1, mod, frees):
    out = []
    items = list(st0.mem.items())
    for b, blk1 in st1.mem.items():
        if not isinstance(b, int) and b not in st0.mem and blk1.dirty:
            items.append((b, ex.fams[sx.famname(b)](ex, b)))
    for b, blk0 in items:
        if blk0.kind in ('global',) and False:
            continue
        blk1 = st1.mem.get(b)
        if blk1 is None:
            continue
        if b in mod and mod[b] is None:
            continue
        if blk0.live and not blk1.live:
            if b not in frees:
                out.append(('frame: %s is not released' % nm(blk0), False))
            continue
        if not blk1.live:
            continue
        for w, a1 in blk1.arrs.items():
            a0 = blk0.arr(w)
            if a1 is a0:
                continue
            k = bound('fr')
            d = eq(a_read(a1, k), a_read(a0, k))
            allow = []
            for (mw, lo, hi) in mod.get(b) or ():
                if mw == w or (mw == 'ptr' and w in ('pb', 'po')):
                    allow.append(AND(le(lo, k), lt(k, hi)))
                elif mw != 'bytes':
                    # the region written through cells of one width, seen at another width
                    ms = 8 if isinstance(mw, str) else mw // 8
                    sz = 8 if isinstance(w, str) else w // 8
                    allow.append(AND(lt(mulc(lo, ms), mulc(add(k, 1), sz)), lt(mulc(k, sz), mulc(hi, ms))))
                elif mw == 'bytes':
                    sz = 8 if isinstance(w, str) else w // 8
                    allow.append(AND(lt(div(lo, sz), add(k, 1)), lt(mulc(k, sz), hi)))
            rngc = le(0, k)
            if blk0.size is not None:
                sz = 8 if isinstance(w, str) else w // 8
                rngc = AND(rngc, le(mulc(add(k, 1), sz), blk0.size))
            f = FORALL(k, OR(NOT(rngc), d, *allow))
            if f is not True:
                out.append(('frame: nothing else in %s changes' % nm(blk0), f))
    return out


def nm(blk):
    return blk.name.split('#')[0]


# ---------------------------------------------------------------- verification of one contract
class Result:
    pass


def simp_forall(o):
    return o


def verify(prog, c, contracts, stubs, timescale=1.0):
    t0 = time.time()
    R = Result()
    R.name = c.name
    R.dem = c.dem
    R.obls = []
    R.undecided = None
    R.missing = False
    R.vacuous = None
    R.paths = 0
    ex = Ex(prog, contracts, stubs, dict(c.opts))
    R.ex = ex
    ex.curcontract = c
    fn = prog.find(c.dem) if c.dem else None
    if fn is None and c.dem:
        R.missing = True
        R.undecided = 'no definition of %s in the compiled sources' % c.dem
        R.wall = time.time() - t0
        return R
    R.file = fn.__dict__.get('file') if fn else None
    ex.topfn = fn
    ex.deadline = t0 + c.budget * timescale
    g = G()
    covered = [0, 0]
    try:
        st = State()
        args = c.setup(ex, st, g)
        if st.dead or not ex.feasible(st, True, 4000):
            R.vacuous = 'the precondition is contradictory'
        st0 = st.snap()
        g.st0 = st0
        ex.g = g

        def on_ret(s, v):
            posts = c.post(ex, g, st0, s, v)
            for lb, f in posts:
                ex.oblige_nf(s, 'ensures ' + lb, f)
            for lb, f in frame_obls(ex, g, st0, s, c.modifies(ex, g, st0), set(c.frees(ex, g, st0))):
                ex.oblige_nf(s, lb, f)
            if covered[0] == 0:
                if prove(s.pc, False, 1500)[0] != 'proved':
                    covered[0] = 1

        def on_throw(s, e):
            posts = c.exc(ex, g, st0, s, e)
            for lb, f in posts:
                ex.oblige_nf(s, 'on exception: ' + lb, f)
            if c.throws:
                for lb, f in frame_obls(ex, g, st0, s, c.exc_modifies(ex, g, st0), set(c.exc_frees(ex, g, st0))):
                    ex.oblige_nf(s, 'on exception: ' + lb, f)
                if covered[1] == 0 and prove(s.pc, False, 1500)[0] != 'proved':
                    covered[1] = 1
        if fn is None:      # lemmas over the contracts, no code
            c.lemmas(ex, g, st)
            covered[0] = 1
        else:
            ctl = Ctl(ex, c, on_ret, on_throw)
            ex.enter(st, fn, args)
            ex.explore(st, ctl)
    except (Undecided, KeyError, RecursionError, AttributeError, TypeError, IndexError) as e:
        R.undecided = '%s: %s' % (type(e).__name__, e)
        R.trace = traceback.format_exc()
    R.paths = ex.paths
    if R.undecided is None and R.vacuous is None:
        if not covered[0] and not c.may_not_return:
            R.vacuous = 'no return of the function is reachable under the precondition'
        if c.throws and not covered[1]:
            R.vacuous = 'no exceptional exit is reachable although the contract has one'
    # discharge
    seen = {}
    nun = 0
    for o in ex.obls:
        if o.status == 'proved':
            continue
        key = (o.goal if isinstance(o.goal, bool) else o.goal.id, frozenset(p.id for p in o.pc))
        if key in seen:
            o.status, o.backend, o.model = seen[key]
            continue
        t1 = time.time()
        if o.goal is True:
            o.status, o.backend = 'proved', 'simplifier'
        else:
            tmo = int(c.timeout * timescale) if nun < 6 else 2000
            o.status, o.backend, o.model = prove(o.pc, o.goal, tmo, inc=ex.getincq())
            if o.status == 'unknown':
                nun += 1
        o.t = time.time() - t1
        seen[key] = (o.status, o.backend, o.model)
    R.obls = ex.obls
    R.wall = time.time() - t0
    R.g = g
    return R


def gconst(ex, st, name, ty='i32', tu=None):
    """value of a namespace-scope constant named in /repo (e.g. gs_tyLongArrayType)"""
    for k, d in ex.P.gv.items():
        if isinstance(k, tuple):
            continue
        if k.endswith('%d%sE' % (len(name), name)) and 'init' in d and d['init'][0] == 'i':
            return int(d['init'][2])
    raise Undecided('constant %s not found' % name)
