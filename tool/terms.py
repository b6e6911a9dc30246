"""Hash-consed term layer for the VC generator: linear integer terms, booleans, symbolic arrays.
Integers are mathematical; machine words are represented by their canonical unsigned value."""
import z3

_tab = {}
_cnt = [0]


class Node:
    __slots__ = ('op', 'args', 'id', 'rng', 'z', 'isb', 'hasbound')

    def __repr__(self):
        return show(self)


def mk(op, args, isb=False, rng=(None, None)):
    k = (op, args)
    n = _tab.get(k)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        n.isb = isb
        n.rng = rng
        n.z = None
        _cnt[0] += 1
        n.id = _cnt[0]
        n.hasbound = op == 'bound' or any(_hb(a) for a in args)
        _tab[k] = n
    return n


def nodecount():
    return _cnt[0]


def _hb(a):
    if isinstance(a, Node):
        return a.hasbound
    if isinstance(a, tuple):
        return any(_hb(x) for x in a)
    return False


def show(a, depth=6):
    if not isinstance(a, Node):
        return str(a)
    if depth == 0:
        return '..'
    s = lambda x: show(x, depth - 1)
    if a.op in ('var', 'bound', 'bvar'):
        return a.args[0]
    if a.op == 'lin':
        c, ts = a.args
        r = ' + '.join((s(t) if k == 1 else '%d*%s' % (k, s(t))) for t, k in ts)
        return '(%s%s)' % (r, ' + %d' % c if c else '')
    if a.op == 'uf':
        return '%s(%s)' % (a.args[0], ', '.join(s(x) for x in a.args[1:]))
    if a.op == 'forall':
        return '(forall %s. %s)' % (','.join(s(v) for v in a.args[0]), s(a.args[1]))
    if a.op == 'le':
        return '(%s <= 0)' % s(a.args[0])
    if a.op == 'eq':
        return '(%s == 0)' % s(a.args[0])
    return '%s(%s)' % (a.op, ', '.join(s(x) for x in a.args))


# ---------------------------------------------------------------- integers
def var(name, lo=None, hi=None):
    return mk('var', (name,), rng=(lo, hi))


_fresh = [0]


def fresh(prefix, lo=None, hi=None):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), lo, hi)


def freshname(prefix):
    _fresh[0] += 1
    return '%s!%d' % (prefix, _fresh[0])


def bound(prefix='k'):
    _fresh[0] += 1
    return mk('bound', ('%s!%d' % (prefix, _fresh[0]),))


def rng(a):
    if isinstance(a, int):
        return (a, a)
    return a.rng


def parts(a):
    """(const, {atom: coeff})"""
    if isinstance(a, int):
        return a, ()
    if a.op == 'lin':
        return a.args
    return 0, ((a, 1),)


def _mklin(c, d):
    ts = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda x: x[0].id))
    if not ts:
        return c
    if c == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    lo = hi = c
    for t, k in ts:
        l, h = t.rng
        if k < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
    return mk('lin', (c, ts), rng=(lo, hi))


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    c1, t1 = parts(a)
    c2, t2 = parts(b)
    d = dict(t1)
    for t, k in t2:
        d[t] = d.get(t, 0) + k
    return _mklin(c1 + c2, d)


def mulc(a, k):
    if isinstance(a, int):
        return a * k
    if k == 1:
        return a
    if k == 0:
        return 0
    c, ts = parts(a)
    return _mklin(c * k, {t: q * k for t, q in ts})


def sub(a, b):
    return add(a, mulc(b, -1))


def mul(a, b):
    if isinstance(a, int):
        return mulc(b, a)
    if isinstance(b, int):
        return mulc(a, b)
    if a.id > b.id:
        a, b = b, a
    (l1, h1), (l2, h2) = a.rng, b.rng
    r = (None, None)
    if None not in (l1, h1, l2, h2):
        ps = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
        r = (min(ps), max(ps))
    elif l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
        r = (l1 * l2, None)
    return mk('mul', (a, b), rng=r)


def div(a, n):
    """floor division by positive constant"""
    if n == 1:
        return a
    if isinstance(a, int):
        return a // n
    c, ts = parts(a)
    q = {t: k for t, k in ts if k % n == 0}
    if len(q) == len(ts):
        # all coefficients divisible
        return _mklin(c // n, {t: k // n for t, k in ts})
    if q:
        rest = _mklin(c, {t: k for t, k in ts if k % n})
        return add(_mklin(0, {t: k // n for t, k in q.items()}), div(rest, n))
    lo, hi = a.rng
    if lo is not None and hi is not None and lo // n == hi // n:
        return lo // n
    if a.op == 'div':
        return div(a.args[0], a.args[1] * n)
    if a.op == 'ite' and isinstance(a.args[1], int) and isinstance(a.args[2], int):
        return ite(a.args[0], a.args[1] // n, a.args[2] // n)
    if c // n:
        return add(div(_mklin(c - (c // n) * n, dict(ts)), n), c // n)
    return mk('div', (a, n), rng=(None if lo is None else lo // n, None if hi is None else hi // n))


def mod(a, n):
    if isinstance(a, int):
        return a % n
    lo, hi = a.rng
    if lo is not None and hi is not None and lo // n == hi // n:
        return sub(a, (lo // n) * n)
    c, ts = parts(a)
    if any(k % n != k for t, k in ts) or c % n != c:
        # reduce coefficients to the least absolute residue
        d = {}
        for t, k in ts:
            r = k % n
            if k < 0 and r != 0 and -(n - r) == k:
                r = k
            d[t] = r
        b = _mklin(c % n, d)
        if b is not a:
            return mod(b, n)
    if a.op == 'mod' and a.args[1] % n == 0:
        return mod(a.args[0], n)
    if a.op == 'ite' and isinstance(a.args[1], int) and isinstance(a.args[2], int):
        return ite(a.args[0], a.args[1] % n, a.args[2] % n)
    return mk('mod', (a, n), rng=(0, n - 1))


def wrap(a, w):
    """value modulo 2^w, as a case split when it is close to the range"""
    n = 1 << w
    if isinstance(a, int):
        return a % n
    lo, hi = a.rng
    if lo is not None and hi is not None:
        if lo // n == hi // n:
            return sub(a, (lo // n) * n)
        if lo >= 0 and hi < 2 * n:
            return ite(ge(a, n), sub(a, n), a)
        if lo >= -n and hi < n:
            return ite(lt(a, 0), add(a, n), a)
    return mod(a, n)


def uf(name, *args, lo=None, hi=None):
    return mk('uf', (name,) + tuple(args), rng=(lo, hi))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, Node) and a.isb):
        return OR(AND(c, a), AND(NOT(c), b))
    if isinstance(a, Node) and a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, Node) and b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    (l1, h1), (l2, h2) = rng(a), rng(b)
    lo = None if l1 is None or l2 is None else min(l1, l2)
    hi = None if h1 is None or h2 is None else max(h1, h2)
    # refine ranges by the condition when it is about a branch itself
    return mk('ite', (c, a, b), rng=_iterng(c, a, b, lo, hi))


def _iterng(c, a, b, lo, hi):
    # recognises ite(x >= n, x - n, x) and ite(x < 0, x + n, x)
    if c.op == 'le':
        l = c.args[0]                       # l <= 0
        # bound on branch a from l <= 0: a - l const -> a <= const
        d = sub(a, l) if not isinstance(a, int) else None
        s = add(a, l) if not isinstance(a, int) else None
        (la, ha), (lb, hb) = rng(a), rng(b)
        if isinstance(d, int):
            ha = d if ha is None else min(ha, d)
        if isinstance(s, int):
            la = s if la is None else max(la, s)
        # not (l <= 0): l >= 1
        if not isinstance(b, int):
            d = sub(b, l)
            s = add(b, l)
            if isinstance(d, int):
                lb = d + 1 if lb is None else max(lb, d + 1)
            if isinstance(s, int):
                hb = s - 1 if hb is None else min(hb, s - 1)
        return (None if la is None or lb is None else min(la, lb),
                None if ha is None or hb is None else max(ha, hb))
    return (lo, hi)


# ---------------------------------------------------------------- booleans
def bvar(name):
    return mk('bvar', (name,), True)


def freshb(prefix):
    _fresh[0] += 1
    return bvar('%s!%d' % (prefix, _fresh[0]))


def NOT(a):
    if isinstance(a, bool):
        return not a
    if a.op == 'not':
        return a.args[0]
    if a.op == 'le':        # not (x<=0) == -x+1 <= 0
        return le(1, a.args[0])
    return mk('not', (a,), True)


def AND(*xs):
    out = []
    seen = set()
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = AND(*x)
        if x is True:
            continue
        if x is False:
            return False
        for y in (x.args if x.op == 'and' else (x,)):
            if y.id not in seen:
                seen.add(y.id)
                out.append(y)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    for y in out:
        if y.op == 'not' and y.args[0].id in seen:
            return False
    return mk('and', tuple(out), True)


def OR(*xs):
    out = []
    seen = set()
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = OR(*x)
        if x is False:
            continue
        if x is True:
            return True
        for y in (x.args if x.op == 'or' else (x,)):
            if y.id not in seen:
                seen.add(y.id)
                out.append(y)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    for y in out:
        if y.op == 'not' and y.args[0].id in seen:
            return True
    return mk('or', tuple(out), True)


def IMP(a, b):
    return OR(NOT(a), b)


def IFF(a, b):
    if isinstance(a, bool):
        return b if a else NOT(b)
    if isinstance(b, bool):
        return a if b else NOT(a)
    if a is b:
        return True
    return mk('iff', (a, b), True)


def le(a, b):
    d = sub(a, b)
    lo, hi = rng(d)
    if hi is not None and hi <= 0:
        return True
    if lo is not None and lo > 0:
        return False
    if isinstance(d, int):
        return d <= 0
    # push through ite with constant branches
    if d.op == 'ite' and isinstance(d.args[1], int) and isinstance(d.args[2], int):
        return ite_b(d.args[0], d.args[1] <= 0, d.args[2] <= 0)
    return mk('le', (d,), True)


def ite_b(c, a, b):
    return OR(AND(c, a), AND(NOT(c), b))


def lt(a, b):
    return le(add(a, 1), b)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, Node) and a.isb):
        return IFF(a, b)
    d = sub(a, b)
    if isinstance(d, int):
        return d == 0
    lo, hi = d.rng
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    c, ts = parts(d)
    if len(ts) == 1:
        t, k = ts[0]
        if c % k:
            return False
        if t.op == 'ite':
            v = -c // k
            x, y = t.args[1], t.args[2]
            if isinstance(x, int) or isinstance(y, int):
                return ite_b(t.args[0], eq(x, v), eq(y, v))
        d = sub(t, -c // k)
    # normalise sign
    c, ts = parts(d)
    if ts[0][1] < 0:
        d = mulc(d, -1)
    return mk('eq', (d,), True)


def ne(a, b):
    return NOT(eq(a, b))


def FORALL(vs, body, pats=()):
    if isinstance(body, bool):
        return body
    if not isinstance(vs, (list, tuple)):
        vs = (vs,)
    return mk('forall', (tuple(vs), body, tuple(pats)), True)


def all_k(lo, hi, f, name='k'):
    """forall k. lo <= k < hi -> f(k)"""
    k = bound(name)
    b = f(k)
    return FORALL(k, IMP(AND(le(lo, k), lt(k, hi)), b))


def exists_k(lo, hi, f, name='k'):
    k = bound(name)
    return NOT(FORALL(k, NOT(AND(le(lo, k), lt(k, hi), f(k)))))


def subst(t, m):
    """substitute nodes by m {node: term} (used for bound variables)"""
    memo = {}

    def go(x):
        if not isinstance(x, Node):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        if x in m:
            return m[x]
        r = memo.get(x.id)
        if r is not None:
            return r
        o = x.op
        if o in ('var', 'bvar', 'bound'):
            r = x
        elif o == 'lin':
            r = x.args[0]
            for t_, k in x.args[1]:
                r = add(r, mulc(go(t_), k))
        elif o == 'uf':
            r = mk('uf', (x.args[0],) + tuple(go(y) for y in x.args[1:]), rng=x.rng)
        elif o == 'ite':
            r = ite(go(x.args[0]), go(x.args[1]), go(x.args[2]))
        elif o == 'mul':
            r = mul(go(x.args[0]), go(x.args[1]))
        elif o == 'div':
            r = div(go(x.args[0]), x.args[1])
        elif o == 'mod':
            r = mod(go(x.args[0]), x.args[1])
        elif o == 'le':
            r = le(go(x.args[0]), 0)
        elif o == 'eq':
            r = eq(go(x.args[0]), 0)
        elif o == 'and':
            r = AND(*[go(y) for y in x.args])
        elif o == 'or':
            r = OR(*[go(y) for y in x.args])
        elif o == 'not':
            r = NOT(go(x.args[0]))
        elif o == 'iff':
            r = IFF(go(x.args[0]), go(x.args[1]))
        elif o == 'pred':
            r = mk('pred', (x.args[0],) + tuple(go(y) for y in x.args[1:]), True)
        elif o == 'forall':
            r = FORALL(x.args[0], go(x.args[1]), go(x.args[2]))
        else:
            raise Exception('subst ' + o)
        memo[x.id] = r
        return r
    return go(t)


def pred(name, *args):
    return mk('pred', (name,) + tuple(args), True)


# ---------------------------------------------------------------- arrays
# ('base', name, w) ('st', a, i, v) ('cp', a, lo, hi, src, slo) ('fill', a, lo, hi, v) ('hv', a, lo, hi, name, w)
class Arr:
    __slots__ = ('k', 'x', 'w')

    def __init__(self, k, x, w):
        self.k = k
        self.x = x
        self.w = w          # 8.. bit width, or 'pb'/'po'


def a_base(name, w):
    return Arr('base', name, w)


def wr(w):
    if w == 'pb':
        return (0, None)
    if w == 'po':
        return (None, None)
    return (0, (1 << w) - 1)


def a_store(a, i, v):
    if a.k == 'st':
        d = sub(a.x[1], i)
        if d == 0 and isinstance(d, int):
            a = a.x[0]
    return Arr('st', (a, i, v), a.w)


def a_copy(a, lo, hi, src, slo):
    if isinstance(lo, int) and isinstance(hi, int) and hi <= lo:
        return a
    return Arr('cp', (a, lo, hi, src, slo), a.w)


def a_fill(a, lo, hi, v):
    return Arr('fill', (a, lo, hi, v), a.w)


def a_havoc(a, name, lo=None, hi=None):
    return Arr('hv', (a, lo, hi, name), a.w)


def a_map(a, lo, hi, f):
    """a with f applied to the cells lo <= i < hi"""
    return Arr('map', (a, lo, hi, f), a.w)


def _inr(i, lo, hi):
    c = True
    if lo is not None:
        c = AND(c, le(lo, i))
    if hi is not None:
        c = AND(c, lt(i, hi))
    return c


def a_read(a, i, oracle=None):
    """term for a[i]; oracle(cond)->True/False/None may decide aliasing questions from the path condition"""
    while True:
        k = a.k
        if k == 'base':
            lo, hi = wr(a.w)
            return uf(a.x, i, lo=lo, hi=hi)
        if k == 'lam':
            return a.x(i)
        if k == 'st':
            b, j, v = a.x
            c = eq(i, j)
        elif k == 'cp':
            b, lo, h, src, slo = a.x
            c = _inr(i, lo, h)
        elif k == 'fill':
            b, lo, h, v = a.x
            c = _inr(i, lo, h)
        elif k == 'hv':
            b, lo, h, nm = a.x
            c = _inr(i, lo, h)
        elif k == 'map':
            b, lo, h, f = a.x
            c = _inr(i, lo, h)
        if not isinstance(c, bool) and oracle is not None and not c.hasbound:
            r = oracle(c)
            if r is not None:
                c = r
        if c is False:
            a = b
            continue
        if k == 'st':
            t = v
        elif k == 'cp':
            t = a_read(src, add(i, sub(slo, lo)), oracle)
        elif k == 'fill':
            t = v
        elif k == 'map':
            x = a_read(b, i, oracle)
            return f(x) if c is True else ite(c, f(x), x)
        else:
            lo_, hi_ = wr(a.w)
            t = uf(nm, i, lo=lo_, hi=hi_)
        if c is True:
            return t
        return ite(c, t, a_read(b, i, oracle))


# ---------------------------------------------------------------- bytes of a word
BY = {}          # node -> its bytes, least significant first (words assembled byte by byte)


def bytesof(x, n):
    """the n low bytes of x, least significant first"""
    if isinstance(x, int):
        return [(x >> (8 * k)) & 255 for k in range(n)]
    if x in BY:
        b = BY[x]
        return (b + [0] * n)[:n]
    lo, hi = rng(x)
    if lo is not None and lo >= 0 and hi is not None and hi < 256:
        return [x] + [0] * (n - 1)
    if x.op == 'mod':
        m = x.args[1]
        k = (m.bit_length() - 1) // 8
        if m == 256 ** k:
            return (bytesof(x.args[0], k) + [0] * n)[:n]
    if x.op == 'lin':
        c, ts = parts(x)
        L = [bytesof(c, n)] if c >= 0 else None
        for t, k in ts:
            j = (k.bit_length() - 1) // 8 if k > 0 else 0
            l, h = rng(t)
            if L is None or k <= 0 or k != 256 ** j or l is None or l < 0 or h is None:
                L = None
                break
            L.append(([0] * j + bytesof(t, max(n - j, 0)))[:n])
        if L is not None:
            r = mergebytes(L)
            if r is not None:
                return r
    return [mod(div(x, 256 ** k), 256) for k in range(n)]


def mergebytes(L):
    r = []
    for col in zip(*L):
        nz = [b for b in col if not (isinstance(b, int) and b == 0)]
        if len(nz) > 1:
            return None
        r.append(nz[0] if nz else 0)
    return r


def ofbytes(bs):
    r = 0
    for k, b in enumerate(bs):
        r = add(r, mulc(b, 256 ** k))
    if not isinstance(r, int):
        BY[r] = list(bs)
    return r


# ---------------------------------------------------------------- z3
_ufs = {}
_prds = {}


def toz(t):
    if isinstance(t, bool):
        return z3.BoolVal(t)
    if isinstance(t, int):
        return z3.IntVal(t)
    if t.z is not None:
        return t.z
    o, a = t.op, t.args
    if o in ('var', 'bound'):
        r = z3.Int(a[0])
    elif o == 'bvar':
        r = z3.Bool(a[0])
    elif o == 'lin':
        xs = [toz(x) if k == 1 else z3.IntVal(k) * toz(x) for x, k in a[1]]
        if a[0]:
            xs.append(z3.IntVal(a[0]))
        r = xs[0] if len(xs) == 1 else z3.Sum(xs)
    elif o == 'mul':
        r = toz(a[0]) * toz(a[1])
    elif o == 'div':
        r = toz(a[0]) / z3.IntVal(a[1])
    elif o == 'mod':
        r = toz(a[0]) % z3.IntVal(a[1])
    elif o == 'uf':
        key = (a[0], len(a) - 1)
        f = _ufs.get(key)
        if f is None:
            f = z3.Function(a[0], *([z3.IntSort()] * len(a)))
            _ufs[key] = f
        r = f(*[toz(x) for x in a[1:]])
    elif o == 'pred':
        key = (a[0], len(a) - 1)
        f = _prds.get(key)
        if f is None:
            f = z3.Function(a[0], *([z3.IntSort()] * (len(a) - 1) + [z3.BoolSort()]))
            _prds[key] = f
        r = f(*[toz(x) for x in a[1:]])
    elif o == 'ite':
        r = z3.If(toz(a[0]), toz(a[1]), toz(a[2]))
    elif o == 'le':
        c, ts = parts(a[0])
        pos = [toz(x) if k == 1 else z3.IntVal(k) * toz(x) for x, k in ts if k > 0]
        neg = [toz(x) if k == -1 else z3.IntVal(-k) * toz(x) for x, k in ts if k < 0]
        L = z3.Sum(pos + ([z3.IntVal(c)] if c > 0 else [])) if pos or c > 0 else z3.IntVal(0)
        R = z3.Sum(neg + ([z3.IntVal(-c)] if c < 0 else [])) if neg or c < 0 else z3.IntVal(0)
        r = L <= R
    elif o == 'eq':
        c, ts = parts(a[0])
        pos = [toz(x) if k == 1 else z3.IntVal(k) * toz(x) for x, k in ts if k > 0]
        neg = [toz(x) if k == -1 else z3.IntVal(-k) * toz(x) for x, k in ts if k < 0]
        L = z3.Sum(pos + ([z3.IntVal(c)] if c > 0 else [])) if pos or c > 0 else z3.IntVal(0)
        R = z3.Sum(neg + ([z3.IntVal(-c)] if c < 0 else [])) if neg or c < 0 else z3.IntVal(0)
        r = L == R
    elif o == 'and':
        r = z3.And([toz(x) for x in a])
    elif o == 'or':
        r = z3.Or([toz(x) for x in a])
    elif o == 'not':
        r = z3.Not(toz(a[0]))
    elif o == 'iff':
        r = toz(a[0]) == toz(a[1])
    elif o == 'forall':
        vs = [toz(v) for v in a[0]]
        if a[2]:
            ps = []
            for p in a[2]:
                ps.append(z3.MultiPattern(*[toz(x) for x in p]) if isinstance(p, tuple) else toz(p))
            try:
                r = z3.ForAll(vs, toz(a[1]), patterns=ps)
            except z3.Z3Exception:
                r = z3.ForAll(vs, toz(a[1]))
        else:
            r = z3.ForAll(vs, toz(a[1]))
    else:
        raise Exception('toz ' + o)
    t.z = r
    return r


def atoms(ts, acc=None):
    """all var/uf nodes (ground and not) below the given terms"""
    acc = {} if acc is None else acc
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Node) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ('var', 'uf'):
            acc[x.id] = x
        st.extend(x.args)
    return acc


def range_facts(ts):
    out = []
    ufsranges = {}
    for x in atoms(ts).values():
        lo, hi = x.rng
        if x.op == 'uf':
            if lo is not None or hi is not None:
                ufsranges[(x.args[0], len(x.args) - 1)] = (lo, hi)
            if x.hasbound:
                continue
        zx = toz(x)
        if lo is not None:
            out.append(zx >= lo)
        if hi is not None:
            out.append(zx <= hi)
    for (nm, n), (lo, hi) in ufsranges.items():
        vs = [z3.Int('r!%d' % i) for i in range(n)]
        f = _ufs.get((nm, n))
        if f is None or n == 0:
            continue
        app = f(*vs)
        cs = []
        if lo is not None:
            cs.append(app >= lo)
        if hi is not None:
            cs.append(app <= hi)
        out.append(z3.ForAll(vs, z3.And(cs), patterns=[app]))
    return out


def has_quant(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Node) or x.id in seen:
            continue
        if x.op == 'forall':
            return True
        seen.add(x.id)
        st.extend(x.args)
    return False
