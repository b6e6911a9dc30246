"""Symbolic executor / VC generator over the LLVM IR that clang emits for /repo's sources."""
import json, os, time, sys
from terms import *
import z3

sys.setrecursionlimit(20000)


class Undecided(Exception):
    pass


class PathEnd(Exception):
    pass


class Ptr:
    __slots__ = ('b', 'o')

    def __init__(self, b, o):
        self.b = b
        self.o = o

    def __repr__(self):
        return 'Ptr(%r,%r)' % (self.b, self.o)


class PI(Ptr):
    """integer obtained from a pointer"""
    pass


NULL = Ptr(0, 0)


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Agg%r' % (self.v,)


class Undef:
    pass


UNDEF = Undef()


class Fn:
    def __init__(self, d, tu):
        self.__dict__.update(d)
        self.tu = tu
        self.loops = None

    def analyse(self):
        if self.loops is not None:
            return
        n = len(self.blocks)
        succ = []
        for b in self.blocks:
            t = b['insts'][-1]
            op = t['op']
            if op == 'br':
                s = list(t['succ'])
            elif op == 'switch':
                s = [t['def']] + [c[1] for c in t['cases']]
            elif op == 'invoke':
                s = [t['normal'], t['unwind']]
            else:
                s = []
            succ.append(s)
        self.succ = succ
        preds = [[] for _ in range(n)]
        order = []
        seen = set()

        def dfs(r):
            st = [(r, iter(succ[r]))]
            seen.add(r)
            while st:
                u, it = st[-1]
                for v in it:
                    if v not in seen:
                        seen.add(v)
                        st.append((v, iter(succ[v])))
                        break
                else:
                    order.append(u)
                    st.pop()
        dfs(0)
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        for u in rpo:
            for v in succ[u]:
                preds[v].append(u)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    a, c = x, p
                    while a != c:
                        while num[a] > num[c]:
                            a = idom[a]
                        while num[c] > num[a]:
                            c = idom[c]
                    x = a
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for u in rpo:
            for v in succ[u]:
                if v in num and dom(v, u):
                    body = loops.setdefault(v, {v})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(preds[x])
                elif v in num and num[v] <= num[u] and not dom(v, u):
                    self.irreducible = True
        self.loops = loops
        self.preds = preds


class Program:
    def __init__(self):
        self.tus = {}
        self.fn = {}
        self.bydem = {}
        self.gv = {}
        self.decl = {}
        self.alias = {}
        self.layouts = {}
        self.parsed = {}

    def load(self, tu, path):
        for line in open(path):
            # cheap header parse
            d = json.loads(line)
            nm = d['name']
            if d['kind'] == 'fn':
                f = Fn(d, tu)
                self.fn.setdefault(nm, f)
                self.fn[(tu, nm)] = f
                self.bydem.setdefault(d['dem'], []).append(f)
            elif d['kind'] == 'gv':
                d['tu'] = tu
                o = self.gv.get(nm)
                if o is None or ('init' in d and 'init' not in o):
                    self.gv[nm] = d
                self.gv[(tu, nm)] = d
            elif d['kind'] == 'alias':
                self.alias.setdefault(nm, d['to'])
                self.alias[(tu, nm)] = d['to']
            else:
                self.decl.setdefault(nm, d)

    def find(self, dem):
        fs = self.bydem.get(dem)
        if not fs:
            return None
        return fs[0]

    def getfn(self, tu, name):
        f = self.fn.get((tu, name))
        if f is not None:
            return f
        f = self.fn.get(name)
        if f is not None and not f.local:
            return f
        to = self.alias.get((tu, name)) or self.alias.get(name)
        if to is not None and to != name:
            return self.getfn(tu, to)
        return None

    def load_layouts(self, path):
        """clang -fdump-record-layouts text"""
        cur = None
        for line in open(path, errors='replace'):
            if line.startswith('*** Dumping AST Record Layout'):
                cur = None
                stack = []
                continue
            if '|' not in line:
                continue
            l, r = line.rstrip('\n').split('|', 1)
            l = l.strip()
            if not l or ':' in l or not l.isdigit():
                if l and ':' in l and cur is not None:
                    pass
                else:
                    continue
                continue
            off = int(l)
            ind = len(r) - len(r.lstrip(' '))
            t = r.strip()
            if ind == 1:
                for pre in ('class ', 'struct ', 'union '):
                    if t.startswith(pre):
                        t = t[len(pre):]
                t = t.replace(' (empty)', '')
                cur = self.layouts.setdefault(t, {})
                stack = []
                continue
            if cur is None:
                continue
            while stack and stack[-1][0] >= ind:
                stack.pop()
            nm = t.rsplit(' ', 1)[-1] if ' ' in t else t
            base = '(base)' in t or '(primary base)' in t
            if base:
                nm = ''
            path_ = '.'.join([x[1] for x in stack if x[1]] + ([nm] if nm else []))
            stack.append((ind, nm))
            if path_ and not base:
                cur.setdefault(path_, off)

    def off(self, cls, field):
        try:
            return self.layouts[cls][field]
        except KeyError:
            raise Undecided('no field %s in the layout of %s' % (field, cls))


class Blk:
    __slots__ = ('size', 'kind', 'name', 'arrs', 'last', 'live', 'fnname', 'dirty', 'allow')

    def __init__(self, kind, name, size=None):
        self.kind = kind
        self.name = name
        self.size = size
        self.arrs = {}
        self.last = {}
        self.live = True
        self.fnname = None
        self.dirty = False
        self.allow = None       # f(offset, bytes): which accesses the contract permits, beside the size

    def copy(self):
        b = Blk(self.kind, self.name, self.size)
        b.arrs = dict(self.arrs)
        b.last = dict(self.last)
        b.live = self.live
        b.fnname = self.fnname
        b.dirty = self.dirty
        b.allow = self.allow
        return b

    def arr(self, w):
        a = self.arrs.get(w)
        if a is None:
            a = a_base('%s.%s' % (self.name, w), w)
            self.arrs[w] = a
        return a


class Frame:
    __slots__ = ('fn', 'env', 'bi', 'prev', 'ip', 'cuts', 'ret', 'allocas', 'visits')

    def __init__(self, fn):
        self.fn = fn
        self.env = {}
        self.bi = 0
        self.prev = None
        self.ip = 0
        self.cuts = {}
        self.ret = None        # instruction of the caller awaiting the result
        self.allocas = []
        self.visits = {}

    def copy(self):
        f = Frame(self.fn)
        f.env = dict(self.env)
        f.bi, f.prev, f.ip = self.bi, self.prev, self.ip
        f.cuts = dict(self.cuts)
        f.ret = self.ret
        f.allocas = list(self.allocas)
        f.visits = dict(self.visits)
        return f


LAZY = set()


REUSE = True


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.pcids = set()
        self.exc = None
        self.ghost = {}
        self.dead = False

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.pcids = set(self.pcids)
        s.exc = self.exc
        s.ghost = dict(self.ghost)
        return s

    def snap(self):
        """snapshot for old(...)"""
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.pcids = set(self.pcids)
        s.ghost = dict(self.ghost)
        return s

    def assume(self, c, lazy=False):
        """lazy: a fact for the obligations only, not consulted when paths are explored"""
        if c is True:
            return
        if lazy and c is not False:
            LAZY.add(c.id)
        if c is False:
            self.dead = True
            return
        if c.op == 'and':
            for x in c.args:
                self.assume(x)
            return
        if c.id not in self.pcids:
            self.pcids.add(c.id)
            self.pc.append(c)


def ibits(t):
    if isinstance(t, str):
        if t[0] == 'i':
            return int(t[1:])
        if t == 'float':
            return 32
        if t == 'double':
            return 64
    return None


def tsize(t):
    if isinstance(t, str):
        if t == 'ptr' or t == 'double':
            return 8
        if t == 'float':
            return 4
        if t == 'x86_fp80':
            return 16
        w = int(t[1:])
        return max(1, (w + 7) // 8)
    if 'struct' in t:
        return t['size']
    if 'arr' in t:
        return t['n'] * t['esz']
    raise Undecided('size of type %s' % t)


class Obl:
    __slots__ = ('name', 'pc', 'goal', 'where', 'st', 'status', 'backend', 't', 'model', 'kind')

    def __init__(self, name, pc, goal, where, st=None, kind='post'):
        self.name = name
        self.pc = pc
        self.goal = goal
        self.where = where
        self.st = st
        self.status = None
        self.backend = None
        self.t = 0
        self.model = None
        self.kind = kind


STATS = {'queries': 0, 'qtime': 0.0, 'proofs': 0, 'ptime': 0.0}


def mksolver(facts, extra, timeout, mbqi):
    s = z3.Solver()
    if mbqi:
        s.set(timeout=timeout)
    else:
        s.set(timeout=timeout, auto_config=False, mbqi=False)
    for c in facts:
        s.add(toz(c))
    for c in extra:
        s.add(toz(c))
    for f in range_facts(list(facts) + list(extra)):
        s.add(f)
    return s


class Inc:
    """incremental solver for path feasibility: one level per fact, shared prefixes of path conditions stay asserted"""

    def __init__(self):
        self.s = z3.SimpleSolver()
        self.s.set(mbqi=False)
        self.lv = []
        self.seen = [set()]
        self.rc = {}

    def ranges(self, c, seen):
        out = []
        ent = self.rc.get(c.id)
        if ent is None:
            ent = []
            for x in atoms([c]).values():
                lo, hi = x.rng
                if (lo is None and hi is None) or x.hasbound:
                    continue
                zx = toz(x)
                ent.append((x.id, ([] if lo is None else [zx >= lo]) + ([] if hi is None else [zx <= hi])))
            self.rc[c.id] = ent
        for i, zs in ent:
            if not any(i in q for q in self.seen) and i not in seen:
                seen.add(i)
                out += zs
        return out

    def check(self, facts, cond, timeout):
        n = 0
        while n < len(self.lv) and n < len(facts) and self.lv[n] == facts[n].id:
            n += 1
        if n < len(self.lv):
            self.s.pop(len(self.lv) - n)
            del self.lv[n:]
            del self.seen[n + 1:]
        for c in facts[n:]:
            self.s.push()
            new = set()
            for z in self.ranges(c, new):
                self.s.add(z)
            self.s.add(toz(c))
            self.lv.append(c.id)
            self.seen.append(new)
        self.s.set(timeout=timeout)
        self.s.push()
        try:
            if cond is not True:
                for z in self.ranges(cond, set()):
                    self.s.add(z)
                self.s.add(toz(cond))
            return self.s.check()
        finally:
            self.s.pop()


CVC5 = '/usr/bin/cvc5'


def prove(pc, goal, timeout=8000, want_model=False, light=False, inc=None):
    """-> (status, backend, model): status in proved / failed / unknown"""
    if goal is True:
        return 'proved', 'simplifier', None
    t0 = time.time()
    STATS['proofs'] += 1
    neg = NOT(goal)
    try:
        if neg is not True and neg is not False and neg.id in PROVED_CACHE:
            pass
        if inc is not None and inc.check(pc, neg, min(timeout, 3000)) == z3.unsat:
            return 'proved', 'z3', None
        if inc is not None and light and INCLIGHT:
            return 'unknown', 'z3', None
        s = mksolver(pc, [neg], timeout, False)
        r = s.check()
        if r == z3.unsat:
            return 'proved', 'z3', None
        if light and (r == z3.sat or QLIGHT and any(Ex.quant(Ex, c) for c in pc)):
            return 'unknown', 'z3', None
        s2 = mksolver(pc, [neg], timeout, True)
        r = s2.check()
        if r == z3.unsat:
            return 'proved', 'z3-mbqi', None
        m = None
        if r == z3.sat:
            m = s2.model()
            return 'failed', 'z3', m
        # second back end
        import subprocess, tempfile, shutil
        cv = shutil.which('cvc5')
        if cv:
            txt = '(set-logic ALL)\n' + s.to_smt2()
            try:
                p = subprocess.run([cv, '--lang=smt2', '--tlimit=%d' % timeout, '-q'], input=txt, capture_output=True, text=True, timeout=timeout / 1000 + 5)
                if p.stdout.strip().split('\n')[0] == 'unsat':
                    return 'proved', 'cvc5', None
            except subprocess.TimeoutExpired:
                pass
        try:
            m = s2.model()
        except z3.Z3Exception:
            m = None
        return 'unknown', 'z3', m
    finally:
        STATS['ptime'] += time.time() - t0


PROVED_CACHE = {}
INCLIGHT = True
TRACEINV = bool(os.environ.get('TRACEINV'))
QLIGHT = True


def famname(t):
    if isinstance(t, Node) and t.op == 'uf' and isinstance(t.args[0], str) and t.args[0].startswith('fam!'):
        return t.args[0][4:]
    return None


class Ex:
    def __init__(self, prog, contracts=(), stubs=(), opts=None):
        self.P = prog
        self.contracts = {}
        self.stubs = list(stubs)
        self.opts = opts or {}
        self.nblk = 100
        self.gblk = {}
        self.codeid = {}
        self.codename = {}
        self.obls = []
        self.mute = 0
        self.qcache = {}
        self.inc = None
        self.incq = None
        self.inlined = set()
        self.stubbed = set()
        self.used_contracts = set()
        self.wlog = []           # stack of active write logs
        self.cmplog = []
        self.curcontract = None
        self.topfn = None
        self.typeids = {}
        self.houdini_stats = []
        self.reuse = REUSE
        self.reused = 0
        self.rootnode = {'drop': set(), 'kids': {}, 'w': None}
        self.contractinv = set()       # names of the invariant candidates that the contract gave
        self.paths = 0
        self.deadline = None
        self.fams = {}
        for c in contracts:
            if c.dem not in self.contracts or c.has_call():
                self.contracts[c.dem] = c

    # ------------------------------------------------------------ solver
    def feasible(self, st, cond=True, timeout=400):
        """False only if pc & cond is unsatisfiable (quantifier-free part)"""
        if cond is False or st.dead:
            return False
        if cond is not True and NOT(cond) is not True and NOT(cond).id in st.pcids:
            return False
        if cond is not True and cond.id in st.pcids:
            return True
        key = (len(st.pc), st.pc[-1].id if st.pc else 0, hash(frozenset(st.pcids)), None if cond is True else cond.id)
        r = self.qcache.get(key)
        if r is not None:
            return r
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise Undecided('time limit for this function reached')
        STATS['queries'] += 1
        facts = [c for c in st.pc if c.id not in LAZY and not self.quant(c)]
        if self.inc is None:
            self.inc = Inc()
        res = self.inc.check(facts, cond, timeout) != z3.unsat
        self.qcache[key] = res
        STATS['qtime'] += time.time() - t0
        return res

    _q = {}

    def quant(self, c):
        r = self._q.get(c.id)
        if r is None:
            r = has_quant(c)
            self._q[c.id] = r
        return r

    def decide(self, st, cond):
        """True/False if the path condition settles cond, else None"""
        if isinstance(cond, bool):
            return cond
        if cond.hasbound:
            return None
        if cond.id in st.pcids:
            return True
        n = NOT(cond)
        if n.id in st.pcids:
            return False
        if not self.feasible(st, n):
            return True
        if not self.feasible(st, cond):
            return False
        return None

    def prove_now(self, st, goal, timeout=4000):
        d = self.decide(st, goal) if not isinstance(goal, bool) else goal
        if d is not None and d:
            return True
        r, b, m = prove(st.pc, goal, timeout, light=True, inc=self.getincq())
        return r == 'proved'

    def getincq(self):
        if self.incq is None:
            self.incq = Inc()
        return self.incq

    def oblige(self, st, name, goal, kind='post', quick=False):
        """records an obligation and assumes it afterwards"""
        if goal is True:
            if not self.mute:
                o = Obl(name, (), True, self.where(st), None, kind)
                o.status, o.backend = 'proved', 'simplifier'
                self.obls.append(o)
            return
        if not self.mute:
            self.obls.append(Obl(name, list(st.pc), goal, self.where(st), st if kind == 'post' else None, kind))
        st.assume(goal)

    def oblige_nf(self, st, name, goal, kind='post'):
        o = Obl(name, list(st.pc) if goal is not True else (), goal, self.where(st) if st.frames else 'exit', None, kind)
        if goal is True:
            o.status, o.backend = 'proved', 'simplifier'
        self.obls.append(o)

    def where(self, st):
        for f in reversed(st.frames):
            b = f.fn.blocks[f.bi]['insts']
            i = b[min(f.ip, len(b) - 1)]
            if i.get('ln'):
                return '%s:%s' % (i.get('fl', '?'), i['ln'])
        return '?'

    # ------------------------------------------------------------ memory
    def newblk(self, st, kind, name, size=None):
        self.nblk += 1
        b = self.nblk
        st.mem[b] = Blk(kind, '%s#%d' % (name, b), size)
        return b

    def codeptr(self, name):
        if name not in self.codeid:
            self.nblk += 1
            self.codeid[name] = self.nblk
            self.codename[self.nblk] = name
        return Ptr(self.codeid[name], 0)

    def globalptr(self, st, name, off=0):
        tu = st.frames[-1].fn.tu if st.frames else None
        g = self.P.gv.get((tu, name)) or self.P.gv.get(name)
        if g is not None and not g.get('local'):
            g = self.P.gv.get(name) or g
        if g is None:
            return Ptr(self.codeptr(name).b, off)
        key = (g['tu'], name) if g.get('local') else name
        b = self.gblk.get(key)
        if b is None:
            self.nblk += 1
            b = self.nblk
            self.gblk[key] = b
        if b not in st.mem:
            blk = Blk('global', 'g:%s' % name, g['size'] if g['size'] >= 0 else None)
            st.mem[b] = blk
            if 'init' in g and (g['const'] or self.opts.get('use_init', {}).get(name)):
                self.initglobal(st, b, 0, g['init'], g['ty'])
        return Ptr(b, off)

    def initglobal(self, st, b, off, init, ty):
        k = init[0]
        if k == 'zero' or k == 'null':
            n = tsize(ty)
            blk = st.mem[b].copy()
            for w in (8, 16, 32, 64):
                blk.arrs[w] = a_fill(blk.arr(w), off // (w // 8), (off + n) // (w // 8), 0)
            for w in ('pb', 'po'):
                blk.arrs[w] = a_fill(blk.arr(w), off // 8, (off + n) // 8, 0)
            st.mem[b] = blk
        elif k == 'i':
            self.rawstore(st, b, off, init[1], int(init[2]))
        elif k == 'f':
            self.rawstore(st, b, off, ibits(init[1]), int(init[2]))
        elif k == 'agg':
            t = init[1]
            if 'arr' in t:
                if t['n'] > 4096:
                    return
                for i, x in enumerate(init[2]):
                    self.initglobal(st, b, off + i * t['esz'], x, t['arr'])
            else:
                for o, x, f in zip(t['off'], init[2], t['struct']):
                    self.initglobal(st, b, off + o, x, f)
        elif k == 'g':
            p = self.globalptr(st, init[1], init[2])
            self.rawstore(st, b, off, 'ptr', p)
        else:
            pass

    def rawstore(self, st, b, off, w, val):
        if not isinstance(b, int):
            self.famdirty(st, b)
        blk = st.mem[b].copy()
        if not isinstance(b, int):
            blk.dirty = True
        st.mem[b] = blk
        if w == 'ptr':
            i = div(off, 8)
            blk.arrs['pb'] = a_store(blk.arr('pb'), i, val.b)
            blk.arrs['po'] = a_store(blk.arr('po'), i, val.o)
            sz = 8
        else:
            sz = w // 8
            i = div(off, sz)
            blk.arrs[w] = a_store(blk.arr(w), i, val)
        if isinstance(off, int):
            for k in range(off, off + sz):
                blk.last[k] = (w, off)
        for lg in self.wlog:
            lg.setdefault((b, w), set()).add(i if isinstance(i, int) else None)

    def setarr(self, st, b, w, arr):
        """replace a whole cell array (contract effects)"""
        blk = st.mem[b].copy()
        blk.arrs[w] = arr
        if not isinstance(b, int):
            self.famdirty(st, b)
            blk.dirty = True
        st.mem[b] = blk
        for lg in self.wlog:
            lg.setdefault((b, w), set()).add(None)

    def oracle(self, st):
        return lambda c: self.decide(st, c)

    def rawload(self, st, b, off, w):
        blk = st.mem[b]
        sz = 8 if w == 'ptr' else w // 8
        if isinstance(off, int) and blk.last:
            ws = [blk.last.get(k) for k in range(off, off + sz)]
            if any(x is not None and x != (w, off) for x in ws):
                return self.mixedload(st, blk, off, w, ws)
        o = self.oracle(st) if self.opts.get('oracle', True) else None
        i = div(off, sz)
        if w == 'ptr':
            return Ptr(a_read(blk.arr('pb'), i, o), a_read(blk.arr('po'), i, o))
        return a_read(blk.arr(w), i, o)

    def mixedload(self, st, blk, off, w, ws):
        sz = len(ws)
        if w == 'ptr':
            # an integer zero is the null pointer
            vals = set(ws)
            v = 0
            k = 0
            while k < sz:
                x = ws[k]
                if x is None or x[0] == 'ptr':
                    raise Undecided('mixed-width pointer load')
                val = a_read(blk.arr(x[0]), x[1] // (x[0] // 8))
                if isinstance(val, int) and val == 0:
                    k += 1
                    continue
                raise Undecided('pointer loaded from integer cells')
            return NULL
        r = 0
        k = 0
        while k < sz:
            x = ws[k]
            j = k
            while j < sz and ws[j] == x and x is not None:
                j += 1
            if x is None:
                raise Undecided('mixed-width load of bytes never written (%s+%d)' % (blk.name, off + k))
            w2, s = x
            if w2 == 'ptr':
                if off == s and w == 64:
                    return PI(a_read(blk.arr('pb'), s // 8), a_read(blk.arr('po'), s // 8))
                raise Undecided('integer load of pointer bytes')
            v = a_read(blk.arr(w2), s // (w2 // 8))
            sh = off + k - s
            part = mod(div(v, 256 ** sh), 256 ** (j - k))
            r = add(r, mulc(part, 256 ** k))
            k = j
        return r

    def resolve(self, st, p, what='access'):
        """-> list of (state, concrete blk) for a pointer that may have a symbolic block"""
        if isinstance(p.b, int):
            return [(st, p.b)]
        fam = famname(p.b)
        if fam is not None:
            return [(st, self.famblk(st, fam, p.b))]
        if p.b.op == 'ite' and not p.b.hasbound:
            out = []
            for c, x in ((p.b.args[0], p.b.args[1]), (NOT(p.b.args[0]), p.b.args[2])):
                d = self.decide(st, c)
                if d is False:
                    continue
                s2 = st if d is True else st.copy()
                if d is not True:
                    s2.assume(c)
                out.extend(self.resolve(s2, Ptr(x, p.o), what))
            return out
        out = []
        cur = st
        for _ in range(6):
            facts = [c for c in cur.pc if not self.quant(c)]
            s = mksolver(facts, [], 1000, True)
            zb = toz(p.b)
            for f in range_facts([p.b]):
                s.add(f)
            r = s.check()
            if r == z3.unsat:
                return out
            if r != z3.sat:
                raise Undecided('cannot resolve pointer block')
            v = s.model().eval(zb, model_completion=True).as_long()
            c = eq(p.b, v)
            if v != 0 and v not in cur.mem:
                # is it pinned at all?
                if not self.prove_now(cur, c):
                    raise Undecided('pointer to an unknown object (%s)' % show(p.b))
            s2 = cur.copy()
            s2.assume(c)
            out.append((s2, v))
            cur = cur.copy()
            cur.assume(NOT(c))
            if cur.dead or not self.feasible(cur):
                return out
            if self.prove_now(cur, False, 2000):
                return out
        raise Undecided('pointer may refer to too many objects')

    def famblk(self, st, fam, t):
        """block of a family member: a pure function of its indices until it is written"""
        if t in st.mem:
            return t
        for k, blk in list(st.mem.items()):
            if not isinstance(k, int) and famname(k) == fam:
                same_ = AND(*[eq(x, y) for x, y in zip(k.args[1:], t.args[1:])])
                d = self.decide(st, same_)
                if d is True:
                    return k
                if d is None and blk.dirty:
                    raise Undecided('element of %s that may or may not be the one written before' % fam)
        st.mem[t] = self.fams[fam](self, t)
        return t

    def famdirty(self, st, t):
        blk = st.mem[t]
        if blk.dirty:
            return
        fam = famname(t)
        for k in list(st.mem):
            if not isinstance(k, int) and k is not t and famname(k) == fam:
                same_ = AND(*[eq(x, y) for x, y in zip(k.args[1:], t.args[1:])])
                if self.decide(st, same_) is not False:
                    raise Undecided('write to an element of %s that may alias another' % fam)
        if self.wlog:
            raise Undecided('write to an element of %s inside a loop' % fam)

    def checkaccess(self, st, b, off, n, what):
        """memory safety obligations for an access of n bytes at (b, off)"""
        if b == 0:
            self.oblige(st, 'no null dereference (%s)' % what, False, 'safety')
            raise PathEnd()
        blk = st.mem.get(b)
        if blk is None:
            raise Undecided('access to code or unknown object %s' % self.codename.get(b, b))
        if not blk.live:
            self.oblige(st, 'no use after free (%s of %s)' % (what, blk.name), False, 'safety')
            raise PathEnd()
        if blk.size is not None or blk.allow is not None:
            g = blk.allow(off, n) if blk.allow is not None else AND(le(0, off), le(add(off, n), blk.size))
            if g is not True:
                self.oblige(st, 'in bounds: %s of %s' % (what, blk.name.split('#')[0]), g, 'safety')
                if st.dead:
                    raise PathEnd()

    def load(self, st, p, ty):
        """typed load through a pointer with a concrete block"""
        if isinstance(ty, dict):
            if 'struct' in ty:
                return Agg([self.load(st, Ptr(p.b, add(p.o, o)), f) for o, f in zip(ty['off'], ty['struct'])])
            if 'arr' in ty:
                return Agg([self.load(st, Ptr(p.b, add(p.o, i * ty['esz'])), ty['arr']) for i in range(ty['n'])])
        if ty == 'ptr':
            return self.rawload(st, p.b, p.o, 'ptr')
        w = ibits(ty)
        if w is None:
            raise Undecided('load of type %s' % ty)
        if w == 1:
            v = self.rawload(st, p.b, p.o, 8)
            return ne(mod(v, 2), 0)
        return self.rawload(st, p.b, p.o, w)

    def store(self, st, p, ty, v):
        if isinstance(ty, dict):
            if 'struct' in ty:
                for o, f, x in zip(ty['off'], ty['struct'], v.v):
                    self.store(st, Ptr(p.b, add(p.o, o)), f, x)
                return
            for i in range(ty['n']):
                self.store(st, Ptr(p.b, add(p.o, i * ty['esz'])), ty['arr'], v.v[i])
            return
        if v is UNDEF:
            v = self.freshval(ty, 'undef')
        if ty == 'ptr':
            self.rawstore(st, p.b, p.o, 'ptr', v)
            return
        w = ibits(ty)
        if w is None:
            raise Undecided('store of type %s' % ty)
        if w == 1:
            v = ite(v, 1, 0)
            w = 8
        if isinstance(v, PI):
            self.rawstore(st, p.b, p.o, 'ptr', Ptr(v.b, v.o))
            return
        self.rawstore(st, p.b, p.o, w, v)

    def freshval(self, ty, nm):
        if isinstance(ty, dict):
            if 'struct' in ty:
                return Agg([self.freshval(f, nm) for f in ty['struct']])
            return Agg([self.freshval(ty['arr'], nm) for _ in range(ty['n'])])
        if ty == 'ptr':
            return Ptr(fresh(nm + '.b', 0), fresh(nm + '.o'))
        if ty == 'void':
            return None
        if ty == 'i1':
            return freshb(nm)
        w = ibits(ty)
        if w is None:
            raise Undecided('fresh value of type %s' % ty)
        return fresh(nm, 0, (1 << w) - 1)

    def memcopy(self, st, d, s, n):
        """memcpy/memmove with pre-state source (concrete blocks)"""
        sb = st.mem[s.b]
        if not isinstance(d.b, int):
            self.famdirty(st, d.b)
        db = st.mem[d.b].copy()
        if not isinstance(d.b, int):
            db.dirty = True
        if isinstance(n, int) and n == 0:
            return
        for w in (8, 16, 32, 64, 'pb', 'po'):
            sz = 8 if isinstance(w, str) else w // 8
            if isinstance(n, int) and n < sz:
                continue
            if isinstance(n, int) and isinstance(d.o, int) and isinstance(s.o, int) and n // sz <= 8 and d.o % sz == 0 and s.o % sz == 0:
                a = db.arr(w)
                for k in range(n // sz):
                    a = a_store(a, d.o // sz + k, a_read(sb.arr(w), s.o // sz + k))
                db.arrs[w] = a
                continue
            lo = div(d.o, sz)
            hi = add(lo, div(n, sz))
            db.arrs[w] = a_copy(db.arr(w), lo, hi, sb.arr(w), div(s.o, sz))
        if isinstance(n, int) and isinstance(d.o, int):
            for k in range(n):
                db.last.pop(d.o + k, None)
            if isinstance(s.o, int):
                for k in range(n):
                    x = sb.last.get(s.o + k)
                    if x is not None and s.o <= x[1]:
                        db.last[d.o + k] = (x[0], x[1] - s.o + d.o)
        else:
            db.last = {}
        st.mem[d.b] = db
        for lg in self.wlog:
            for w, ix in self.copylog(sb, d, s, n):
                lg.setdefault((d.b, w), set()).add(ix)

    def copylog(self, sb, d, s, n):
        """cells written by a copy: exact when the sizes are constants and the source cells have one known width"""
        if isinstance(n, int) and n <= 64 and isinstance(d.o, int) and isinstance(s.o, int) and d.o % 8 == s.o % 8:
            out = set()
            for k in range(n):
                x = sb.last.get(s.o + k)
                if x is None:
                    # padding beside a known cell of the same 8 bytes
                    q = (s.o + k) // 8 * 8
                    if all(sb.last.get(j) is None for j in range(q, q + 8)):
                        break
                    out.update((w, (d.o + k) // (w // 8)) for w in (8, 16, 32) if sb.last.get((s.o + k) // (w // 8) * (w // 8)) is None)
                    continue
                sz = 8 if x[0] == 'ptr' else x[0] // 8
                if x[1] < s.o or x[1] + sz > s.o + n:
                    break
                out.add((x[0], (x[1] - s.o + d.o) // sz))
            else:
                return out
        return [(w, None) for w in (8, 16, 32, 64, 'ptr')]

    def memfill(self, st, d, v, n):
        if not isinstance(d.b, int):
            self.famdirty(st, d.b)
        db = st.mem[d.b].copy()
        if not isinstance(d.b, int):
            db.dirty = True
        for w in (8, 16, 32, 64):
            sz = w // 8
            if isinstance(n, int) and n < sz:
                continue
            if isinstance(v, int):
                vv = v * sum(256 ** k for k in range(sz))
            else:
                vv = mulc(v, sum(256 ** k for k in range(sz)))
            lo = div(d.o, sz)
            hi = add(lo, div(n, sz))
            if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 16:
                for k in range(lo, hi):
                    db.arrs[w] = a_store(db.arr(w), k, vv)
            else:
                db.arrs[w] = a_fill(db.arr(w), lo, hi, vv)
        if isinstance(v, int) and v == 0:
            for w in ('pb', 'po'):
                lo = div(d.o, 8)
                db.arrs[w] = a_fill(db.arr(w), lo, add(lo, div(n, 8)), 0)
        db.last = {k: x for k, x in db.last.items()
                   if isinstance(n, int) and isinstance(d.o, int) and not (d.o <= k < d.o + n)}
        st.mem[d.b] = db
        for lg in self.wlog:
            for w in (8, 16, 32, 64, 'ptr'):
                lg.setdefault((d.b, w), set()).add(None)

    # ------------------------------------------------------------ values
    def sgn(self, st, x, w):
        n = 1 << w
        if isinstance(x, int):
            return x - n if x >= n // 2 else x
        if isinstance(x, PI):
            return x
        lo, hi = x.rng
        if hi is not None and hi < n // 2:
            return x
        if lo is not None and lo >= n // 2:
            return sub(x, n)
        # sgn(wrap(y)) for y already in signed range
        if x.op == 'ite':
            c, a, b = x.args
            d = sub(a, b)
            if isinstance(d, int) and d == n and c.op == 'le':
                l, h = rng(b)
                if l is not None and h is not None and l >= -n // 2 and h < n // 2 and c is lt(b, 0):
                    return b
        if st is not None:
            r = self.decide(st, lt(x, n // 2))
            if r is True:
                return x
            if r is False:
                return sub(x, n)
        return ite(ge(x, n // 2), sub(x, n), x)

    def canon(self, st, v, w):
        """canonical unsigned value of the mathematical integer v"""
        n = 1 << w
        if isinstance(v, int):
            return v % n
        lo, hi = v.rng
        if lo is not None and hi is not None and 0 <= lo and hi < n:
            return v
        if st is not None:
            if (lo is None or lo < 0) or (hi is None or hi >= n):
                inr = AND(le(0, v), lt(v, n))
                if self.decide(st, inr) is True:
                    return self.narrow(st, v, 0, n - 1)
                if self.decide(st, ge(v, n)) is True and self.decide(st, lt(v, 2 * n)) is True:
                    return self.narrow(st, sub(v, n), 0, n - 1)
        return wrap(v, w)

    def narrow(self, st, v, lo, hi):
        return v

    def val(self, st, o, ty=None):
        k = o[0]
        if k == 'v':
            return st.frames[-1].env[o[1]]
        if k == 'i':
            v = int(o[2])
            return bool(v) if o[1] == 1 else v
        if k == 'null':
            return NULL
        if k == 'nullp':
            return Ptr(0, o[1])
        if k == 'g':
            if self.P.getfn(st.frames[-1].fn.tu, o[1]) is not None or o[1] in self.P.decl:
                p = self.codeptr(o[1])
                return Ptr(p.b, o[2])
            return self.globalptr(st, o[1], o[2])
        if k == 'f':
            return int(o[2])
        if k == 'undef':
            return self.freshval(o[1], 'undef') if not isinstance(o[1], dict) else Agg([UNDEF] * len(o[1].get('struct', [])))
        if k == 'zero':
            return self.zeroval(o[1])
        if k == 'agg':
            return Agg([self.val(st, x) for x in o[2]])
        if k == 'inttoptr':
            return Ptr(0, self.val(st, o[1]))
        if k == 'ce' and o[1] == 'ptrtoint':
            p = self.val(st, o[3])
            return PI(p.b, p.o)
        raise Undecided('operand %s' % (o,))

    def zeroval(self, ty):
        if isinstance(ty, dict):
            if 'struct' in ty:
                return Agg([self.zeroval(f) for f in ty['struct']])
            return Agg([self.zeroval(ty['arr']) for _ in range(ty['n'])])
        if ty == 'ptr':
            return NULL
        if ty == 'i1':
            return False
        return 0

    def toint(self, v):
        """an integer term for a pointer-as-integer"""
        if isinstance(v, PI):
            if isinstance(v.b, int) and v.b == 0:
                return v.o
            return add(uf('addr', v.b, lo=4096), v.o)
        return v

    def binop(self, st, i, a, b):
        op = i['op']
        ty = i['ty']
        w = ibits(ty)
        if w is None:
            raise Undecided('binop on %s' % ty)
        if w == 1:
            if op == 'and' or op == 'mul':
                return AND(a, b)
            if op == 'or':
                return OR(a, b)
            if op in ('xor', 'add', 'sub'):
                return NOT(IFF(a, b)) if not isinstance(b, bool) else (NOT(a) if b else a)
            raise Undecided('i1 ' + op)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return uf('%s%d' % (op, w), a, b, lo=0, hi=(1 << w) - 1)
        if isinstance(a, PI) or isinstance(b, PI):
            if op == 'sub' and isinstance(a, PI) and isinstance(b, PI):
                if a.b is b.b or (isinstance(a.b, int) and isinstance(b.b, int) and a.b == b.b):
                    return self.canon(st, sub(a.o, b.o), w)
                if self.prove_now(st, eq(a.b, b.b)):
                    return self.canon(st, sub(a.o, b.o), w)
                if self.cmplog:
                    return fresh('ptrdiff', 0, (1 << w) - 1)    # only the write set of a loop is looked for: any value
                raise Undecided('difference of pointers into different objects')
            if op == 'add' and isinstance(a, PI) and not isinstance(b, PI):
                return PI(a.b, add(a.o, self.sgn(st, b, w)))
            if op == 'sub' and isinstance(a, PI):
                return PI(a.b, sub(a.o, self.sgn(st, b, w)))
            a, b = self.toint(a), self.toint(b)
        if op == 'add':
            if i.get('nsw'):
                return self.canon(st, add(self.sgn(st, a, w), self.sgn(st, b, w)), w) if not self._simple(a, b, w) else wrap(add(a, b), w)
            if isinstance(b, int) and b >= 1 << (w - 1):
                return self.canon(st, sub(a, (1 << w) - b), w)
            return self.canon(st, add(a, b), w)
        if op == 'sub':
            return self.canon(st, sub(a, b), w)
        if op == 'mul':
            if i.get('nsw'):
                return self.canon(st, mul(self.sgn(st, a, w), self.sgn(st, b, w)), w)
            return self.canon(st, mul(a, b), w)
        if op in ('udiv', 'urem'):
            if isinstance(b, int):
                return div(a, b) if op == 'udiv' else mod(a, b)
            self.oblige(st, 'no division by zero', ne(b, 0), 'safety')
            q = fresh('q', 0, (1 << w) - 1)
            r = fresh('r', 0, (1 << w) - 1)
            st.assume(eq(a, add(mul(q, b), r)))
            st.assume(lt(r, b))
            return q if op == 'udiv' else r
        if op in ('sdiv', 'srem'):
            x = self.sgn(st, a, w)
            y = self.sgn(st, b, w)
            if isinstance(y, int) and y > 0:
                if self.decide(st, ge(x, 0)) is True:
                    q = div(x, y)
                    r = mod(x, y)
                else:
                    q = ite(ge(x, 0), div(x, y), mulc(div(mulc(x, -1), y), -1))
                    r = sub(x, mulc(q, y))
                return self.canon(st, q if op == 'sdiv' else r, w)
            raise Undecided('signed division by a non-constant')
        if op in ('shl', 'lshr', 'and', 'or'):
            r = self.byteop(op, a, b, w)
            if r is not None:
                return r
        if op == 'shl':
            if isinstance(b, int):
                return mod(mulc(a, 1 << b), 1 << w)
            raise Undecided('shl by variable')
        if op == 'lshr':
            if isinstance(b, int):
                return div(a, 1 << b)
            raise Undecided('lshr by variable')
        if op == 'ashr':
            if isinstance(b, int):
                return self.canon(st, div(self.sgn(st, a, w), 1 << b), w)
            raise Undecided('ashr by variable')
        if op == 'and':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if isinstance(a, int):
                    return a & b
                if b & (b + 1) == 0:
                    return mod(a, b + 1)
                inv = ((1 << w) - 1) ^ b
                if inv & (inv + 1) == 0:
                    return sub(a, mod(a, inv + 1))
                # contiguous field
                lowz = (b & -b).bit_length() - 1
                m = b >> lowz
                if m & (m + 1) == 0:
                    return mulc(mod(div(a, 1 << lowz), m + 1), 1 << lowz)
                r = self.byteop(op, a, b, w, True)
                if r is not None:
                    return r
            return uf('and%d' % w, a, b, lo=0, hi=(1 << w) - 1)
        if op == 'or':
            if isinstance(a, int) and isinstance(b, int):
                return a | b
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == 0:
                    return a
                # or with constant: clear those bits then add
                lowz = (b & -b).bit_length() - 1
                m = b >> lowz
                if m & (m + 1) == 0:
                    f = mulc(mod(div(a, 1 << lowz), m + 1), 1 << lowz)
                    return add(sub(a, f), b)
            if self.disjoint(a, b) or self.disjoint(b, a):
                return add(a, b)
            r = self.byteop(op, a, b, w, True)
            if r is not None:
                return r
            return uf('or%d' % w, a, b, lo=0, hi=(1 << w) - 1)
        if op == 'xor':
            if isinstance(a, int) and isinstance(b, int):
                return a ^ b
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b == (1 << w) - 1:
                return sub(b, a)
            return uf('xor%d' % w, a, b, lo=0, hi=(1 << w) - 1)
        raise Undecided('binop ' + op)

    def byteop(self, op, a, b, w, force=False):
        """shifts by whole bytes, byte masks and byte merges of words assembled byte by byte"""
        if w % 8:
            return None
        n = w // 8
        reg = lambda x: isinstance(x, Node) and x in BY
        if op in ('shl', 'lshr'):
            if not reg(a) or not isinstance(b, int) or b % 8:
                return None
            bs = bytesof(a, n)
            k = b // 8
            return ofbytes(([0] * k + bs)[:n] if op == 'shl' else bs[k:] + [0] * k)
        if not force and not reg(a) and not reg(b):
            return None
        if op == 'and':
            if isinstance(a, int):
                a, b = b, a
            if not isinstance(b, int) or any(x not in (0, 255) for x in bytesof(b, n)):
                return None
            return ofbytes([x if m else 0 for x, m in zip(bytesof(a, n), bytesof(b, n))])
        r = mergebytes([bytesof(a, n), bytesof(b, n)])
        return None if r is None else ofbytes(r)

    def _simple(self, a, b, w):
        n = 1 << (w - 1)
        (l1, h1), (l2, h2) = rng(a), rng(b)
        return h1 is not None and h2 is not None and h1 < n and h2 < n

    def disjoint(self, a, b):
        """bits of a all below those of b"""
        hi = rng(a)[1]
        if hi is None or isinstance(b, int):
            return isinstance(b, int) and hi is not None and b % (1 << hi.bit_length()) == 0
        m = 1 << hi.bit_length()
        return self.multof(b, m)

    def multof(self, t, m):
        if isinstance(t, int):
            return t % m == 0
        c, ts = parts(t)
        if c % m:
            return False
        for x, k in ts:
            if k % m == 0:
                continue
            if x.op == 'mod' and x.args[1] % m == 0 and self.multof(x.args[0], m):
                continue
            if x.op == 'ite' and self.multof(x.args[1], m) and self.multof(x.args[2], m):
                continue
            return False
        return True

    def icmp(self, st, pred_, a, b, ty):
        if isinstance(a, Ptr) and not isinstance(a, PI) or isinstance(b, Ptr) and not isinstance(b, PI):
            if pred_ in ('eq', 'ne'):
                c = AND(eq(a.b, b.b), eq(a.o, b.o))
                return c if pred_ == 'eq' else NOT(c)
            # relational: the C++ rules require the same object
            if not (a.b is b.b or (isinstance(a.b, int) and isinstance(b.b, int) and a.b == b.b)):
                if not self.prove_now(st, eq(a.b, b.b)):
                    raise Undecided('relational comparison of pointers into different objects')
            a, b = a.o, b.o
            return {'ult': lt, 'ule': le, 'ugt': gt, 'uge': ge}[pred_](a, b)
        if isinstance(a, PI) or isinstance(b, PI):
            if isinstance(a, PI) and isinstance(b, PI):
                return self.icmp(st, pred_, Ptr(a.b, a.o), Ptr(b.b, b.o), ty)
            a, b = self.toint(a), self.toint(b)
        if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, Node) and a.isb) or (isinstance(b, Node) and b.isb):
            if pred_ == 'eq':
                return IFF(a, b)
            if pred_ == 'ne':
                return NOT(IFF(a, b))
            a, b = ite(a, 1, 0), ite(b, 1, 0)
        w = ibits(ty)
        if pred_ == 'eq':
            return eq(a, b)
        if pred_ == 'ne':
            return ne(a, b)
        if pred_[0] == 's':
            a, b = self.sgn(st, a, w), self.sgn(st, b, w)
        f = {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pred_[1:]]
        return f(a, b)

    def fcmp(self, pred_, a, b, ty):
        w = ibits(ty)
        lt_ = lambda x, y: pred('flt%d' % w, x, y)
        eq_ = lambda x, y: pred('feq%d' % w, x, y)
        nan = lambda x: pred('fnan%d' % w, x)
        uno = OR(nan(a), nan(b))
        m = {'oeq': lambda: eq_(a, b), 'olt': lambda: lt_(a, b), 'ogt': lambda: lt_(b, a),
             'ole': lambda: OR(lt_(a, b), eq_(a, b)), 'oge': lambda: OR(lt_(b, a), eq_(a, b)),
             'one': lambda: OR(lt_(a, b), lt_(b, a)), 'ord': lambda: NOT(uno), 'uno': lambda: uno,
             'ueq': lambda: OR(uno, eq_(a, b)), 'une': lambda: NOT(eq_(a, b)),
             'ult': lambda: OR(uno, lt_(a, b)), 'ugt': lambda: OR(uno, lt_(b, a)),
             'ule': lambda: OR(uno, lt_(a, b), eq_(a, b)), 'uge': lambda: OR(uno, lt_(b, a), eq_(a, b)),
             'true': lambda: True, 'false': lambda: False}
        return m[pred_]()

    def cast(self, st, op, v, t0, t1):
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            return v
        if op == 'ptrtoint':
            if isinstance(v.b, int) and v.b == 0:
                return v.o if not isinstance(v.o, int) else v.o % (1 << 64)
            return PI(v.b, v.o)
        if op == 'inttoptr':
            if isinstance(v, PI):
                return Ptr(v.b, v.o)
            return Ptr(0, v)
        w0, w1 = ibits(t0), ibits(t1)
        if op == 'zext':
            if w0 == 1:
                return ite(v, 1, 0)
            return v
        if op == 'sext':
            if w0 == 1:
                return ite(v, (1 << w1) - 1, 0)
            return self.canon(st, self.sgn(st, v, w0), w1)
        if op == 'trunc':
            if isinstance(v, PI):
                v = self.toint(v)
            if w1 == 1:
                return ne(mod(v, 2), 0)
            if isinstance(v, Node) and v in BY and w1 % 8 == 0:
                return ofbytes(bytesof(v, w1 // 8))
            return self.canon(st, v, w1)
        if op in ('fpext', 'fptrunc', 'uitofp', 'sitofp', 'fptoui', 'fptosi'):
            if w0 == 1:
                v = ite(v, 1, 0)
            return uf('%s_%s_%s' % (op, t0, t1), v, lo=0, hi=(1 << w1) - 1) if w1 != 1 else pred('%s_%s' % (op, t0), v)
        raise Undecided('cast ' + op)

    # ------------------------------------------------------------ running
    def enter(self, st, fn, args, callinst=None):
        f = Frame(fn)
        fn.analyse()
        for a, v in zip(fn.args, args):
            f.env[a['id']] = v
        f.ret = callinst
        st.frames.append(f)

    def explore(self, st, ctl):
        """runs all paths from st; ctl(kind, st, info) is told about the ends:
        kind in ret / throw / back / exit"""
        work = [st]
        while work:
            s = work.pop()
            try:
                work.extend(self.run(s, ctl))
            except PathEnd:
                pass

    def run(self, st, ctl):
        """runs one path until it ends or forks; returns successor states"""
        while True:
            if st.dead:
                return []
            fr = st.frames[-1]
            insts = fr.fn.blocks[fr.bi]['insts']
            i = insts[fr.ip]
            try:
                r = self.step(st, fr, i, ctl)
            except Undecided as e:
                if not getattr(e, 'at', None):
                    e.at = fr.fn.dem + ' ' + str(i.get('ln'))
                    e.args = (str(e) + ' [in ' + e.at + ']',)
                raise
            if r is not None:
                return r

    def seti(self, fr, i, v):
        if 'id' in i:
            fr.env[i['id']] = v

    def jump(self, st, target, ctl):
        """transfers control within the top frame; handles phis and loops"""
        fr = st.frames[-1]
        src = fr.bi
        fn = fr.fn
        loops = fn.loops
        depth = len(st.frames)
        if ctl.loop and ctl.loop[0] == depth and ctl.loop[3] == id(fn) and target not in ctl.loop[2]:
            # leaves the loop under analysis
            if ctl.leave(st, target):
                return []
        insts = fn.blocks[target]['insts']
        vals = []
        k = 0
        while insts[k]['op'] == 'phi':
            p = insts[k]
            for o, b in p['in']:
                if b == src:
                    v = self.val(st, o)
                    break
            else:
                raise Undecided('phi without matching predecessor')
            vals.append((p, v))
            k += 1
        if target in loops:
            back = src in loops[target]
            if back and target in fr.cuts:
                ctl.back(st, target, vals, fr.cuts[target])
                return []
            if not back:
                fr.cuts.pop(target, None)
                fr.visits = {k_: v_ for k_, v_ in fr.visits.items() if k_ not in loops[target]}
            unroll = self.unroll_ok(st, fn, target, vals, fr)
            if not unroll:
                if back:
                    raise Undecided('loop not cut')
                return self.cutloop(st, target, vals, ctl, k)
            fr.visits[target] = fr.visits.get(target, 0) + 1
            if fr.visits[target] > self.opts.get('max_unroll', 70):
                raise Undecided('unrolling limit')
        for p, v in vals:
            fr.env[p['id']] = v
        fr.prev = src
        fr.bi = target
        fr.ip = k
        return None

    def unroll_ok(self, st, fn, target, vals, fr):
        u = self.curcontract.unroll(fn) if self.curcontract else False
        return u

    def step(self, st, fr, i, ctl):
        op = i['op']
        env = fr.env
        if op == 'load':
            p = self.val(st, i['args'][0])
            return self.with_blk(st, i, p, lambda s, q: self.do_load(s, i, q), ctl)
        if op == 'store':
            p = self.val(st, i['args'][1])
            return self.with_blk(st, i, p, lambda s, q: self.do_store(s, i, q), ctl)
        if op == 'getelementptr':
            b = self.val(st, i['base'])
            o = add(b.o, i['c'])
            for v, t, s in i['vs']:
                x = self.val(st, v)
                x = self.sgn(st, self.toint(x), ibits(t))
                o = add(o, mulc(x, s))
            env[i['id']] = Ptr(b.b, o)
        elif op == 'alloca':
            b = self.newblk(st, 'alloca', i.get('nm', 'tmp'), i['size'] if i['size'] >= 0 else None)
            fr.allocas.append(b)
            env[i['id']] = Ptr(b, 0)
        elif op == 'icmp':
            a = self.val(st, i['args'][0])
            b = self.val(st, i['args'][1])
            for lg in self.cmplog:
                lg.append((a, b, i['aty'][0]))
            env[i['id']] = self.icmp(st, i['pred'], a, b, i['aty'][0])
        elif op == 'fcmp':
            env[i['id']] = self.fcmp(i['pred'], self.val(st, i['args'][0]), self.val(st, i['args'][1]), i['aty'][0])
        elif op == 'fneg':
            w = ibits(i['ty'])
            v = self.val(st, i['args'][0])
            env[i['id']] = ite(ge(v, 1 << (w - 1)), sub(v, 1 << (w - 1)), add(v, 1 << (w - 1)))
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            env[i['id']] = self.binop(st, i, self.val(st, i['args'][0]), self.val(st, i['args'][1]))
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'fpext', 'fptrunc', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'addrspacecast'):
            env[i['id']] = self.cast(st, op, self.val(st, i['args'][0]), i['aty'][0], i['ty'])
        elif op == 'select':
            c = self.val(st, i['args'][0])
            a = self.val(st, i['args'][1])
            b = self.val(st, i['args'][2])
            c = c if isinstance(c, bool) else (lambda d: c if d is None else d)(self.decide(st, c))
            if c is True:
                env[i['id']] = a
            elif c is False:
                env[i['id']] = b
            elif isinstance(a, Ptr):
                if isinstance(a.b, int) and isinstance(b.b, int) and a.b == b.b:
                    env[i['id']] = Ptr(a.b, ite(c, a.o, b.o))
                else:
                    s2 = st.copy()
                    st.assume(c)
                    env[i['id']] = a
                    fr.ip += 1
                    s2.assume(NOT(c))
                    f2 = s2.frames[-1]
                    f2.env[i['id']] = b
                    f2.ip += 1
                    return [st, s2]
            else:
                env[i['id']] = ite(c, a, b)
        elif op == 'br':
            if 'cond' not in i:
                return self.jump(st, i['succ'][0], ctl)
            c = self.val(st, i['cond'])
            return self.branch(st, [(c, i['succ'][0]), (NOT(c), i['succ'][1])], ctl)
        elif op == 'switch':
            v = self.val(st, i['cond'])
            alts = []
            rest = True
            bytarget = {}
            for cv, t in i['cases']:
                c = eq(v, int(cv)) if not isinstance(v, bool) and not (isinstance(v, Node) and v.isb) else (v if int(cv) else NOT(v))
                bytarget.setdefault(t, []).append(c)
                rest = AND(rest, NOT(c))
            for t, cs in bytarget.items():
                alts.append((OR(*cs), t))
            alts.append((rest, i['def']))
            return self.branch(st, alts, ctl)
        elif op in ('call', 'invoke'):
            return self.call(st, fr, i, ctl)
        elif op == 'ret':
            v = self.val(st, i['args'][0]) if i.get('args') else None
            return self.doret(st, v, ctl)
        elif op == 'extractvalue':
            v = self.val(st, i['args'][0])
            for x in i['ix']:
                v = v.v[x]
            env[i['id']] = v
        elif op == 'insertvalue':
            a = self.val(st, i['args'][0])
            b = self.val(st, i['args'][1])
            env[i['id']] = self.insertv(a, i['ix'], b)
        elif op == 'landingpad':
            env[i['id']] = self.landingpad(st, i)
        elif op == 'resume':
            return self.unwind(st, ctl)
        elif op == 'unreachable':
            self.oblige(st, 'code declared unreachable is not reached', False, 'pre')
            return []
        elif op == 'phi':
            raise Undecided('phi out of place')
        else:
            raise Undecided('instruction %s' % op)
        fr.ip += 1
        return None

    def insertv(self, a, ix, b):
        v = list(a.v)
        v[ix[0]] = b if len(ix) == 1 else self.insertv(v[ix[0]], ix[1:], b)
        return Agg(v)

    def with_blk(self, st, i, p, f, ctl):
        if not isinstance(p, Ptr):
            raise Undecided('not a pointer')
        rs = self.resolve(st, p)
        if len(rs) == 1 and rs[0][0] is st:
            f(st, Ptr(rs[0][1], p.o))
            st.frames[-1].ip += 1
            return None
        out = []
        for s, b in rs:
            if b == 0 and not isinstance(p.b, int):
                # possible null dereference: an obligation on the original state
                self.oblige(st.copy(), 'no null dereference', ne(p.b, 0), 'safety')
                continue
            try:
                f(s, Ptr(b, p.o))
                s.frames[-1].ip += 1
                out.append(s)
            except PathEnd:
                pass
        return out

    def do_load(self, st, i, p):
        self.checkaccess(st, p.b, p.o, tsize(i['ty']), 'read')
        v = self.load(st, p, i['ty'])
        st.frames[-1].env[i['id']] = v

    def do_store(self, st, i, p):
        ty = i['aty'][0]
        v = self.val(st, i['args'][0])
        self.checkaccess(st, p.b, p.o, tsize(ty), 'write')
        blk = st.mem[p.b]
        self.store(st, p, ty, v)

    def branch(self, st, alts, ctl):
        live = []
        for c, t in alts:
            if c is False:
                continue
            if c is True or c.id in st.pcids:
                live = [(True, t)]
                break
            if NOT(c) is not True and NOT(c).id in st.pcids:
                continue
            live.append((c, t))
        if len(live) > 1:
            live = [(c, t) for c, t in live if self.feasible(st, c)]
        if not live:
            return []
        if len(live) == 1:
            c, t = live[0]
            if c is not True:
                st.assume(c)
            return self.jump(st, t, ctl)
        out = []
        for n, (c, t) in enumerate(live):
            s = st.copy() if n < len(live) - 1 else st
            s.assume(c)
            if s.dead:
                continue
            try:
                r = self.jump(s, t, ctl)
                if r is None:
                    out.append(s)
                else:
                    out.extend(r)
            except PathEnd:
                pass
        return out

    def doret(self, st, v, ctl):
        fr = st.frames.pop()
        for b in fr.allocas:
            if b in st.mem:
                nb = st.mem[b].copy()
                nb.live = False
                st.mem[b] = nb
        if not st.frames or (ctl.base is not None and len(st.frames) < ctl.base):
            self.paths += 1
            ctl.ret(st, v)
            return []
        if fr.ret is None:
            ctl.ret(st, v)
            return []
        cf = st.frames[-1]
        self.seti(cf, fr.ret, v)
        return self.aftercall(st, fr.ret, ctl)

    def aftercall(self, st, i, ctl):
        cf = st.frames[-1]
        if i['op'] == 'invoke':
            return self.jump(st, i['normal'], ctl)
        cf.ip += 1
        return None if False else [st]

    def throw(self, st, exc, ctl):
        """exc = (typeinfo name or None, exception pointer)"""
        st.exc = exc
        # the current instruction of the top frame is the throwing call
        fr = st.frames[-1]
        i = fr.fn.blocks[fr.bi]['insts'][fr.ip]
        if i['op'] == 'invoke':
            return self.jump_unwind(st, i, ctl)
        return self.unwind(st, ctl)

    def jump_unwind(self, st, i, ctl):
        r = self.jump(st, i['unwind'], ctl)
        return [st] if r is None else r

    def unwind(self, st, ctl):
        while True:
            fr = st.frames.pop()
            for b in fr.allocas:
                if b in st.mem:
                    nb = st.mem[b].copy()
                    nb.live = False
                    st.mem[b] = nb
            if not st.frames or (ctl.base is not None and len(st.frames) < ctl.base):
                self.paths += 1
                ctl.throw(st, st.exc)
                return []
            if fr.ret is None:
                ctl.throw(st, st.exc)
                return []
            if fr.ret['op'] == 'invoke':
                return self.jump_unwind(st, fr.ret, ctl)

    def typeid(self, name):
        if name not in self.typeids:
            self.typeids[name] = len(self.typeids) + 1
        return self.typeids[name]

    def isbase(self, t, b):
        """is class typeinfo b a base of (or equal to) t"""
        seen = 0
        while t is not None and seen < 20:
            if t == b:
                return True
            g = self.P.gv.get(t)
            if not g or 'init' not in g or g['init'][0] != 'agg':
                return None if g is None or 'init' not in g else False
            x = g['init'][2]
            if len(x) >= 3 and x[2][0] == 'g':
                t = x[2][1]
            else:
                return False
            seen += 1
        return False

    def landingpad(self, st, i):
        exc = st.exc
        sel = 0
        for a in i['args']:
            if a[0] == 'null':
                sel = self.typeid('...')
                break
            if a[0] == 'g':
                m = self.isbase(exc[0], a[1]) if exc[0] else None
                if m:
                    sel = self.typeid(a[1])
                    break
                if m is None:
                    if exc[0] == 'any':
                        sel = fresh('sel', 0, 100)
                        break
        return Agg([exc[1], sel])

    def opaqueobj(self, st, name):
        """an object of a class outside the model: its virtual functions have no effect on the modelled state"""
        b = self.newblk(st, 'heap', name, None)
        vt = self.newblk(st, 'global', 'vtable of ' + name, None)
        if not hasattr(self, 'opqcode'):
            self.opqcode = self.newblk(st, 'code', '@opaque', 1)
            self.codename[self.opqcode] = '@opaque'
        blk = st.mem[vt]
        c = self.opqcode
        blk.arrs['pb'] = Arr('lam', lambda k: c, 'pb')
        blk.arrs['po'] = Arr('lam', lambda k: 0, 'po')
        self.store(st, Ptr(b, 0), 'ptr', Ptr(vt, 0))
        return Ptr(b, 0)

    # ------------------------------------------------------------ calls
    def call(self, st, fr, i, ctl):
        c = i['callee']
        args = None
        if c[0] == 'g':
            name = c[1]
        elif c[0] == 'asm':
            raise Undecided('inline asm')
        else:
            p = self.val(st, c)
            rs = self.resolve(st, p)
            if len(rs) != 1:
                raise Undecided('indirect call with several targets')
            st2, b = rs[0]
            if st2 is not st:
                st.pc = st2.pc
                st.pcids = st2.pcids
            if b not in self.codename:
                if b == 0:
                    self.oblige(st, 'no call through a null pointer', False, 'safety')
                    raise PathEnd()
                raise Undecided('indirect call to unknown target')
            name = self.codename[b]
        if name.startswith('llvm.'):
            return self.intrinsic(st, fr, i, name, ctl)
        if name == '@opaque':
            return self.outcomes(st, fr, i, None, ctl)
        args = [self.val(st, a) for a in i['args']]
        if 'byval' in i:
            for k, n in enumerate(i['byval']):
                if n:
                    b = self.newblk(st, 'alloca', 'byval', n)
                    fr.allocas.append(b)
                    self.memcopy(st, Ptr(b, 0), args[k], n)
                    args[k] = Ptr(b, 0)
        return self.docall(st, fr, i, name, args, ctl)

    def docall(self, st, fr, i, name, args, ctl):
        fn = self.P.getfn(fr.fn.tu, name)
        dem = fn.dem if fn is not None else self.P.decl.get(name, {}).get('dem', name)
        con = self.contracts.get(dem)
        if con is not None and con.has_call() and not (self.curcontract is not None and self.curcontract.inline_callee(dem)):
            self.used_contracts.add(con.dem)
            return self.outcomes(st, fr, i, con.call(self, st, args), ctl)
        for rx, h in self.stubs:
            if rx.match(dem):
                self.stubbed.add(dem)
                r = h(self, st, args, i, dem)
                if r is not INLINE:
                    return self.outcomes(st, fr, i, r, ctl)
                self.stubbed.discard(dem)
                break
        bi = BUILTIN.get(name)
        if bi is not None:
            self.stubbed.add(dem)
            return self.outcomes(st, fr, i, bi(self, st, args, i, dem), ctl)
        if fn is None:
            raise Undecided('call of %s, which has neither a body nor a contract (at %s)' % (dem, self.where(st)))
        if len(st.frames) > 60:
            raise Undecided('inlining depth')
        if sum(1 for f in st.frames if f.fn is fn) > 0:
            raise Undecided('recursion through %s without a contract' % dem)
        self.inlined.add(dem)
        self.enter(st, fn, args, i)
        return None

    def outcomes(self, st, fr, i, r, ctl):
        """r: value | list of ('ret', state, value) / ('throw', state, typeinfo)"""
        if not isinstance(r, list):
            r = [('ret', st, r)]
        out = []
        for o in r:
            s = o[1]
            if s.dead:
                continue
            if o[0] == 'ret':
                f = s.frames[-1]
                if 'id' in i:
                    v = o[2]
                    if v is None:
                        v = self.freshval(i['ty'], 'r')
                    f.env[i['id']] = v
                if i.get('nr'):
                    self.oblige(s, 'a call that does not return is not reached', False, 'pre')
                    continue
                q = self.aftercall(s, i, ctl)
                if q is None:
                    out.append(s)
                else:
                    out.extend(q)
            else:
                q = self.throw(s, (o[2], o[3] if len(o) > 3 else Ptr(self.newblk(s, 'heap', 'exc'), 0)), ctl)
                if q is None:
                    out.append(s)
                else:
                    out.extend(q)
        return out

    def intrinsic(self, st, fr, i, name, ctl):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            d, s, n = [self.val(st, a) for a in i['args'][:3]]
            return self.outcomes(st, fr, i, self.b_memcpy(st, d, s, n), ctl)
        if name.startswith('llvm.memset'):
            d, v, n = [self.val(st, a) for a in i['args'][:3]]
            return self.outcomes(st, fr, i, self.b_memset(st, d, v, n), ctl)
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.assume') \
                or name.startswith('llvm.experimental.noalias') or name.startswith('llvm.stack') or name == 'llvm.donothing' or name.startswith('llvm.va_') or name.startswith('llvm.prefetch'):
            v = None
            if 'id' in i:
                v = self.freshval(i['ty'], 'intr')
            self.seti(fr, i, v)
            fr.ip += 1
            return None
        a = [self.val(st, x) for x in i['args']]
        ty = i['aty'][0] if i['aty'] else None
        w = ibits(ty) if ty else None
        if name.startswith('llvm.umul.with.overflow'):
            p = mul(a[0], a[1])
            self.seti(fr, i, Agg([self.canon(st, p, w), ge(p, 1 << w)]))
        elif name.startswith('llvm.uadd.with.overflow'):
            p = add(a[0], a[1])
            self.seti(fr, i, Agg([self.canon(st, p, w), ge(p, 1 << w)]))
        elif name.startswith('llvm.eh.typeid.for'):
            g = i['args'][0]
            self.seti(fr, i, self.typeid(g[1] if g[0] == 'g' else '...'))
        elif name.startswith('llvm.umin'):
            self.seti(fr, i, ite(le(a[0], a[1]), a[0], a[1]))
        elif name.startswith('llvm.umax'):
            self.seti(fr, i, ite(ge(a[0], a[1]), a[0], a[1]))
        elif name.startswith('llvm.smin'):
            self.seti(fr, i, ite(le(self.sgn(st, a[0], w), self.sgn(st, a[1], w)), a[0], a[1]))
        elif name.startswith('llvm.smax'):
            self.seti(fr, i, ite(ge(self.sgn(st, a[0], w), self.sgn(st, a[1], w)), a[0], a[1]))
        elif name.startswith('llvm.abs'):
            x = self.sgn(st, a[0], w)
            self.seti(fr, i, self.canon(st, ite(ge(x, 0), x, mulc(x, -1)), w))
        elif name.startswith('llvm.expect'):
            self.seti(fr, i, a[0])
        elif name.startswith('llvm.trap'):
            self.oblige(st, 'the end of a function that returns a value is not reached without one', False, 'pre')
            return []
        elif name.startswith('llvm.bswap'):
            x = a[0]
            n = w // 8
            r = 0
            for k in range(n):
                r = add(r, mulc(mod(div(x, 256 ** k), 256), 256 ** (n - 1 - k)))
            self.seti(fr, i, r)
        elif name.startswith('llvm.fabs'):
            self.seti(fr, i, mod(a[0], 1 << (w - 1)))
        elif name.startswith('llvm.is.constant'):
            self.seti(fr, i, False)
        elif name.startswith('llvm.threadlocal'):
            self.seti(fr, i, a[0])
        else:
            raise Undecided('intrinsic ' + name)
        fr.ip += 1
        return None

    def _blocks2(self, st, d, s):
        for s1, bd in self.resolve(st, d):
            for s2, bs in self.resolve(s1, s):
                yield s2, bd, bs

    def b_memcpy(self, st, d, s, n):
        out = []
        if isinstance(n, int) and n == 0:
            return [('ret', st, d)]
        z = self.decide(st, eq(n, 0))
        if z is True:
            return [('ret', st, d)]
        if z is None:
            s0 = st.copy()
            s0.assume(eq(n, 0))
            out.append(('ret', s0, d))
            st = st.copy()
            st.assume(gt(n, 0))
        for s2, bd, bs in list(self._blocks2(st, d, s)):
            try:
                self.checkaccess(s2, bd, d.o, n, 'memcpy write')
                self.checkaccess(s2, bs, s.o, n, 'memcpy read')
                self.memcopy(s2, Ptr(bd, d.o), Ptr(bs, s.o), n)
                out.append(('ret', s2, d))
            except PathEnd:
                pass
        return out

    def b_memset(self, st, d, v, n):
        out = []
        if isinstance(n, int) and n == 0:
            return [('ret', st, d)]
        z = self.decide(st, eq(n, 0))
        if z is True:
            return [('ret', st, d)]
        if z is None:
            s0 = st.copy()
            s0.assume(eq(n, 0))
            out.append(('ret', s0, d))
            st = st.copy()
            st.assume(gt(n, 0))
        for s1, bd in self.resolve(st, d):
            try:
                self.checkaccess(s1, bd, d.o, n, 'memset')
                self.memfill(s1, Ptr(bd, d.o), v, n)
                out.append(('ret', s1, d))
            except PathEnd:
                pass
        return out

    # ------------------------------------------------------------ loops
    def cutloop(self, st, h, vals, ctl, nphi):
        """loop head reached from outside: infer an invariant, continue from the havocked head"""
        fr = st.frames[-1]
        fn = fr.fn
        body = fn.loops[h]
        depth = len(st.frames)
        entry = st.copy()
        phis = vals
        # phi nodes whose object is assumed to stay the entry one (checked below)
        sameblk = {p['id']: True for p, v in phis if isinstance(v, Ptr)}
        writes = {}
        modes = {}      # pointer cells written by the loop: 'same' (object stays the entry one), 'mov' (owned buffer), 'any'
        bounds = []
        # what an earlier round of the enclosing loop found out about this loop: the assumptions only weaken from round to round,
        # so what was written or dropped then is havocked or dropped now (both are always sound)
        node = {'drop': set(), 'kids': {}, 'w': None}
        if self.reuse:
            par = st.ghost.get('lnode') or self.rootnode
            key = (tuple((id(f.fn), f.bi) for f in st.frames), h, fr.prev)
            if key in par['kids']:
                node = par['kids'][key]
                self.reused += 1
            else:
                par['kids'][key] = node
        if node['w']:
            same0, writes0, modes0 = node['w']
            sameblk = {k: True for k in sameblk if k in same0}
            writes = {k: set(x) for k, x in writes0.items() if k[0] in entry.mem and entry.mem[k[0]].live}
            modes = dict(modes0)
        dnode = {'drop': set(), 'kids': {}, 'w': None}
        self.mute += 1
        try:
            # discovery of the write set
            for rnd in range(8):
                hs, lv = self.havochead(entry, h, phis, sameblk, writes, nphi, modes)
                mark = self.headmark
                log = {}
                self.wlog.append(log)
                cmps = []
                self.cmplog.append(cmps)
                backs = []
                c2 = LoopCtl(ctl, depth, h, body, id(fn), backs)
                hs.frames[-1].cuts[h] = 'discover'
                hs.ghost['lnode'] = dnode
                preexist = set(entry.mem)
                try:
                    self.explore(hs, c2)
                finally:
                    self.wlog.pop()
                    self.cmplog.pop()
                changed = False
                for bs, bvals in backs:
                    for (p, v) in bvals:
                        if p['id'] in sameblk:
                            ev = dict((q['id'], x) for q, x in phis)[p['id']]
                            if not (v.b is ev.b or isinstance(v.b, int) and isinstance(ev.b, int) and v.b == ev.b):
                                del sameblk[p['id']]
                                changed = True
                for (b, ix), md in list(modes.items()):
                    if md not in ('fix', 'same'):
                        continue
                    eb, eo = self.objof(entry, a_read(entry.mem[b].arr('pb'), ix)), a_read(entry.mem[b].arr('po'), ix)
                    for bs, bvals in backs:
                        x = self.objof(bs, a_read(bs.mem[b].arr('pb'), ix))
                        if md == 'fix' and a_read(bs.mem[b].arr('po'), ix) is not eo and a_read(bs.mem[b].arr('po'), ix) != eo:
                            modes[(b, ix)] = md = 'same'
                            changed = True
                        if not (isinstance(x, int) and x == eb):
                            modes[(b, ix)] = 'mov' if isinstance(eo, int) and eo == 0 and entry.mem[eb].kind == 'heap' else 'any'
                            changed = True
                            break
                for (b, w), idxs in log.items():
                    if b not in preexist or not entry.mem[b].live:
                        continue
                    cur = writes.setdefault((b, w), set())
                    # indices that depend on the havocked variables count as unknown
                    for x in idxs:
                        if x not in cur:
                            cur.add(x)
                            changed = True
                if not changed:
                    break
            else:
                raise Undecided('loop write set does not stabilise')
            # candidates
            self._mark = mark
            cands = self.candidates(entry, fn, h, phis, sameblk, writes, cmps, lv, hs)
            node['w'] = (set(sameblk), {k: set(x) for k, x in writes.items()}, dict(modes))
            if node['drop']:
                cands = [c for c in cands if c[0] not in node['drop']]
            # entry check
            keep = []
            ev = self.lvof(entry, phis, lv)
            for nm, f in cands:
                g = f(ev, entry)
                if g is True or (g is not False and (self.prove_now(entry, g, 2000) or nm in self.contractinv and prove(entry.pc, g, 5000, light=True)[0] == "proved")):
                    keep.append((nm, f))
                elif TRACEINV and (self.mute == 1):
                    print('  inv not initial:', nm, file=sys.stderr)
            kept = set(nm for nm, f in keep)
            node['drop'] |= set(nm for nm, f in cands if nm not in kept)
            cands = keep
            rounds = 0
            while True:
                rounds += 1
                hs, lv2 = self.havochead(entry, h, phis, sameblk, writes, nphi, modes)
                hv = self.lvof(hs, [(p, hs.frames[-1].env[p['id']]) for p, v in phis], lv)
                for nm, f in cands:
                    hs.assume(f(hv, hs))
                hs.frames[-1].cuts[h] = 'houdini'
                hs.ghost['lnode'] = node
                backs = []
                c2 = LoopCtl(ctl, depth, h, body, id(fn), backs)
                self.explore(hs, c2)
                bad = set()
                for bs, bvals in backs:
                    bv = self.lvof(bs, bvals, lv)
                    todo = [(n, nm, f(bv, bs)) for n, (nm, f) in enumerate(cands) if n not in bad]
                    todo = [x for x in todo if x[2] is not True]
                    # try all at once first
                    if todo and not self.prove_now(bs, AND(*[x[2] for x in todo]), 3000):
                        for n in self.falsified(bs, todo):
                            bad.add(n)
                        for n, nm, g in todo:
                            if n in bad:
                                continue
                            if g is False or not self.prove_now(bs, g, 2000) and not (nm in self.contractinv and prove(bs.pc, g, 5000, light=True)[0] == 'proved'):
                                bad.add(n)
                                if TRACEINV and self.mute == 1:
                                    print('  round %d: inv dropped: %s' % (rounds, nm), file=sys.stderr)
                if not bad:
                    break
                left = [c for n, c in enumerate(cands) if n not in bad]
                kept = set(nm for nm, f in left)
                node['drop'] |= set(nm for nm, f in cands if nm not in kept)
                cands = left
                if rounds > 40:
                    raise Undecided('invariant inference does not converge')
        finally:
            self.mute -= 1
        # final run: the invariant holds initially and is preserved (re-proved as obligations)
        for nm, f in cands:
            g = f(ev, entry)
            if not self.mute:
                self.obls.append(Obl('loop invariant holds initially: ' + nm, list(entry.pc), g, self.where(entry), None, 'loop'))
        hs, _ = self.havochead(entry, h, phis, sameblk, writes, nphi, modes)
        hv = self.lvof(hs, [(p, hs.frames[-1].env[p['id']]) for p, v in phis], lv)
        for nm, f in cands:
            hs.assume(f(hv, hs))
        self.houdini_stats.append((fn.dem, h, len(cands), rounds))
        if not self.mute and prove(hs.pc, False, 1000, light=True)[0] == 'proved' and prove(entry.pc, False, 1000, light=True)[0] != 'proved':
            raise Undecided('the inferred loop invariant is contradictory')
        hs.frames[-1].cuts[h] = ('inv', cands, lv)
        hs.ghost['lnode'] = node
        return [hs]

    CHEAP = ('lock step', )

    def falsified(self, st, todo):
        """arithmetic candidates that a model of the quantifier-free facts refutes (dropping a candidate is always sound)"""
        live = [(n, g) for n, nm, g in todo if g is not False and (nm.startswith('lock step') or ' advances in steps' in nm or nm.endswith('= entry') or nm.endswith('=s entry')) and not self.quant(g)]
        out = [n for n, nm, g in todo if g is False]
        facts = [c for c in st.pc if c.id not in LAZY and not self.quant(c)]
        while live:
            s = mksolver(facts, [NOT(AND(*[g for n, g in live]))], 1500, True)
            if s.check() != z3.sat:
                break
            m = s.model()
            dead = [n for n, g in live if z3.is_false(m.eval(toz(g), model_completion=True))]
            if not dead:
                break
            out += dead
            live = [(n, g) for n, g in live if n not in dead]
        return out

    def havochead(self, entry, h, phis, sameblk, writes, nphi, modes):
        s = entry.copy()
        fr = s.frames[-1]
        lv = []
        for p, v in phis:
            nm = p.get('nm', 'phi')
            if p['id'] in sameblk:
                nv = Ptr(v.b, fresh(nm + '.o'))
            else:
                nv = self.freshval(p['ty'], nm)
            fr.env[p['id']] = nv
        mem = []
        for (b, w), idxs in sorted(writes.items(), key=str):
            if b not in s.mem:
                continue
            blk = s.mem[b].copy()
            s.mem[b] = blk
            if None in idxs:
                for ww in (('pb', 'po') if w == 'ptr' else (w,)):
                    blk.arrs[ww] = a_havoc(blk.arr(ww), freshname('%s.%s' % (blk.name, ww)))
                blk.last = {k: x for k, x in blk.last.items() if x[0] == w}
                mem.append(('arr', b, w, None))
            else:
                for ix in sorted(idxs):
                    sz = 8 if w == 'ptr' else w // 8
                    if any(x is not None and x != (w, ix * sz) for x in (blk.last.get(q) for q in range(ix * sz, ix * sz + sz))):
                        # seen at another width before the loop: nothing is known about these bytes at the head
                        for ww in (8, 16, 32, 64, 'ptr'):
                            s2 = 8 if ww == 'ptr' else ww // 8
                            for c in range(ix * sz // s2, (ix * sz + sz - 1) // s2 + 1):
                                if ww == 'ptr':
                                    blk.arrs['pb'] = a_store(blk.arr('pb'), c, fresh('mb', 0))
                                    blk.arrs['po'] = a_store(blk.arr('po'), c, fresh('mo'))
                                else:
                                    blk.arrs[ww] = a_store(blk.arr(ww), c, fresh('m%s' % ww, 0, (1 << ww) - 1))
                        for q in range(ix * sz, ix * sz + sz):
                            blk.last.pop(q, None)
                        continue
                    if w == 'ptr':
                        ov = Ptr(self.objof(s, a_read(blk.arr('pb'), ix)), a_read(blk.arr('po'), ix))
                        if isinstance(ov.b, int) and ov.b in s.mem and s.mem[ov.b].live:
                            md = modes.setdefault((b, ix), 'fix' if isinstance(ov.o, int) else 'same')
                        else:
                            md = 'any'
                        if md == 'fix':
                            blk.arrs['pb'] = a_store(blk.arr('pb'), ix, ov.b)
                            blk.arrs['po'] = a_store(blk.arr('po'), ix, ov.o)
                            mem.append(('fix', b, w, (ix, ov)))
                            continue
                        if md == 'same':
                            blk.arrs['pb'] = a_store(blk.arr('pb'), ix, ov.b)
                            blk.arrs['po'] = a_store(blk.arr('po'), ix, fresh('mo'))
                            mem.append(('same', b, w, (ix, ov.b)))
                            continue
                        if md == 'mov':
                            # a buffer that the loop may move: at the head the cell owns some live block L; the entry block is given up
                            L = self.newblk(s, 'heap', s.mem[ov.b].name.split('#')[0] + '.moved', fresh('sz', 0))
                            eb = s.mem[ov.b].copy()
                            eb.live = False
                            s.mem[ov.b] = eb
                            blk.arrs['pb'] = a_store(blk.arr('pb'), ix, L)
                            blk.arrs['po'] = a_store(blk.arr('po'), ix, 0)
                            mem.append(('mov', b, w, ix))
                            continue
                        blk.arrs['pb'] = a_store(blk.arr('pb'), ix, fresh('mb', 0))
                        blk.arrs['po'] = a_store(blk.arr('po'), ix, fresh('mo'))
                    else:
                        blk.arrs[w] = a_store(blk.arr(w), ix, fresh('m%s' % w, 0, (1 << w) - 1))
                    mem.append(('cell', b, w, ix))
        fr.prev = fr.bi
        fr.bi = h
        fr.ip = nphi
        self.headmark = nodecount()
        return s, mem

    def objof(self, st, x):
        """the one object a conditional block can be on this path, if there is one"""
        while isinstance(x, Node) and x.op == 'ite':
            d = self.decide(st, x.args[0])
            if d is None:
                return x
            x = x.args[1] if d else x.args[2]
        return x

    def lvof(self, st, vals, mem):
        """values of the loop variables in a state at the loop head"""
        d = {}
        for p, v in vals:
            d[('phi', p['id'])] = v
        owned = set()
        for k, b, w, ix in mem:
            if k == 'mov':
                x = a_read(st.mem[b].arr('pb'), ix)
                xo = a_read(st.mem[b].arr('po'), ix)
                if not (isinstance(x, int) and x in st.mem and st.mem[x].live and isinstance(xo, int) and xo == 0) or x in owned:
                    raise Undecided('a buffer moved by the loop is not a single live object')
                if any(isinstance(v, Ptr) and isinstance(v.b, int) and v.b == x for p, v in vals):
                    raise Undecided('a loop variable points into a buffer moved by the loop')
                owned.add(x)
            if k == 'fix':
                ix, ev = ix
                x, xo = self.objof(st, a_read(st.mem[b].arr('pb'), ix)), a_read(st.mem[b].arr('po'), ix)
                if not (isinstance(x, int) and x == ev.b and isinstance(xo, int) and xo == ev.o):
                    raise Undecided('a pointer cell changes in the loop')
            if k == 'same':
                ix, eb = ix
                x = self.objof(st, a_read(st.mem[b].arr('pb'), ix))
                if not (isinstance(x, int) and x == eb):
                    raise Undecided('a pointer cell changes its object in the loop')
                d[('cell', b, w, ix)] = Ptr(x, a_read(st.mem[b].arr('po'), ix))
            if k == 'cell':
                blk = st.mem[b]
                if w == 'ptr':
                    d[('cell', b, w, ix)] = Ptr(a_read(blk.arr('pb'), ix), a_read(blk.arr('po'), ix))
                else:
                    d[('cell', b, w, ix)] = a_read(blk.arr(w), ix)
        return d

    def candidates(self, entry, fn, h, phis, sameblk, writes, cmps, lv, hs):
        out = []
        ev = self.lvof(entry, phis, lv)
        hv = self.lvof(hs, [(p, hs.frames[-1].env[p['id']]) for p, v in phis], lv)
        names = {('phi', p['id']): p.get('nm', 'phi%d' % p['id']) for p, v in phis}
        tys = {('phi', p['id']): p['ty'] for p, v in phis}
        ints = {}
        ptrs = {}
        for k, v in ev.items():
            nm = names.get(k) or '%s+%s' % (entry.mem[k[1]].name, k[3])
            if k[0] != 'phi' and nm.startswith(('ref.tmp', 'agg.tmp')):
                continue            # temporaries of one statement: dead at the loop head
            if isinstance(v, Ptr):
                ptrs[k] = nm
            elif k[0] == 'phi':
                w = ibits(tys[k]) if not isinstance(tys[k], dict) else None
                if w and w > 1 and not isinstance(v, Agg):
                    ints[k] = (nm, w)
            else:
                ints[k] = (nm, k[2])
        # invariant terms compared in the loop
        loopvars = set(x.id for x in atoms([t for v in hv.values() for t in ([v.b, v.o] if isinstance(v, Ptr) else [v] if isinstance(v, Node) else [])]).values()) \
            - set(x.id for x in atoms([t for v in ev.values() for t in ([v.b, v.o] if isinstance(v, Ptr) else [v] if isinstance(v, Node) else [])]).values())
        ent_atoms = None
        bterms = {}
        newnames = set()
        for v in hv.values():
            pass

        def invariant(t):
            if isinstance(t, int):
                return True
            return not any(x in loopvars for x in atoms([t])) and not any(self._fresher(x, hs) for x in atoms([t]).values())
        pt = {}
        def loopy(t):
            return any(not invariant(q) for q in ((t.b, t.o) if isinstance(t, Ptr) else (t,)))
        for a, b, ty in cmps:
            for x, y in ((a, b), (b, a)):
                if not loopy(y):
                    continue
                if isinstance(x, Ptr):
                    if invariant(x.b) and invariant(x.o) and isinstance(x.b, int) and x.b:
                        pt.setdefault((x.b, x.o if isinstance(x.o, int) else x.o.id), x)
                elif isinstance(x, (int, Node)) and not isinstance(x, bool) and not (isinstance(x, Node) and x.isb):
                    if invariant(x):
                        w = ibits(ty) if not isinstance(ty, dict) else None
                        if w and w > 1:
                            bterms.setdefault((w, x if isinstance(x, int) else ('t', x.id)), x)
        G = lambda k: (lambda v: v[k])
        S = self.sgn
        strides = tuple(getattr(self.curcontract, 'strides', ()))      # element sizes of the contract's objects
        xpairs = tuple((1, z) for z in strides) + tuple((z, 1) for z in strides)
        for k, (nm, w) in ints.items():
            e = ev[k]
            out.append(('%s >= entry' % nm, lambda v, s, k=k, e=e: le(e, v[k])))
            out.append(('%s <= entry' % nm, lambda v, s, k=k, e=e: le(v[k], e)))
            half = (1 << (w - 1)) - 1
            out.append(('%s non-negative' % nm, lambda v, s, k=k, half=half: le(v[k], half)))
            out.append(('%s >=s entry' % nm, lambda v, s, k=k, e=e, w=w: le(S(None, e, w), S(None, v[k], w))))
            out.append(('%s <=s entry' % nm, lambda v, s, k=k, e=e, w=w: le(S(None, v[k], w), S(None, e, w))))
            for (bw, _), t in list(bterms.items())[:12]:
                if bw < w and not isinstance(t, int):
                    pass
                for d in (0, 1):
                    out.append(('%s <= %s%+d' % (nm, show(t, 2), d), lambda v, s, k=k, t=t, d=d: le(v[k], add(t, d))))
                    out.append(('%s >= %s%+d' % (nm, show(t, 2), -d), lambda v, s, k=k, t=t, d=d: le(sub(t, d), v[k])))
                    out.append(('%s <=s %s%+d' % (nm, show(t, 2), d), lambda v, s, k=k, t=t, d=d, w=w, bw=bw: le(S(None, v[k], w), add(S(None, t, bw), d))))
                    out.append(('%s >=s %s%+d' % (nm, show(t, 2), -d), lambda v, s, k=k, t=t, d=d, w=w, bw=bw: le(sub(S(None, t, bw), d), S(None, v[k], w))))
        moved = {}
        for kk, b, w, ix in lv:
            if kk == 'mov':
                x = a_read(entry.mem[b].arr('pb'), ix)
                if isinstance(x, int):
                    moved[x] = (b, ix)
        for k, nm in ptrs.items():
            e = ev[k]
            if not isinstance(hv[k].b, int):
                mv = moved.get(e.b) if isinstance(e.b, int) else next((m for x, m in moved.items() if self.prove_now(entry, eq(e.b, x), 1000)), None)
                if mv:
                    out.append(('%s points into the moved buffer' % nm, lambda v, s, k=k, mv=mv: eq(v[k].b, a_read(s.mem[mv[0]].arr('pb'), mv[1]))))
                else:
                    out.append(('%s same object' % nm, lambda v, s, k=k, e=e: eq(v[k].b, e.b)))
            out.append(('%s >= entry' % nm, lambda v, s, k=k, e=e: le(e.o, v[k].o)))
            out.append(('%s <= entry' % nm, lambda v, s, k=k, e=e: le(v[k].o, e.o)))
            for sz in (8, 4, 2, 24) + strides:
                out.append(('%s advances in steps of %d' % (nm, sz), lambda v, s, k=k, e=e, sz=sz: eq(mod(sub(v[k].o, e.o), sz), 0)))
            for x in list(pt.values())[:8]:
                if isinstance(e.b, int) and e.b == x.b:
                    out.append(('%s <= bound' % nm, lambda v, s, k=k, x=x: le(v[k].o, x.o)))
                    out.append(('%s >= bound' % nm, lambda v, s, k=k, x=x: le(x.o, v[k].o)))
        # lock step pairs
        items = [(k, (lambda v, k=k: v[k]), nm, 1) for k, (nm, w) in ints.items()] + \
                [(k, (lambda v, k=k: v[k].o), nm, 0) for k, nm in ptrs.items()]
        for a in range(len(items)):
            for b in range(a + 1, len(items)):
                ka, fa, na, ia = items[a]
                kb, fb, nb_, ib = items[b]
                ea, eb = fa(ev), fb(ev)
                for ca, cb in ((1, 1), (1, 2), (2, 1), (1, 4), (4, 1), (1, 8), (8, 1), (1, 16), (16, 1), (4, 2), (2, 4), (24, 1), (1, 24)) + xpairs:
                    if ia and ib and (ca, cb) != (1, 1):
                        continue
                    for sg in (1, -1):
                        out.append(('lock step %d*%s %s %d*%s' % (cb, na, '-' if sg > 0 else '+', ca, nb_),
                                    lambda v, s, fa=fa, fb=fb, ea=ea, eb=eb, ca=ca, cb=cb, sg=sg:
                                    eq(mulc(sub(fa(v), ea), cb), mulc(sub(fb(v), eb), ca * sg))))
        c = self.curcontract
        if c is not None:
            lc = LoopCtx(self, entry, fn, h, ev, hv, ints, ptrs, writes)
            extra = c.inv(self, lc)
            self.contractinv.update(nm for nm, f in extra)
            out.extend(extra)
        return out

    def _fresher(self, x, hs):
        # variables created after the havoc of the loop head are loop-local
        return x.op == 'var' and x.id > self._mark


class LoopCtx:
    """what a contract's invariant templates may mention: the loop variables by type, and the entry state"""

    def __init__(self, ex, entry, fn, h, ev, hv, ints, ptrs, writes):
        self.ex, self.entry, self.fn, self.h = ex, entry, fn, h
        self.ev, self.hv, self.ints, self.ptrs, self.writes = ev, hv, ints, ptrs, writes


class Ctl:
    loop = None
    base = None

    def __init__(self, ex, contract, on_ret, on_throw):
        self.ex = ex
        self.c = contract
        self.ret = on_ret
        self.throw = on_throw

    def leave(self, st, target):
        return False

    def back(self, st, target, vals, cut):
        ex = self.ex
        if not isinstance(cut, tuple):
            raise Undecided('back edge of an unfinished loop')
        _, cands, lv = cut
        bv = ex.lvof(st, vals, lv)
        for nm, f in cands:
            g = f(bv, st)
            if not ex.mute:
                ex.obls.append(Obl('loop invariant preserved: ' + nm, list(st.pc), g, ex.where(st), None, 'loop'))


class LoopCtl(Ctl):
    def __init__(self, outer, depth, h, body, fnid, backs):
        self.outer = outer
        self.ex = outer.ex
        self.loop = (depth, h, body, fnid)
        self.base = depth
        self.backs = backs

    def ret(self, st, v):
        pass

    def throw(self, st, exc):
        pass

    def leave(self, st, target):
        return True

    def back(self, st, target, vals, cut):
        if len(st.frames) == self.loop[0] and target == self.loop[1] and isinstance(cut, str):
            self.backs.append((st, vals))
            return
        Ctl.back(self, st, target, vals, cut)


INLINE = object()


def _new(ex, st, args, i, dem):
    n = ex.toint(args[0])
    st.assume(le(n, 1 << 47))     # a successful allocation lies within the address space
    b = ex.newblk(st, 'heap', 'new', n)
    return Ptr(b, 0)


def _delete(ex, st, args, i, dem):
    p = args[0]
    out = []
    for s, b in ex.resolve(st, p):
        if b != 0:
            blk = s.mem.get(b)
            if blk is None:
                raise Undecided('delete of unknown object')
            if not blk.live:
                ex.oblige(s, 'no double free', False, 'safety')
                continue
            nb = blk.copy()
            nb.live = False
            s.mem[b] = nb
        out.append(('ret', s, None))
    return out


def _cxa_alloc(ex, st, args, i, dem):
    return Ptr(ex.newblk(st, 'heap', 'exception', None), 0)


def _cxa_throw(ex, st, args, i, dem):
    fr = st.frames[-1]
    t = i['args'][1]
    return [('throw', st, t[1] if t[0] == 'g' else None, args[0])]


def _noop(ex, st, args, i, dem):
    return None


def _rethrow(ex, st, args, i, dem):
    e = st.ghost.get('caught') or (None, NULL)
    return [('throw', st, e[0], e[1])]


def _begin_catch(ex, st, args, i, dem):
    st.ghost['caught'] = st.exc
    return args[0]


def _abort(ex, st, args, i, dem):
    ex.oblige(st, 'the program is not aborted', False, 'pre')
    return []


BUILTIN = {
    '_Znwm': _new, '_Znam': _new, '_ZdlPv': _delete, '_ZdaPv': _delete, '_ZdlPvm': _delete, '_ZdaPvm': _delete,
    '__cxa_allocate_exception': _cxa_alloc, '__cxa_throw': _cxa_throw, '__cxa_free_exception': _noop,
    '__cxa_begin_catch': _begin_catch, '__cxa_end_catch': _noop, '__cxa_rethrow': _rethrow, '_ZSt9terminatev': _abort,
    '__clang_call_terminate': _abort, 'abort': _abort,
    'memcpy': lambda ex, st, a, i, d: ex.b_memcpy(st, a[0], a[1], a[2]),
    'memmove': lambda ex, st, a, i, d: ex.b_memcpy(st, a[0], a[1], a[2]),
    'memset': lambda ex, st, a, i, d: ex.b_memset(st, a[0], ex.cast(st, 'trunc', a[1], 'i32', 'i8'), a[2]),
}
