"""Symbolic executor / verification-condition generator over LLVM IR.

double/float are mathematical reals (machine rounding is NOT modelled), integers are bit-vectors of their width,
memory is a set of disjoint objects with byte offsets.  Every path of a contract harness is executed; each
`__lcv_assert` (and each implicit definedness condition) becomes one proof obligation  path-condition => condition.
"""
import sys, re, math, time
from fractions import Fraction
import z3
from llvmir import Module

sys.setrecursionlimit(20000)
F0, F1 = Fraction(0), Fraction(1)
CTX = z3.main_ctx()


class Unsupported(Exception):
    pass


class Kill(Exception):
    """path ends silently (assume false / unreachable reported elsewhere)"""


class TooMany(Exception):
    pass


class Fork(Exception):
    """re-execute the current instruction in several refined copies: list of (cond or None, fn(state))"""

    def __init__(self, alts):
        self.alts = alts


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(s, r, o):
        s.r = r
        s.o = o

    def __eq__(s, t):
        return isinstance(t, Ptr) and s.r == t.r and type(s.o) == type(t.o) == int and s.o == t.o

    def __hash__(s):
        return hash((s.r, s.o if isinstance(s.o, int) else 0))

    def __repr__(s):
        return f"Ptr({s.r},{s.o})"


class FPtr:
    __slots__ = ('name',)

    def __init__(s, n):
        s.name = n

    def __eq__(s, t):
        return isinstance(t, FPtr) and s.name == t.name

    def __hash__(s):
        return hash(s.name)

    def __repr__(s):
        return f"&{s.name}"


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(s, c, a, b):
        s.c = c; s.a = a; s.b = b


class PInt:
    """ptrtoint of a pointer (+ constant folded into the pointer offset)"""
    __slots__ = ('p',)

    def __init__(s, p):
        s.p = p


class Bits:
    """raw bits of a real value of given byte size"""
    __slots__ = ('v',)

    def __init__(s, v):
        s.v = v


class Undef:
    __slots__ = ()

    def __repr__(s):
        return "undef"


UNDEF = Undef()
NULL = Ptr(0, 0)


class Special:
    """+-inf / nan"""
    __slots__ = ('k',)

    def __init__(s, k):
        s.k = k

    def __repr__(s):
        return s.k


PINF, NINF, NAN = Special('+inf'), Special('-inf'), Special('nan')


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def fpconst(d):
    if d != d:
        return NAN
    if d == math.inf:
        return PINF
    if d == -math.inf:
        return NINF
    return Fraction(d)


_rv = {}


def R(v):
    """to z3 real"""
    if isinstance(v, Fraction):
        r = _rv.get(v)
        if r is None:
            r = z3.RealVal(str(v))
            _rv[v] = r
        return r
    if isinstance(v, z3.ExprRef):
        return v
    if isinstance(v, int):
        return z3.RealVal(v)
    raise Unsupported("real expected, got %r" % (v,))


def BV(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        if w == 1:
            return z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def B(v):
    """to z3 bool"""
    if isinstance(v, int):
        return z3.BoolVal(bool(v))
    if z3.is_bool(v):
        return v
    if isinstance(v, z3.BitVecRef):
        b = boolish(v)
        if b is not None:
            return z3.BoolVal(bool(b)) if isinstance(b, int) else b
        return z3.simplify(v == z3.BitVecVal(1, v.size()))
    raise Unsupported("bool expected %r" % (v,))


_bm = {}


def boolish(e):
    """the Boolean (0/1 or z3) behind a 0/1-valued bit-vector, or None"""
    if isinstance(e, int):
        return e if e in (0, 1) else None
    if isinstance(e, bool) or not isinstance(e, z3.BitVecRef):
        return e if isinstance(e, z3.BoolRef) else None
    i = e.get_id()
    if i in _bm:
        return _bm[i][0]
    r = None
    k = e.decl().kind()
    if z3.is_bv_value(e):
        v = e.as_long()
        r = v if v in (0, 1) else None
    elif k == z3.Z3_OP_ITE:
        a, b = boolish(e.arg(1)), boolish(e.arg(2))
        if a is not None and b is not None:
            c = e.arg(0)
            if isinstance(a, int) and isinstance(b, int):
                r = a if a == b else (c if a else b_not(c))
            elif isinstance(a, int):
                r = b_or(c, b) if a else b_and(b_not(c), b)
            elif isinstance(b, int):
                r = b_or(b_not(c), a) if b else b_and(c, a)
            else:
                r = z3.If(c, a, b)
    elif k == z3.Z3_OP_ZERO_EXT or (k == z3.Z3_OP_CONCAT and e.num_args() == 2 and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0):
        r = boolish(e.arg(e.num_args() - 1))
    elif k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR):
        cs = [boolish(c) for c in e.children()]
        if all(c is not None for c in cs):
            r = cs[0]
            for c in cs[1:]:
                r = b_and(r, c) if k == z3.Z3_OP_BAND else b_or(r, c)
    _bm[i] = (r, e)
    return r


def bv01(b, w):
    return b if isinstance(b, int) else z3.If(b, z3.BitVecVal(1, w), z3.BitVecVal(0, w))


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def b_not(c):
    if isinstance(c, int):
        return 1 - c
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def b_and(a, b):
    if isinstance(a, int):
        return b if a else 0
    if isinstance(b, int):
        return a if b else 0
    return z3.And(a, b)


def b_or(a, b):
    if isinstance(a, int):
        return 1 if a else b
    if isinstance(b, int):
        return 1 if b else a
    return z3.Or(a, b)


class Region:
    __slots__ = ('size', 'cells', 'fill', 'name', 'const', 'freed', 'arr', 'kind', 'tag')

    def __init__(s, size, name, fill=None, kind='heap'):
        s.size = size
        s.cells = {}
        s.fill = fill
        s.name = name
        s.const = False
        s.freed = False
        s.arr = None
        s.kind = kind
        s.tag = None

    def copy(s):
        r = Region(s.size, s.name, s.fill, s.kind)
        r.cells = dict(s.cells)
        r.const = s.const
        r.freed = s.freed
        r.arr = dict(s.arr) if s.arr is not None else None
        r.tag = s.tag
        return r


class Frame:
    __slots__ = ('fn', 'bb', 'ip', 'prev', 'vals', 'retid', 'iters', 'allocas', 'normal', 'onret', 'loopstk')

    def copy(s):
        f = Frame()
        f.fn = s.fn; f.bb = s.bb; f.ip = s.ip; f.prev = s.prev
        f.vals = dict(s.vals)
        f.retid = s.retid
        f.iters = dict(s.iters)
        f.allocas = list(s.allocas)
        f.normal = s.normal
        f.onret = s.onret
        f.loopstk = s.loopstk
        return f


class State:
    __slots__ = ('frames', 'mem', 'owned', 'pc', 'inputs', 'ghost', 'trail', 'steps', 'path', 'defs', 'sticky')

    def copy(s):
        t = State()
        t.frames = [f.copy() for f in s.frames]
        t.mem = dict(s.mem)
        t.owned = set()
        s.owned = set()
        t.pc = list(s.pc)
        t.inputs = list(s.inputs)
        t.ghost = dict(s.ghost)
        t.trail = list(s.trail)
        t.steps = s.steps
        t.path = s.path
        t.defs = s.defs
        t.sticky = False
        return t

    def wr(s, rid):
        r = s.mem[rid]
        if rid not in s.owned:
            r = r.copy()
            s.mem[rid] = r
            s.owned.add(rid)
        return r


class Obligation:
    __slots__ = ('label', 'pc', 'cond', 'inputs', 'path', 'kind', 'iso', 'result', 'backend', 'secs', 'model', 'dup', 'harness')

    def __init__(s, label, pc, cond, inputs, path, kind='assert', iso=False):
        s.label = label; s.pc = pc; s.cond = cond; s.inputs = inputs; s.path = path; s.kind = kind; s.iso = iso
        s.result = None; s.backend = None; s.secs = 0.0; s.model = None; s.harness = None


IGNORE_EXT = re.compile(
    r'^(_ZNSo|_ZStls|_ZNSt8ios_base|_ZSt16__ostream_insert|_ZSt4endl|_ZNKSt8ios_base|_ZNSt9basic_ios|llvm\.lifetime|llvm\.dbg|'
    r'llvm\.assume|llvm\.experimental\.noalias|llvm\.invariant|llvm\.prefetch|llvm\.stack|llvm\.donothing|_ZNSt6localeC|'
    r'_ZNSt6localeD|__cxa_atexit|llvm\.va_|_ZNSt13basic_filebuf|_ZSt29__|putchar|puts|printf|fflush|fwrite|fputc)')


class LoopInfo:
    """hierarchical topological ranks used to schedule and merge states"""

    def __init__(self, fn):
        n = len(fn.blocks)
        succ = [list(dict.fromkeys(b.succs)) for b in fn.blocks]
        # reachable rpo
        seen = [False] * n
        post = []
        st = [(0, iter(succ[0]))]
        seen[0] = True
        while st:
            b, it = st[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    st.append((s, iter(succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        rpo = post[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    a, c = p, new
                    while a != c:
                        while num[a] > num[c]:
                            a = idom[a]
                        while num[c] > num[a]:
                            c = idom[c]
                    new = a
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

        def dom(a, b):
            while b != a and b != 0:
                b = idom[b]
            return a == b
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x not in body:
                            body.add(x)
                            stack.extend(pred[x])
        self.loops = loops
        # innermost-to-outermost loop chain per block
        chain = {}
        for b in rpo:
            ls = [h for h in loops if b in loops[h]]
            ls.sort(key=lambda h: -len(loops[h]))
            chain[b] = ls
        self.chain = chain
        # rank inside each loop level: topological order with inner loops collapsed
        self.rank = {}

        def order(nodes, header, level):
            # nodes: set of blocks in this level (incl. nested)
            rep = {}
            groups = {}
            for b in nodes:
                c = chain[b]
                if len(c) > level and (c[level] != header):
                    rep[b] = c[level]
                else:
                    rep[b] = b
                groups.setdefault(rep[b], []).append(b)
            es = {g: set() for g in groups}
            for b in nodes:
                for s in succ[b]:
                    if s in nodes and rep[s] != rep[b] and s != header:
                        es[rep[b]].add(rep[s])
            vis = {}
            out = []

            def dfs(g):
                stk = [(g, iter(sorted(es[g], key=lambda x: num[x])))]
                vis[g] = 1
                while stk:
                    x, it = stk[-1]
                    for s in it:
                        if s not in vis:
                            vis[s] = 1
                            stk.append((s, iter(sorted(es[s], key=lambda y: num[y]))))
                            break
                    else:
                        out.append(x)
                        stk.pop()
            start = rep[header if header is not None else 0]
            dfs(start)
            for g in groups:
                if g not in vis:
                    dfs(g)
            out.reverse()
            rk = {g: i for i, g in enumerate(out)}
            for b in nodes:
                self.rank[(level, b)] = rk[rep[b]]
            for g, bs in groups.items():
                if g in loops and g != header and len(bs) > 0 and len(chain[bs[0]]) > level and chain[bs[0]][level] == g:
                    order(set(bs), g, level + 1)
        order(set(rpo), None, 0)

    def key(self, frame):
        b = frame.bb
        ch = self.chain.get(b, ())
        out = []
        for lv, h in enumerate(ch):
            out.append(self.rank[(lv, b)])
            out.append(frame.iters.get(h, 0))
        out.append(self.rank.get((len(ch), b), 0))
        return tuple(out)


class Engine:
    def __init__(self, module, opts=None):
        self.m = module
        self.o = dict(merge='auto', auto_steps=1_200_000, auto_paths=3000, prune='fast', prune_ms=60, max_steps=4_000_000, max_paths=20000, div0='auto', cut=0, throw='forbid',
                      unwind=64, loops='unroll', deadline=600)
        if opts:
            self.o.update(opts)
        self.obls = []
        self.covers = {}
        self.nreg = 1
        self.nfresh = 0
        self.gl = {}
        self.replace = {}
        self.nest = set()
        self.funcs_run = {}
        self.stats = dict(paths=0, steps=0, forks=0, merged=0, killed=0, prune_calls=0)
        self.sqrt_cache = {}
        self.lin = None
        self.atom_cache = {}
        self.cut_memo, self.cut_vars, self.cuts, self.cut_pos = {}, {}, {}, {}
        self.rules = {}
        self.abs_cache = {}
        self.now_cache = {}
        self.trig_cache = {}
        self.assumed = set()
        self.loopcap = {}
        self.bounded = {}
        self._dem = {}

    # ---------- helpers
    def fresh_real(self, name):
        self.nfresh += 1
        return z3.Real(f"{name}!{self.nfresh}")

    def fresh_bv(self, name, w):
        self.nfresh += 1
        return z3.BitVec(f"{name}!{self.nfresh}", w)

    def fresh_bool(self, name):
        self.nfresh += 1
        return z3.Bool(f"{name}!{self.nfresh}")

    def new_region(self, st, size, name, fill=None, kind='heap'):
        rid = self.nreg
        self.nreg += 1
        st.mem[rid] = Region(size, name, fill, kind)
        st.owned.add(rid)
        return rid

    def check_sat(self, conds, ms):
        """True/False/None"""
        self.stats['prune_calls'] += 1
        # products of variables are opaque here: this only discards paths, an unknown answer keeps the path
        s = z3.SimpleSolver()
        s.set('timeout', ms)
        s.set('arith.nl', False)
        for c in conds:
            s.add(c)
        r = s.check()
        if r == z3.unsat:
            return False
        if r == z3.sat:
            return True
        return None

    def feasible(self, st, cond):
        if isinstance(cond, int):
            return bool(cond)
        c = z3.simplify(cond)
        if z3.is_false(c):
            return False
        if z3.is_true(c):
            return True
        if self.o['prune'] == 'none':
            return True
        nc = b_not(cond)
        for p in st.pc:
            if p.eq(cond):
                return True
            if p.eq(nc):
                return False
        rel = self.slice(st.pc, cond)
        r = self.check_sat(rel + [cond], self.o['prune_ms'])
        return r is not False

    def vars_of(self, e):
        k = e.get_id()
        r = self._vc.get(k)
        if r is None:
            r = set()
            seen = set()
            stack = [e]
            while stack:
                x = stack.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r.add(i)
                else:
                    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        r.add(x.decl().get_id())
                    stack.extend(x.children())
            r = frozenset(r)
            self._vc[k] = r
            self._keep.append(e)
        return r
    _vc = {}
    _keep = []

    def slice(self, pc, cond):
        """hypotheses transitively sharing variables with cond"""
        vs = set(self.vars_of(cond))
        rest = [(p, self.vars_of(p)) for p in pc]
        out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for p, v in rest:
                if v & vs:
                    out.append(p)
                    if not v <= vs:
                        vs |= v
                    ch = True
                else:
                    nr.append((p, v))
            rest = nr
        return out

    # ---------- memory
    def const_val(self, st, c):
        k, v, t = c
        if k == 'int':
            return v
        if k == 'fp':
            return fpconst(v)
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.undef(t)
        if k == 'zero':
            return self.zero(t)
        if k == 'func':
            return FPtr(v)
        if k == 'global':
            return Ptr(self.global_region(st, v), 0)
        if k == 'agg':
            return [self.const_val(st, e) for e in v]
        if k == 'ce':
            op, ty, ops = v
            if op == 'gep':
                p = self.const_val(st, ops[0])
                return self.gep(st, p, ty, [self.const_val(st, o) for o in ops[1:]], [o[2] for o in ops[1:]])
            vals = [self.const_val(st, o) for o in ops]
            if op == 'ptrtoint':
                return self.ptrtoint(vals[0])
            if op == 'inttoptr':
                return self.inttoptr(vals[0])
            if op in ('sub', 'add'):
                return self.binop_int(op, vals[0], vals[1], t.w)
            if op == 'trunc':
                return vals[0] & ((1 << t.w) - 1)
            if op == 'icmp':
                return self.icmp(ty, vals[0], vals[1], ops[0][2])
            raise Unsupported("constexpr " + op)
        if k == 'meta':
            return None
        raise Unsupported("const " + k)

    def undef(self, t):
        if t.k in ('array', 'vector'):
            return [self.undef(t.elts[0]) for _ in range(t.n)]
        if t.k == 'struct':
            return [self.undef(e) for e in t.elts]
        return UNDEF

    def zero(self, t):
        if t.k == 'int':
            return 0
        if t.k in ('float', 'double', 'x86_fp80'):
            return F0
        if t.k == 'ptr':
            return NULL
        if t.k in ('array', 'vector'):
            return [self.zero(t.elts[0]) for _ in range(t.n)]
        if t.k == 'struct':
            return [self.zero(e) for e in t.elts]
        raise Unsupported('zero ' + t.k)

    def resolve_undef(self, t):
        if t.k == 'int':
            if t.w == 1:
                return self.fresh_bool('undef')
            return self.fresh_bv('undef', t.w)
        if t.k in ('float', 'double'):
            return self.fresh_real('undef')
        if t.k == 'ptr':
            return UNDEF
        if t.k in ('array', 'vector'):
            return [self.resolve_undef(t.elts[0]) for _ in range(t.n)]
        if t.k == 'struct':
            return [self.resolve_undef(e) for e in t.elts]
        raise Unsupported('undef ' + t.k)

    def global_region(self, st, name):
        rid = self.gl.get(name)
        if rid is None:
            rid = self.nreg
            self.nreg += 1
            self.gl[name] = rid
        if rid not in st.mem:
            g = self.m.globals.get(name)
            r = Region(g.ty.size if g else 0, name, None, 'global')
            st.mem[rid] = r
            st.owned.add(rid)
            if g is None or g.init is None:
                r.tag = 'extern'
            else:
                c = self.m.const(g.init)
                self.init_cells(st, r, 0, c)
                r.const = g.const
        return rid

    def init_cells(self, st, r, off, c):
        k, v, t = c
        if k == 'zero' and t.k in ('array', 'struct') and off == 0 and t.size == r.size:
            r.fill = 0
            return
        if k == 'agg':
            if t.k == 'struct':
                for e, o in zip(v, t.offs):
                    self.init_cells(st, r, off + o, e)
            else:
                es = t.elts[0].size
                for i, e in enumerate(v):
                    self.init_cells(st, r, off + i * es, e)
            return
        if k == 'zero' and t.k in ('array', 'struct', 'vector'):
            if t.k == 'struct':
                for e, o in zip(t.elts, t.offs):
                    self.init_cells(st, r, off + o, ('zero', None, e))
            else:
                for i in range(t.n):
                    self.init_cells(st, r, off + i * t.elts[0].size, ('zero', None, t.elts[0]))
            return
        if k == 'undef':
            return
        r.cells[off] = (t.ssize, self.const_val(st, c))

    def deref(self, st, p, what):
        if isinstance(p, Ptr):
            if p.r == 0:
                raise Unsupported(f"null dereference ({what})") if False else NullDeref(what)
            r = st.mem.get(p.r)
            if r is None:
                raise Unsupported("dangling region")
            return r
        raise Unsupported(f"deref of {p!r} ({what})")

    def need_concrete_ptr(self, st, inst_opnd, p):
        """fork if p is an ite pointer or has a symbolic offset"""
        if isinstance(p, PIte):
            fr = st.frames[-1]

            def mk(v):
                def f(s):
                    s.frames[-1].vals[inst_opnd] = v
                return f
            raise Fork([(p.c, mk(p.a)), (b_not(p.c), mk(p.b))])
        if isinstance(p, Ptr) and not isinstance(p.o, int):
            r = st.mem.get(p.r)
            if r is not None and r.arr is not None:
                return
            alts = []
            for v, vc in self.enum_conds(st, p.o, 256):
                def mk2(v=v):
                    def f(s):
                        s.frames[-1].vals[inst_opnd] = Ptr(p.r, sgn(v, 64))
                    return f
                alts.append((vc, mk2()))
            raise Fork(alts)

    def atom_values(self, bv):
        """{value: condition} of a bit-vector that depends only on a few real comparisons / booleans, or None"""
        atoms, seen = [], set()
        stack = [bv]
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_bool(e) and (e.num_args() == 0 or any(z3.is_arith(c) for c in e.children())):
                if not z3.is_true(e) and not z3.is_false(e):
                    atoms.append(e)
                continue
            if e.num_args() == 0 and not z3.is_bv_value(e):
                return None
            stack.extend(e.children())
        if len(atoms) > 7:
            return None
        out = {}
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        for m in range(1 << len(atoms)):
            sub = [(a, T if m >> k & 1 else F) for k, a in enumerate(atoms)]
            v = z3.simplify(z3.substitute(bv, *sub))
            if not z3.is_bv_value(v):
                return None
            out.setdefault(v.as_long(), []).append(z3.And(*[a if m >> k & 1 else z3.Not(a) for k, a in enumerate(atoms)]))
        return {v: (c[0] if len(c) == 1 else z3.Or(*c)) for v, c in out.items()}

    def enum_conds(self, st, bv, limit):
        r = self.atom_values(bv)
        if r is not None and len(r) <= limit:
            return list(r.items())
        return [(v, bv == v) for v in self.enum_values(st, bv, limit)]

    def enum_values(self, st, bv, limit):
        s = z3.Solver()
        s.set('timeout', 5000)
        for c in self.slice(st.pc, bv == bv if False else (bv == 0)):
            s.add(c)
        out = []
        while True:
            r = s.check()
            if r == z3.unsat:
                break
            if r != z3.sat:
                raise Unsupported("cannot enumerate a symbolic index " + str(bv)[:300].replace("\n", " "))
            v = s.model().eval(bv, model_completion=True).as_long()
            out.append(v)
            if len(out) > limit:
                raise Unsupported("too many values of a symbolic index")
            s.add(bv != v)
        return out

    def load(self, st, p, t):
        if t.k == 'struct':
            return [self.load(st, Ptr(p.r, p.o + o), e) for e, o in zip(t.elts, t.offs)]
        if t.k in ('array', 'vector'):
            es = t.elts[0].size
            if t.k == 'vector' and t.elts[0].k == 'int' and t.elts[0].w == 1:
                raise Unsupported("load <n x i1>")
            return [self.load(st, Ptr(p.r, p.o + i * es), t.elts[0]) for i in range(t.n)]
        r = self.deref(st, p, 'load')
        n = t.ssize
        o = p.o
        if r.freed:
            raise MemErr("load from freed object " + r.name)
        if r.arr is not None and (not isinstance(o, int) or r.arr.get('always')):
            return self.arr_load(st, r, o, t)
        if o < 0 or (r.size is not None and o + n > r.size):
            if r.tag != 'extern':
                raise MemErr(f"out-of-bounds load of {n} bytes at offset {o} of {r.name} (size {r.size})")
        c = r.cells.get(o)
        if c is not None and c[0] == n:
            return self.retype(st, p, c[1], t)
        return self.load_slow(st, r, p, o, n, t)

    def load_slow(self, st, r, p, o, n, t):
        # assemble from pieces
        ov = sorted((co, c) for co, c in r.cells.items() if co < o + n and co + c[0] > o) if len(r.cells) < 64 else \
            [(co, r.cells[co]) for co in range(o - 64, o + n) if co in r.cells and co + r.cells[co][0] > o]
        if not ov:
            if r.fill is not None:
                if r.fill == 0:
                    return self.zero(t)
                if t.k == 'int':
                    v = 0
                    for i in range(n):
                        v |= r.fill << (8 * i)
                    return v & ((1 << t.w) - 1)
                raise Unsupported("load of memset pattern")
            if r.tag == 'lazy':
                v = self.lazy(st, r, o, t)
                st.wr(p.r).cells[o] = (n, v)
                return v
            if r.tag == 'extern':
                v = self.resolve_undef(t)
                if t.k == 'ptr':
                    raise Unsupported("pointer loaded from external global " + r.name)
                st.wr(p.r).cells[o] = (n, v)
                return v
            v = self.resolve_undef(t)
            if v is not UNDEF:
                st.wr(p.r).cells[o] = (n, v)
            return v
        if t.k == 'int' or True:
            # bytes
            parts = []
            pos = o
            while pos < o + n:
                hit = None
                for co, c in ov:
                    if co <= pos < co + c[0]:
                        hit = (co, c)
                        break
                if hit is None:
                    if r.fill is not None:
                        parts.append((1, r.fill))
                        pos += 1
                        continue
                    parts.append((1, self.fresh_bv('undef', 8)))
                    pos += 1
                    continue
                co, (cn, v) = hit
                take = min(co + cn, o + n) - pos
                if isinstance(v, Undef):
                    v = self.fresh_bv('undef', cn * 8)
                if z3.is_bool(v):
                    v = BV(v, 8 * cn)
                if isinstance(v, int):
                    parts.append((take, (v >> (8 * (pos - co))) & ((1 << (8 * take)) - 1)))
                elif isinstance(v, z3.BitVecRef):
                    lo = 8 * (pos - co)
                    w = v.size()
                    if w < cn * 8:
                        v = z3.ZeroExt(cn * 8 - w, v)
                    parts.append((take, z3.simplify(z3.Extract(lo + 8 * take - 1, lo, v))))
                elif isinstance(v, Fraction):
                    import struct
                    if cn == 8:
                        iv = struct.unpack('<Q', struct.pack('<d', float(v)))[0]
                    else:
                        iv = struct.unpack('<I', struct.pack('<f', float(v)))[0]
                    parts.append((take, (iv >> (8 * (pos - co))) & ((1 << (8 * take)) - 1)))
                elif isinstance(v, Ptr) and v.r == 0:
                    parts.append((take, (v.o >> (8 * (pos - co))) & ((1 << (8 * take)) - 1)))
                elif take == cn and n == cn:
                    return self.retype(st, p, v, t)
                else:
                    raise Unsupported(f"partial load of {v!r}")
                pos += take
            if all(isinstance(v, int) for _, v in parts):
                val = 0
                sh = 0
                for k, v in parts:
                    val |= v << sh
                    sh += 8 * k
            else:
                val = z3.simplify(z3.Concat(*[BV(v, 8 * k) for k, v in reversed(parts)])) if len(parts) > 1 else parts[0][1]
            return self.retype(st, p, val, t)

    def retype(self, st, p, v, t):
        k = t.k
        if k == 'int':
            if isinstance(v, int):
                return v & ((1 << t.w) - 1)
            if isinstance(v, Undef):
                nv = self.fresh_bool('undef') if t.w == 1 else self.fresh_bv('undef', t.w)
                if p is not None:
                    st.wr(p.r).cells[p.o] = (t.ssize, nv)
                return nv
            if isinstance(v, z3.BoolRef):
                return v if t.w == 1 else BV(v, t.w)
            if isinstance(v, z3.BitVecRef):
                if v.size() == t.w:
                    return v
                if v.size() > t.w:
                    return z3.simplify(z3.Extract(t.w - 1, 0, v)) if t.w > 1 else B(z3.simplify(z3.Extract(0, 0, v)))
                return z3.ZeroExt(t.w - v.size(), v)
            if isinstance(v, (Fraction, Special)) or (isinstance(v, z3.ArithRef)):
                return Bits(v)
            if isinstance(v, (Ptr, FPtr, PIte)):
                if isinstance(v, Ptr) and v.r == 0:
                    return v.o
                return PInt(v)
            return v
        if k in ('double', 'float'):
            if isinstance(v, (Fraction, Special)) or isinstance(v, z3.ArithRef):
                return v
            if isinstance(v, Bits):
                return v.v
            if isinstance(v, Undef):
                nv = self.fresh_real('undef')
                if p is not None:
                    st.wr(p.r).cells[p.o] = (t.ssize, nv)
                return nv
            if isinstance(v, int):
                if v == 0:
                    return F0
                import struct
                if k == 'double':
                    return fpconst(struct.unpack('<d', struct.pack('<Q', v))[0])
                return fpconst(struct.unpack('<f', struct.pack('<I', v))[0])
            if isinstance(v, z3.BitVecRef):
                return self.fresh_real('bits')
            raise Unsupported(f"load {k} of {v!r}")
        if k == 'ptr':
            if isinstance(v, (Ptr, FPtr, PIte)):
                return v
            if isinstance(v, PInt):
                return v.p
            if isinstance(v, int):
                return Ptr(0, v) if v else NULL
            if isinstance(v, Undef):
                return v
            raise Unsupported(f"load ptr of {v!r}")
        if k == 'x86_fp80':
            return v
        raise Unsupported("retype " + k)

    def store(self, st, p, v, t):
        if t.k == 'struct':
            for e, o, x in zip(t.elts, t.offs, v):
                self.store(st, Ptr(p.r, p.o + o), x, e)
            return
        if t.k in ('array', 'vector'):
            es = t.elts[0].size
            for i in range(t.n):
                self.store(st, Ptr(p.r, p.o + i * es), v[i], t.elts[0])
            return
        r0 = self.deref(st, p, 'store')
        n = t.ssize
        o = p.o
        if r0.freed:
            raise MemErr("store to freed object " + r0.name)
        if r0.const:
            raise MemErr("store to constant " + r0.name)
        if r0.arr is not None and (not isinstance(o, int) or r0.arr.get('always')):
            return self.arr_store(st, p, o, v, t)
        if o < 0 or (r0.size is not None and o + n > r0.size):
            raise MemErr(f"out-of-bounds store of {n} bytes at offset {o} of {r0.name} (size {r0.size})")
        r = st.wr(p.r)
        c = r.cells.get(o)
        if c is None or c[0] != n:
            self.clear(st, r, o, n)
        r.cells[o] = (n, v)

    def clear(self, st, r, o, n):
        """remove cells overlapping [o,o+n), keeping the outside bytes of partially overlapped cells"""
        cells = r.cells
        if len(cells) < 64:
            ov = [(co, c) for co, c in cells.items() if co < o + n and co + c[0] > o]
        else:
            ov = [(co, cells[co]) for co in range(o - 64, o + n) if co in cells and co + cells[co][0] > o]
        for co, (cn, v) in ov:
            del cells[co]
            if co >= o and co + cn <= o + n:
                continue
            if isinstance(v, Fraction):
                import struct
                v = struct.unpack('<Q', struct.pack('<d', float(v)))[0] if cn == 8 else struct.unpack('<I', struct.pack('<f', float(v)))[0]
            if isinstance(v, Ptr) and v.r == 0:
                v = v.o
            for i in range(cn):
                if o <= co + i < o + n:
                    continue
                if isinstance(v, int):
                    cells[co + i] = (1, (v >> (8 * i)) & 255)
                elif isinstance(v, z3.BitVecRef) and v.size() == cn * 8:
                    cells[co + i] = (1, z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)))
                elif isinstance(v, Undef):
                    pass
                else:
                    cells[co + i] = (1, self.fresh_bv('clobbered', 8))

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        rs = self.deref(st, s, 'memcpy src')
        rd = self.deref(st, d, 'memcpy dst')
        if rs.freed or rd.freed:
            raise MemErr("memcpy with freed object")
        for r, p in ((rs, s), (rd, d)):
            if p.o < 0 or (r.size is not None and p.o + n > r.size):
                raise MemErr(f"out-of-bounds memcpy of {n} bytes at offset {p.o} of {r.name} (size {r.size})")
        if rs.arr is not None or rd.arr is not None:
            raise Unsupported("memcpy of array object")
        src = [(co, c) for co, c in rs.cells.items() if co < s.o + n and co + c[0] > s.o]
        w = st.wr(d.r)
        fill = rs.fill
        lazy = rs.tag == 'lazy'
        if lazy:
            raise Unsupported("memcpy from lazy object")
        out = []
        for co, (cn, v) in src:
            if co >= s.o and co + cn <= s.o + n:
                out.append((co - s.o + d.o, (cn, v)))
            else:
                # partial: bytes
                for i in range(cn):
                    if s.o <= co + i < s.o + n:
                        if isinstance(v, int):
                            out.append((co + i - s.o + d.o, (1, (v >> (8 * i)) & 255)))
                        elif isinstance(v, z3.BitVecRef) and v.size() == cn * 8:
                            out.append((co + i - s.o + d.o, (1, z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)))))
                        else:
                            raise Unsupported("partial memcpy of %r" % (v,))
        self.clear(st, w, d.o, n)
        if fill is not None and w.fill != fill:
            covered = set()
            for co, (cn, v) in out:
                covered.update(range(co, co + cn))
            i = d.o
            while i < d.o + n:
                if i not in covered:
                    k = 8 if i % 8 == 0 and all((j not in covered) and j < d.o + n for j in range(i, i + 8)) else 1
                    fv = 0
                    for _ in range(k):
                        fv = (fv << 8) | fill
                    w.cells[i] = (k, fv)
                    i += k
                else:
                    i += 1
        elif fill is None and w.fill is not None:
            covered = set()
            for co, (cn, v) in out:
                covered.update(range(co, co + cn))
            for i in range(d.o, d.o + n):
                if i not in covered:
                    w.cells[i] = (1, UNDEF)
        for co, c in out:
            w.cells[co] = c

    def memset(self, st, d, v, n):
        if n == 0:
            return
        r = self.deref(st, d, 'memset')
        if d.o < 0 or (r.size is not None and d.o + n > r.size):
            raise MemErr(f"out-of-bounds memset of {n} bytes at {d.o} of {r.name} (size {r.size})")
        w = st.wr(d.r)
        if d.o == 0 and n == r.size:
            w.cells = {}
            w.fill = v
            return
        self.clear(st, w, d.o, n)
        if w.fill == v:
            return
        i = d.o
        while i < d.o + n:
            k = 8 if i % 8 == 0 and i + 8 <= d.o + n else (4 if i % 4 == 0 and i + 4 <= d.o + n else 1)
            fv = 0
            for _ in range(k):
                fv = (fv << 8) | v
            w.cells[i] = (k, fv)
            i += k

    # symbolic arrays: region.arr = {stride, fields:{off:(kind, z3 array Int->Real)}, n}
    def arr_split(self, st, r, o):
        stride = r.arr['stride']
        if isinstance(o, int):
            return z3.IntVal(o // stride), o % stride
        # o is a z3 Int expression  idx*stride + const, kept as tuple by gep
        raise Unsupported("array offset")

    def arr_load(self, st, r, o, t):
        raise Unsupported("symbolic array load")

    def arr_store(self, st, p, o, v, t):
        raise Unsupported("symbolic array store")

    def lazy(self, st, r, o, t):
        raise Unsupported("lazy object")

    def gep(self, st, p, ty, idx, ityps):
        if isinstance(p, PIte):
            return PIte(p.c, self.gep(st, p.a, ty, idx, ityps), self.gep(st, p.b, ty, idx, ityps))
        if isinstance(p, FPtr):
            if all(i == 0 for i in idx):
                return p
            raise Unsupported("gep on function")
        if isinstance(p, Undef):
            return p
        off = p.o
        t = None
        for k, (i, it) in enumerate(zip(idx, ityps)):
            if k == 0:
                t = ty
                sz = t.size
            else:
                if t.k == 'struct':
                    off = self.addoff(off, t.offs[i])
                    t = t.elts[i]
                    continue
                t = t.elts[0]
                sz = t.size
            if isinstance(i, int):
                off = self.addoff(off, sgn(i, it.w) * sz)
            else:
                if isinstance(i, Undef):
                    raise Unsupported("undef index")
                if z3.is_bool(i):
                    i = BV(i, it.w)
                e = z3.SignExt(64 - it.w, i) if it.w < 64 else i
                off = self.addoff(off, z3.simplify(e * z3.BitVecVal(sz, 64)))
        return Ptr(p.r, off)

    def addoff(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        A = z3.BitVecVal(a & ((1 << 64) - 1), 64) if isinstance(a, int) else a
        C = z3.BitVecVal(b & ((1 << 64) - 1), 64) if isinstance(b, int) else b
        r = z3.simplify(A + C)
        if z3.is_bv_value(r):
            return sgn(r.as_long(), 64)
        return r

    def ptrtoint(self, p):
        if isinstance(p, Ptr) and p.r == 0:
            return p.o
        return PInt(p)

    def inttoptr(self, v):
        if isinstance(v, PInt):
            return v.p
        if isinstance(v, int):
            return Ptr(0, v) if v else NULL
        raise Unsupported("inttoptr")

    # ---------- arithmetic
    def fadd(self, a, b):
        if isinstance(a, Fraction):
            if isinstance(b, Fraction):
                return a + b
            if not isinstance(b, Special) and a == 0:
                return b
        elif isinstance(b, Fraction) and b == 0 and not isinstance(a, Special):
            return a
        if isinstance(a, Special) or isinstance(b, Special):
            if a is NAN or b is NAN:
                return NAN
            if isinstance(a, Special):
                if isinstance(b, Special) and b.k != a.k:
                    return NAN
                return a
            return b
        if self.o['cut']:
            a, b = self.cutv(a), self.cutv(b)
        return R(a) + R(b)

    def fneg(self, a):
        if isinstance(a, Fraction):
            return -a
        if isinstance(a, Special):
            return NAN if a is NAN else (NINF if a is PINF else PINF)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UMINUS:
            return a.arg(0)
        return -a

    def fsub(self, a, b):
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return a - b
        if isinstance(b, Fraction) and b == 0:
            return a
        if isinstance(a, Special) or isinstance(b, Special):
            return self.fadd(a, self.fneg(b))
        if isinstance(a, Fraction) and a == 0:
            return self.fneg(b)
        if self.o['cut']:
            a, b = self.cutv(a), self.cutv(b)
        return R(a) - R(b)

    def fmul(self, a, b, cut=True):
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return a * b
        if isinstance(a, Special) or isinstance(b, Special):
            if isinstance(b, Special):
                a, b = b, a
            if a is NAN or b is NAN:
                return NAN
            if isinstance(b, Special):
                return PINF if a.k == b.k else NINF
            if isinstance(b, Fraction):
                if b == 0:
                    return NAN
                return a if b > 0 else self.fneg(a)
            raise Unsupported("inf * symbolic")
        if isinstance(a, Fraction):
            if a == 0:
                return F0
            if a == 1:
                return b
            if a == -1:
                return self.fneg(b)
        if isinstance(b, Fraction):
            if b == 0:
                return F0
            if b == 1:
                return a
            if b == -1:
                return self.fneg(a)
        if cut and (self.o['cut'] or self.rules) and not isinstance(a, Fraction) and not isinstance(b, Fraction):
            return self.cutv(a) * self.cutv(b)
        return R(a) * R(b)

    def fdiv(self, st, a, b):
        if isinstance(b, Special):
            if isinstance(a, Special) or b is NAN:
                return NAN
            return F0
        if isinstance(b, Fraction):
            if b == 0:
                if isinstance(a, Fraction):
                    return NAN if a == 0 else (PINF if a > 0 else NINF)
                if isinstance(a, Special):
                    return a
                raise Unsupported("symbolic / 0")
            if isinstance(a, Fraction):
                return a / b
            if isinstance(a, Special):
                return a if b > 0 else self.fneg(a)
            return self.fmul(a, Fraction(1) / b)
        if isinstance(a, Special):
            raise Unsupported("inf / symbolic")
        a, b = self.cutv(a), self.cutv(b)
        dok = self.defined(st, b != 0, 'division by zero')
        if isinstance(a, Fraction) and a == 0:
            return F0
        # quotient as a fresh variable q with q*b == a; equal quotients (as fractions of polynomials, up to scale) get one variable
        ka, ca = self.canon(R(a))
        kb, cb = self.canon(b)
        if ka == () and kb != ():
            return F0
        if ka is not None and ka == kb:
            return ca / cb
        f = F1 if ka is None or kb is None else ca / cb
        key = ('div', ka or R(a).get_id(), kb or b.get_id())
        q = self.sqrt_cache.get(key)
        if q is None:
            q = self.fresh_real('q')
            self.sqrt_cache[key] = q
            self._keep.append((R(a), b))
            self.sqrt_cache[('def', q.get_id())] = q * b == (R(a) if f == 1 else self.fmul(R(a), 1 / f))
        d = self.sqrt_cache[('def', q.get_id())]
        self.add_def(st, d if dok else z3.Implies(b != 0, d))
        return q if f == 1 else self.fmul(q, f)

    def cutv(self, e):
        """option cut=K: a nonlinear polynomial with more than K monomials gets a name (one per canonical polynomial)"""
        if isinstance(e, (Fraction, Special)) or not (self.o['cut'] or self.rules):
            return e
        r = self.cut_memo.get(e.get_id())
        if r is not None:
            return r
        k, c = self.canon(e)
        r = e
        if k is not None and self.o['cut'] and len(k) > self.o['cut'] and max(len(m) for m, _ in k) > 1:
            v = self.cut_vars.get(k)
            if v is None:
                v = self.fresh_real('cut')
                self.cut_vars[k] = v
                if self.is_sos(e):
                    self.cut_pos[v.get_id()] = v >= 0 if c > 0 else v <= 0
                if self.rules:
                    self.cuts[v.get_id()] = (v, self.expr(k))
                else:
                    self.cuts[v.get_id()] = (v, e if c == 1 else R(self.fmul(Fraction(1) / c, e, False)))
            r = v if c == 1 else R(c) * v
        elif self.rules and k is not None and dict((m, x * c) for m, x in k) != self.lin.poly(e):
            r = self.expr(k, c)
        self.cut_memo[e.get_id()] = r
        self._keep.append((e, r))
        return r

    def cutfacts(self, pc, cond):
        if not self.cut_pos:
            return pc
        vs = set(self.vars_of(cond))
        for p in pc:
            vs |= self.vars_of(p)
        return list(pc) + [self.cut_pos[i] for i in sorted(vs) if i in self.cut_pos]

    def uncut(self, e):
        """replace every name introduced by cutv by its polynomial"""
        for _ in range(50):
            vs = [self.cuts[i] for i in self.vars_of(e) if i in self.cuts]
            if not vs:
                break
            e = z3.substitute(e, *vs)
        return e

    def canon(self, e):
        """canonical polynomial of e: (key, scale) with e == scale * key; key None when too big"""
        if self.lin is None:
            import lin
            self.lin = lin.Lin()
        import lin
        try:
            p = self.lin.poly(e)
        except (lin.TooBig, RecursionError):
            return None, F1
        if self.rules:
            p = self.reduce(p)
        if len(p) > 400:
            return None, F1
        if not p:
            return (), F1
        it = sorted(p.items())
        c = it[0][1]
        return tuple((m, x / c) for m, x in it), c

    def reduce(self, p):
        '''normal form of a polynomial under the product rules (facts declared with __lcv_rule)'''
        todo, out, n = list(p.items()), {}, 0
        while todo:
            m, c = todo.pop()
            hit = None
            if len(m) > 1:
                for i in range(len(m)):
                    for j in range(i + 1, len(m)):
                        hit = self.rules.get((m[i], m[j]))
                        if hit is not None:
                            rest = m[:i] + m[i + 1:j] + m[j + 1:]
                            break
                    if hit is not None:
                        break
            n += 1
            if hit is None or n > 20000:
                x = out.get(m, F0) + c
                if x:
                    out[m] = x
                else:
                    out.pop(m, None)
                continue
            for m2, c2 in hit.items():
                todo.append((tuple(sorted(rest + m2)), c * c2))
        return out

    def expr(self, k, c=1):
        '''z3 term of a canonical polynomial'''
        ts = []
        for m, x in k:
            x = x * c
            t = None
            for v in m:
                t = self.lin.vars[v] if t is None else t * self.lin.vars[v]
            if t is None:
                t = R(x)
            elif x == -1:
                t = -t
            elif x != 1:
                t = R(x) * t
            ts.append(t)
        if not ts:
            return R(F0)
        r = ts[0]
        for t in ts[1:]:
            r = r + t
        return r

    def add_def(self, st, d):
        for p in st.pc:
            if p.eq(d):
                return
        st.pc.append(d)

    def defined(self, st, cond, what):
        if isinstance(cond, int):
            if cond:
                return True
            cond = z3.BoolVal(False)
        mode = self.o['div0']
        if st.ghost.get('native_spec'):
            mode = 'assume'
        if mode == 'auto':
            # proved on the spot: an obligation; otherwise the operation yields an arbitrary real where it is undefined (the compiler may
            # have speculated it), and the caller guards its definition
            if any(p.eq(cond) for p in st.pc):
                return True
            if not self.prove_now(st, cond):
                self.assumed.add(f"{what} in {self.short(st.frames[-1].fn.name)}: not excluded, the result is an arbitrary real there")
                return False
            mode = 'check'
        if mode == 'check':
            for p in st.pc:
                if p.eq(cond):
                    return True
            self.obls.append(Obligation(f"defined: {what} in {self.short(st.frames[-1].fn.name)}", list(st.pc), cond, list(st.inputs), st.path, 'defined'))
            st.pc.append(cond)
        else:
            self.assumed.add(f"{what} does not occur in {self.short(st.frames[-1].fn.name)} (assumed)")
            st.pc.append(cond)
        return True

    def prove_now(self, st, cond):
        rel = self.slice(self.cutfacts(st.pc, cond), cond)
        key = (cond.get_id(), frozenset(h.get_id() for h in rel))
        r = self.now_cache.get(key)
        if r is not None:
            return r
        self._keep.append((cond, rel))
        nc = z3.Not(cond)
        r = self.check_sat(rel + [nc], 150) is False
        if not r:
            s = z3.Solver()
            s.set('timeout', 500)
            s.add(*rel)
            s.add(nc)
            r = s.check() == z3.unsat
        if not r:
            import lin
            try:
                r = bool(lin.prove(rel, cond, 1500, (0, 1)))
            except z3.Z3Exception:
                r = False
        self.now_cache[key] = r
        return r

    def fsqrt(self, st, a):
        if isinstance(a, Fraction):
            if a < 0:
                return NAN
            n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
            if n * n == a.numerator and d * d == a.denominator:
                return Fraction(n, d)
            irr = True
            a = R(a)
        else:
            irr = False
        if isinstance(a, Special):
            return a if a is PINF else NAN
        sos = self.is_sos(a)
        a = self.cutv(a)
        s = z3.simplify(a, som=True)
        if z3.is_rational_value(s) and not irr:
            return self.fsqrt(st, Fraction(s.numerator_as_long(), s.denominator_as_long()))
        dok = sos or self.defined(st, a >= 0, 'sqrt of a negative number')
        k, c = self.canon(s)
        key = ('sqrt', s.get_id()) if k is None else ('sqrt', k, c)
        y = self.sqrt_cache.get(key)
        if y is None:
            y = self.fresh_real('sqrt')
            self.sqrt_cache[key] = y
            self._keep.append((a, s))
            self.sqrt_cache[('def', y.get_id())] = (y >= 0, y * y == a)
        for d in self.sqrt_cache[('def', y.get_id())]:
            self.add_def(st, d if dok else z3.Implies(a >= 0, d))
        return y

    def is_sos(self, a):
        """syntactically a sum of squares / nonneg constants"""
        k = a.decl().kind()
        if k == z3.Z3_OP_ADD:
            return all(self.is_sos(x) for x in a.children())
        if k == z3.Z3_OP_MUL and a.num_args() == 2:
            return a.arg(0).eq(a.arg(1))
        if z3.is_rational_value(a):
            return a.numerator_as_long() >= 0
        return False

    def fcmp(self, pred, a, b):
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        if a is NAN or b is NAN:
            if pred in ('uno',):
                return 1
            if pred == 'ord':
                return 0
            return 1 if pred[0] == 'u' else 0
        if pred == 'ord':
            return 1
        if pred == 'uno':
            return 0
        p = pred[1:]
        if isinstance(a, Special) or isinstance(b, Special):
            def lv(x):
                return 1 if x is PINF else (-1 if x is NINF else 0)
            x, y = lv(a), lv(b)
            return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p])
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
        x, y = R(self.cutv(a)), R(self.cutv(b))
        if x.eq(y):
            return int(p in ('eq', 'le', 'ge'))
        if p in ('gt', 'ge'):
            x, y = y, x
            p = 'lt' if p == 'gt' else 'le'
        # equal comparisons (as polynomial inequalities up to scale) get one atom
        k, c = self.canon(x - y)
        if k == ():
            return int(p in ('eq', 'le'))
        if k is not None and len(k) == 1 and k[0][0] == ():
            v = c
            return int({'eq': v == 0, 'ne': v != 0, 'lt': v < 0, 'le': v <= 0}[p])
        if k is not None:
            neg = p == 'ne'
            q = 'eq' if neg else p
            key = (q, k, True if q == 'eq' else c > 0)
            e = self.atom_cache.get(key)
            if e is None:
                # x<y is not(y<=x)
                o = self.atom_cache.get(({'lt': 'le', 'le': 'lt'}.get(q), k, not (c > 0)))
                if o is not None:
                    return z3.Not(o)
                if self.rules:
                    x, y = self.expr(k, c), R(F0)
                    if len(k) > 1:
                        x = self.cutv(x)
                e = x == y if q == 'eq' else (x < y if q == 'lt' else x <= y)
                self.atom_cache[key] = e
                self._keep.append(e)
            return z3.Not(e) if neg else e
        if p == 'eq':
            return x == y
        if p == 'ne':
            return x != y
        if p == 'lt':
            return x < y
        return x <= y

    def binop_int(self, op, a, b, w):
        M = (1 << w) - 1
        if isinstance(a, Undef) or isinstance(b, Undef):
            a = self.fresh_bv('undef', w) if isinstance(a, Undef) else a
            b = self.fresh_bv('undef', w) if isinstance(b, Undef) else b
            if w == 1:
                a, b = B(a), B(b)
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return (a + b) & M
            if op == 'sub':
                return (a - b) & M
            if op == 'mul':
                return (a * b) & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & M if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sgn(a, w) >> min(b, w - 1)) & M
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
                raise MemErr("integer division by zero")
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            if op == 'sdiv':
                return q & M
            return (x - q * y) & M
        if w == 1:
            if op == 'and':
                return b_and(a if isinstance(a, int) else B(a), b if isinstance(b, int) else B(b))
            if op == 'or':
                return b_or(a if isinstance(a, int) else B(a), b if isinstance(b, int) else B(b))
            if op in ('xor', 'add', 'sub'):
                if isinstance(b, int):
                    return b_not(B(a)) if b else a
                if isinstance(a, int):
                    return b_not(B(b)) if a else b
                return z3.Xor(B(a), B(b))
            if op == 'mul':
                return b_and(B(a), B(b))
        if op in ('and', 'or', 'xor') and (isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef)):
            x, y = boolish(a), boolish(b)
            if op == 'and' and (x is None) != (y is None) and not isinstance(a, (PInt, Bits)) and not isinstance(b, (PInt, Bits)):
                pass
            elif x is not None and y is not None:
                if op == 'and':
                    return bv01(b_and(x, y), w)
                if op == 'or':
                    return bv01(b_or(x, y), w)
                if isinstance(y, int):
                    return bv01(b_not(x) if y else x, w)
                if isinstance(x, int):
                    return bv01(b_not(y) if x else y, w)
                return bv01(z3.Xor(x, y), w)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                p, q = a.p, b.p
                if isinstance(p, Ptr) and isinstance(q, Ptr) and p.r == q.r:
                    d = self.addoff(p.o, -q.o if isinstance(q.o, int) else -q.o)
                    return d & M if isinstance(d, int) else d
                if isinstance(p, PIte) or isinstance(q, PIte):
                    m, at = (p, 0) if isinstance(p, PIte) else (q, 1)
                    r = [self.binop_int(op, *((PInt(x), b) if at == 0 else (a, PInt(x))), w) for x in (m.a, m.b)]
                    r = [z3.BitVecVal(x, w) if isinstance(x, int) else x for x in r]
                    return z3.If(B(m.c), r[0], r[1])
                raise Unsupported("pointer difference across objects: %s - %s" % (p, q))
            if op in ('add', 'sub') and isinstance(a, PInt) and isinstance(b, int) and isinstance(a.p, Ptr):
                d = sgn(b, 64)
                return PInt(Ptr(a.p.r, self.addoff(a.p.o, d if op == 'add' else -d)))
            if op == 'add' and isinstance(b, PInt) and isinstance(a, int) and isinstance(b.p, Ptr):
                return PInt(Ptr(b.p.r, self.addoff(b.p.o, sgn(a, 64))))
            if op == 'and' and isinstance(b, int) and isinstance(a, PInt) and isinstance(a.p, Ptr) and isinstance(a.p.o, int):
                if b < 64:
                    return a.p.o & b
                low = (~b) & M
                if low < 64:
                    return PInt(Ptr(a.p.r, a.p.o & ~low))
            if op == 'or' and isinstance(b, int) and b == 0:
                return a
            if op == 'urem' and isinstance(b, int) and b == 1:
                return 0
            # address arithmetic we do not track (hashing, random seeds): an arbitrary value
            raise Unsupported("integer arithmetic on an address: " + op)
        if isinstance(a, Bits) or isinstance(b, Bits):
            x, y = (a, b) if isinstance(a, Bits) else (b, a)
            if op == 'and' and isinstance(y, int) and y == M >> 1:
                return Bits(self.fabs(x.v))
            if op == 'xor' and isinstance(y, int) and y == 1 << (w - 1):
                return Bits(self.fneg(x.v))
            raise Unsupported("bit operation on a real")
        x, y = BV(a, w), BV(b, w)
        if op == 'add':
            r = x + y
        elif op == 'sub':
            r = x - y
        elif op == 'mul':
            r = x * y
        elif op == 'and':
            r = x & y
        elif op == 'or':
            r = x | y
        elif op == 'xor':
            r = x ^ y
        elif op == 'shl':
            r = x << y
        elif op == 'lshr':
            r = z3.LShR(x, y)
        elif op == 'ashr':
            r = x >> y
        elif op == 'udiv':
            r = z3.UDiv(x, y)
        elif op == 'urem':
            r = z3.URem(x, y)
        elif op == 'sdiv':
            r = x / y
        elif op == 'srem':
            r = z3.SRem(x, y)
        else:
            raise Unsupported(op)
        r = z3.simplify(r)
        if z3.is_bv_value(r):
            return r.as_long()
        return r

    def fabs(self, a):
        if isinstance(a, Fraction):
            return abs(a)
        if isinstance(a, Special):
            return NAN if a is NAN else PINF
        return z3.If(a < 0, -a, a)

    def fabs_pc(self, st, a):
        '''|a| with the sign taken from the path condition when it is there'''
        if isinstance(a, (Fraction, Special)):
            return self.fabs(a)
        if self.rules:
            a = self.cutv(a)
            if isinstance(a, Fraction):
                return self.fabs(a)
        neg = self.fcmp('olt', a, Fraction(0))
        nneg = self.fcmp('oge', a, Fraction(0))
        if isinstance(neg, int):
            return self.fabs(a) if neg not in (0, 1) else (z3.simplify(-a) if neg else a)
        pos, npos = self.fcmp('ogt', a, Fraction(0)), self.fcmp('ole', a, Fraction(0))
        if self.o['cut'] or self.rules:
            k, c = self.canon(a)
            if k:
                b = self.abs_cache.get(k)
                if b is None:
                    e = self.expr(k)
                    b = self.abs_cache[k] = z3.If(e < 0, -e, e)
                r = b if abs(c) == 1 else R(abs(c)) * b
            else:
                r = self.fabs(a)
        else:
            r = self.fabs(a)
        for p in st.pc:
            if any(not isinstance(q, int) and p.eq(q) for q in (nneg, pos)) or p.eq(b_not(neg)):
                return a
            if any(not isinstance(q, int) and p.eq(q) for q in (neg, npos)):
                return -a
        return r

    def bite(self, c, x, y):
        if isinstance(x, int) and isinstance(y, int):
            return x if x == y else c if x else b_not(c)
        return self.simpb(z3.If(c, B(x), B(y)))

    def icmp(self, pred, a, b, t):
        if t.k == 'ptr' or isinstance(a, (Ptr, FPtr, PIte, PInt)) or isinstance(b, (Ptr, FPtr, PIte, PInt)):
            if isinstance(a, PInt):
                a = a.p
            if isinstance(b, PInt):
                b = b.p
            if isinstance(a, int):
                a = Ptr(0, a)
            if isinstance(b, int):
                b = Ptr(0, b)
            if isinstance(a, PIte):
                x, y = self.icmp(pred, a.a, b, t), self.icmp(pred, a.b, b, t)
                return self.bite(a.c, x, y)
            if isinstance(b, PIte):
                x, y = self.icmp(pred, a, b.a, t), self.icmp(pred, a, b.b, t)
                return self.bite(b.c, x, y)
            if isinstance(a, FPtr) or isinstance(b, FPtr):
                e = a == b
                if pred == 'eq':
                    return int(e)
                if pred == 'ne':
                    return int(not e)
                raise Unsupported("function pointer order")
            if isinstance(a, Undef) or isinstance(b, Undef):
                raise Unsupported("comparison of an uninitialised pointer")
            if a.r != b.r:
                if pred == 'eq':
                    return 0
                if pred == 'ne':
                    return 1
                # order of addresses of distinct objects: by region id (arbitrary but fixed total order)
                x, y = a.r, b.r
            else:
                if not (isinstance(a.o, int) and isinstance(b.o, int)):
                    x = BV(a.o & ((1 << 64) - 1) if isinstance(a.o, int) else a.o, 64)
                    y = BV(b.o & ((1 << 64) - 1) if isinstance(b.o, int) else b.o, 64)
                    r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: x < y, 'ule': lambda: x <= y,
                         'ugt': lambda: x > y, 'uge': lambda: x >= y}[pred]()
                    return self.simpb(r)
                x, y = a.o, b.o
            return int({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
                        'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred])
        w = t.w
        if isinstance(a, Undef):
            a = self.resolve_undef(t)
        if isinstance(b, Undef):
            b = self.resolve_undef(t)
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            p = pred if pred in ('eq', 'ne') else pred[1:]
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
        if isinstance(a, Bits) or isinstance(b, Bits):
            x, y = (a, b) if isinstance(a, Bits) else (b, a)
            p = pred if isinstance(a, Bits) else {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(pred, pred)
            if isinstance(y, int):
                if p == 'slt' and y == 0:
                    return self.fcmp('olt', x.v, F0)
                if p == 'sgt' and y == (1 << w) - 1:
                    return self.fcmp('oge', x.v, F0)
                if p in ('eq', 'ne') and y == 0:
                    return self.fcmp('oeq' if p == 'eq' else 'une', x.v, F0)
            raise Unsupported("integer comparison of real bits")
        if w == 1:
            x, y = B(a), B(b)
            if pred == 'eq':
                return self.simpb(x == y)
            if pred == 'ne':
                return self.simpb(x != y)
            a, b = BV(x, 1), BV(y, 1)
        if pred in ('eq', 'ne'):
            x, y = boolish(a), boolish(b)
            if isinstance(x, int):
                x, y, a, b = y, x, b, a
            if isinstance(x, int) and isinstance(y, int):
                return int((x == y) == (pred == 'eq'))
            if isinstance(x, int):
                x, y, a, b = y, x, b, a
            if x is not None and isinstance(y, int):
                b = y
            if x is not None and isinstance(b, int):
                if b > 1:
                    return int(pred == 'ne')
                return x if bool(b) == (pred == 'eq') else b_not(x)
            if x is not None and y is not None:
                return z3.Xor(x, y) if pred == 'ne' else x == y
        x, y = BV(a, w), BV(b, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
             'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
        return self.simpb(r)

    def simpb(self, r):
        r = z3.simplify(r)
        if z3.is_true(r):
            return 1
        if z3.is_false(r):
            return 0
        return r

    def ite(self, c, a, b):
        if isinstance(c, int):
            return a if c else b
        if a is b:
            return a
        if isinstance(a, list):
            return [self.ite(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, Undef):
            return b
        if isinstance(b, Undef):
            return a
        if isinstance(a, (Ptr, FPtr, PIte)) or isinstance(b, (Ptr, FPtr, PIte)):
            if isinstance(a, (Ptr, FPtr)) and a == b:
                return a
            return PIte(c, a, b)
        if isinstance(a, int) and isinstance(b, int):
            if a == b:
                return a
            return None  # caller needs the width
        if isinstance(a, (Fraction,)) and isinstance(b, Fraction) and a == b:
            return a
        if isinstance(a, Special) or isinstance(b, Special):
            return None
        if isinstance(a, Fraction) or isinstance(b, Fraction) or isinstance(a, z3.ArithRef):
            if self.rules:
                a, b = self.cutv(a), self.cutv(b)
            x, y = R(a), R(b)
            if x.eq(y):
                return a
            return z3.If(c, x, y)
        if isinstance(a, Bits) and isinstance(b, Bits):
            return Bits(self.ite(c, a.v, b.v))
        if z3.is_bool(a) if is_sym(a) else (z3.is_bool(b) if is_sym(b) else False):
            return self.simpb(z3.If(c, B(a), B(b)))
        if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
            w = a.size() if isinstance(a, z3.BitVecRef) else b.size()
            return z3.If(c, BV(a, w), BV(b, w))
        return None

    def ite_t(self, c, a, b, t):
        if t.k in ('array', 'vector'):
            return [self.ite_t(c, x, y, t.elts[0]) for x, y in zip(a, b)]
        if t.k == 'struct':
            return [self.ite_t(c, x, y, e) for x, y, e in zip(a, b, t.elts)]
        if isinstance(c, int):
            return a if c else b
        if isinstance(a, int) and isinstance(b, int):
            if a == b:
                return a
            if t.w == 1:
                return c if a else b_not(c)
            return z3.If(c, z3.BitVecVal(a, t.w), z3.BitVecVal(b, t.w))
        if t.k == 'int' and t.w == 1 and not isinstance(a, Undef) and not isinstance(b, Undef):
            if isinstance(a, int):
                return b_or(c, B(b)) if a else b_and(b_not(c), B(b))
            if isinstance(b, int):
                return b_or(b_not(c), B(a)) if b else b_and(c, B(a))
        return self.ite(c, a, b)

    # ---------- names
    def short(self, name):
        d = self._dem.get(name)
        if d is None:
            import subprocess
            try:
                d = subprocess.run(['c++filt', name], capture_output=True, text=True).stdout.strip()
            except OSError:
                d = name
            d = re.sub(r'\(.*', '', d)
            self._dem[name] = d
        return d

    # ---------- execution
    def start(self, fname):
        fn = self.m.funcs[fname]
        st = State(); st.sticky = False
        st.frames = []
        st.mem = {}
        st.owned = set()
        st.pc = []
        st.inputs = []
        st.ghost = {}
        st.trail = []
        st.steps = 0
        st.path = 'p'
        st.defs = None
        self.push(st, fn, [], None, None)
        return st

    def push(self, st, fn, args, retid, normal):
        self.m.load(fn)
        if fn.info is None:
            fn.info = LoopInfo(fn)
        fr = Frame()
        fr.fn = fn
        fr.bb = 0
        fr.ip = 0
        fr.prev = None
        fr.vals = {}
        for (i, t), a in zip(fn.params, args):
            fr.vals[i] = a
        fr.retid = retid
        fr.iters = {}
        fr.allocas = []
        fr.normal = normal
        fr.onret = None
        fr.loopstk = None
        st.frames.append(fr)
        if len(st.frames) > 400:
            raise Unsupported("call depth")
        self.funcs_run[fn.name] = self.funcs_run.get(fn.name, 0) + 1

    def val(self, st, fr, o):
        if isinstance(o, int):
            try:
                return fr.vals[o]
            except KeyError:
                raise Unsupported("value not available %d in %s" % (o, fr.fn.name))
        k = o[0]
        if k == 'int':
            return o[1]
        if k == 'fp':
            return fpconst(o[1])
        return self.const_val(st, o)

    def run(self, fname):
        t0 = time.time()
        self.t0 = t0
        init = self.start(fname)
        if self.o['merge'] == 'auto':
            try:
                work = [init.copy()]
                while work:
                    st = work.pop()
                    if self.stats['paths'] > self.o['auto_paths'] or self.stats['steps'] > self.o['auto_steps']:
                        raise TooMany()
                    work.extend(reversed(self.run_state(st, None)))
            except TooMany:
                # too many paths: start again, joining states at control-flow joins
                self.obls = []
                self.covers = {}
                self.stats['paths'] = self.stats['steps'] = 0
                self.stats['automerge'] = 1
                self.run_merge(init)
        elif self.o['merge']:
            self.run_merge(init)
        else:
            work = [init]
            while work:
                st = work.pop()
                self.check_budget()
                out = self.run_state(st, None)
                work.extend(reversed(out))
        self.stats['secs'] = time.time() - t0

    def check_budget(self):
        if time.time() - self.t0 > self.o['deadline']:
            raise Unsupported("symbolic execution time budget exceeded")
        if self.stats['paths'] > self.o['max_paths']:
            raise Unsupported("path budget exceeded")

    def skey(self, st):
        k = ()
        for f in st.frames[:-1]:
            k += f.fn.info.key(f) + (f.ip,)
        f = st.frames[-1]
        return k + f.fn.info.key(f) + (f.ip,)

    def locid(self, st):
        out = []
        for f in st.frames:
            out.append((f.fn.name, f.bb, f.ip, tuple(sorted((h, n) for h, n in f.iters.items() if f.bb in f.fn.info.loops[h]))))
        return tuple(out)

    def run_merge(self, init):
        import heapq
        pend = {}
        heap = []
        cnt = 0

        def add(st):
            nonlocal cnt
            lid = self.locid(st)
            if st.sticky:
                # forked inside a block on a value: merging here would only rebuild the value
                lid = lid + ('s', cnt)
            if lid in pend:
                m = self.merge(pend[lid], st)
                if m is not None:
                    pend[lid] = m
                    self.stats['merged'] += 1
                    return
                lid = lid + (cnt,)
            pend[lid] = st
            cnt += 1
            heapq.heappush(heap, (self.skey(st), cnt, lid))
        add(init)
        while heap:
            _, _, lid = heapq.heappop(heap)
            st = pend.pop(lid)
            st.sticky = False
            self.check_budget()
            for s in self.run_state(st, True):
                add(s)

    def merge(self, a, b):
        # common prefix of path conditions
        n = 0
        while n < len(a.pc) and n < len(b.pc) and (a.pc[n] is b.pc[n] or a.pc[n].eq(b.pc[n])):
            n += 1
        ra, rb = a.pc[n:], b.pc[n:]
        # definitional facts (q*b==a, sqrt) may be kept unconditionally when guarded by nothing: keep them in the disjuncts
        ca = z3.And(*ra) if len(ra) > 1 else (ra[0] if ra else z3.BoolVal(True))
        cb = z3.And(*rb) if len(rb) > 1 else (rb[0] if rb else z3.BoolVal(True))
        if not ra or not rb:
            return None
        # discriminating condition: first differing element if complementary, else ca
        if ra[0].eq(b_not(rb[0])) or rb[0].eq(b_not(ra[0])):
            g = ra[0]
        else:
            g = self.fresh_bool('sel')
            ca = z3.And(g, ca)
            cb = z3.And(z3.Not(g), cb)
        m = State(); m.sticky = False
        try:
            m.frames = []
            for fa, fb in zip(a.frames, b.frames):
                f = fa.copy()
                if fa.prev != fb.prev and fa is a.frames[-1] and fa.ip == 0:
                    pass
                f.allocas = list(dict.fromkeys(fa.allocas + fb.allocas))
                nv = {}
                for k, va in fa.vals.items():
                    vb = fb.vals.get(k)
                    if vb is None or k not in fb.vals:
                        continue
                    nv[k] = self.mval(g, va, vb)
                f.vals = nv
                m.frames.append(f)
            m.mem = {}
            m.owned = set()
            for rid, r in a.mem.items():
                q = b.mem.get(rid)
                if q is None or q is r:
                    m.mem[rid] = r
                    continue
                if r.freed != q.freed:
                    return None
                if r.fill != q.fill or r.size != q.size:
                    return None
                nr = r.copy()
                same = True
                for o, c in r.cells.items():
                    d = q.cells.get(o)
                    if d is None:
                        # other side: unwritten / split
                        if any(x < o + c[0] and x + e[0] > o for x, e in q.cells.items()):
                            return None
                        if q.fill is not None:
                            return None
                        continue
                    if d[0] != c[0]:
                        return None
                    if d[1] is not c[1]:
                        nr.cells[o] = (c[0], self.mval(g, c[1], d[1], c[0]))
                for o, d in q.cells.items():
                    if o not in r.cells:
                        if any(x < o + d[0] and x + e[0] > o for x, e in r.cells.items()):
                            return None
                        if r.fill is not None:
                            return None
                        nr.cells[o] = d
                m.mem[rid] = nr
            for rid, q in b.mem.items():
                if rid not in m.mem:
                    m.mem[rid] = q
        except NoMerge:
            return None
        m.pc = a.pc[:n] + [z3.Or(ca, cb)]
        m.inputs = a.inputs if len(a.inputs) >= len(b.inputs) else b.inputs
        m.ghost = dict(a.ghost)
        for k, v in b.ghost.items():
            if k in a.ghost and a.ghost[k] is not v and a.ghost[k] != v:
                return None
            m.ghost[k] = v
        m.trail = a.trail
        m.steps = max(a.steps, b.steps)
        m.path = a.path
        m.defs = None
        return m

    def mval(self, g, a, b, nbytes=None):
        if a is b:
            return a
        if isinstance(a, list):
            return [self.mval(g, x, y) for x, y in zip(a, b)]
        if isinstance(a, int) and isinstance(b, int):
            if a == b:
                return a
            if nbytes is None:
                # width unknown from the value: use a marker for ints
                w = max(a.bit_length(), b.bit_length(), 1)
                raise NoMerge() if not self.o.get('merge_ints') else NoMerge()
            return z3.If(g, z3.BitVecVal(a, 8 * nbytes), z3.BitVecVal(b, 8 * nbytes))
        if type(a) is Ptr and type(b) is Ptr and a == b:
            return a
        r = self.ite(g, a, b)
        if r is None:
            raise NoMerge()
        return r

    def jump(self, st, fr, nb):
        """transfer control to block nb of the current frame; evaluates phis"""
        info = fr.fn.info
        cur = fr.bb
        blk = fr.fn.blocks[nb]
        if nb in info.loops:
            if cur in info.loops[nb]:
                fr.iters[nb] = fr.iters.get(nb, 0) + 1
                if fr.iters[nb] > self.o['unwind']:
                    self.on_unwind(st, fr, nb)
            else:
                fr.iters[nb] = 0
        if blk.phis:
            vals = [self.val(st, fr, ph.a[cur]) for ph in blk.phis]
            for ph, v in zip(blk.phis, vals):
                fr.vals[ph.id] = v
        fr.prev = cur
        fr.bb = nb
        fr.ip = 0

    def on_unwind(self, st, fr, nb):
        raise Unsupported(f"loop in {self.short(fr.fn.name)} exceeds {self.o['unwind']} iterations")

    def run_state(self, st, merge):
        """run until fork / end / (merge mode) block boundary; returns successor states"""
        while True:
            fr = st.frames[-1]
            insts = fr.fn.blocks[fr.bb].insts
            if fr.ip >= len(insts):
                raise Unsupported(f"no instruction {fr.ip} in block {fr.bb} of {fr.fn.name}: last is {insts[-1].op}")
            I = insts[fr.ip]
            st.steps += 1
            self.stats['steps'] += 1
            if st.steps > self.o['max_steps']:
                raise Unsupported("step budget exceeded")
            try:
                r = self.step(st, fr, I)
            except Fork as f:
                out = []
                for i, (c, fn) in enumerate(f.alts):
                    if not self.feasible(st, c):
                        continue
                    s = st.copy()
                    if not isinstance(c, int):
                        s.pc.extend(conjuncts(c))
                    s.path = st.path + chr(97 + i) if len(f.alts) < 26 else st.path + f".{i}"
                    fn(s)
                    g = s.frames[-1] if s.frames else None
                    s.sticky = len(s.frames) == len(st.frames) and g.bb == fr.bb and g.ip == fr.ip
                    out.append(s)
                self.stats['forks'] += 1
                return out
            except Kill:
                self.stats['killed'] += 1
                return []
            except Done:
                self.stats['paths'] += 1
                return []
            except (NullDeref, MemErr) as e:
                self.obls.append(Obligation(f"memory safety: {e} in {self.short(fr.fn.name)}", list(st.pc), z3.BoolVal(False), list(st.inputs), st.path, 'memory'))
                self.stats['paths'] += 1
                return []
            except Unsupported as e:
                if not getattr(e, 'loc', None):
                    e.loc = self.short(fr.fn.name)
                    e.args = (f"{e.args[0]} [in {e.loc}, {I.op}]",)
                raise
            if r is not None:
                return r
            if merge and st.frames and st.frames[-1].ip == 0 and self.merge_point(st):
                return [st]

    def merge_point(self, st):
        return True

    def branch(self, st, cond, tgt):
        """tgt: function(state, taken) performing the jump"""
        if isinstance(cond, Undef):
            cond = self.fresh_bool('undef')
        if isinstance(cond, int):
            tgt(st, bool(cond))
            return None
        if isinstance(cond, z3.BitVecRef):
            cond = B(cond)
        c = self.simpb(cond)
        if isinstance(c, int):
            tgt(st, bool(c))
            return None
        nc = b_not(cond)
        for p in st.pc:
            if p.eq(cond):
                tgt(st, True)
                return None
            if p.eq(nc):
                tgt(st, False)
                return None
        ft = self.feasible(st, cond)
        ff = self.feasible(st, nc)
        if ft and not ff:
            tgt(st, True)
            return None
        if ff and not ft:
            tgt(st, False)
            return None
        if not ft and not ff:
            raise Kill()
        self.stats['forks'] += 1
        s2 = st.copy()
        st.pc.append(cond)
        st.path += 't'
        s2.pc.append(nc)
        s2.path += 'f'
        out = []
        for s, tk in ((st, True), (s2, False)):
            tgt(s, tk)
            out.append(s)
        return out

    def step(self, st, fr, I):
        op = I.op
        V = fr.vals
        if op == 'load':
            p = self.val(st, fr, I.a[0])
            if isinstance(I.a[0], int):
                self.need_concrete_ptr(st, I.a[0], p)
            V[I.id] = self.load(st, p, I.ty)
        elif op == 'store':
            p = self.val(st, fr, I.a[1])
            if isinstance(I.a[1], int):
                self.need_concrete_ptr(st, I.a[1], p)
            self.store(st, p, self.val(st, fr, I.a[0]), I.x[0])
        elif op == 'gep':
            p = self.val(st, fr, I.a[0])
            ty, its = I.x
            V[I.id] = self.gep(st, p, ty, [self.val(st, fr, a) for a in I.a[1:]], its[1:])
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a = self.val(st, fr, I.a[0])
            b = self.val(st, fr, I.a[1])
            if I.ty.k == 'vector':
                V[I.id] = [self.fop(st, op, x, y) for x, y in zip(a, b)]
            else:
                V[I.id] = self.fop(st, op, a, b)
        elif op == 'fcmp':
            a = self.val(st, fr, I.a[0])
            b = self.val(st, fr, I.a[1])
            pred, t = I.x
            if t.k == 'vector':
                V[I.id] = [self.fcmp(pred, self.rr(x), self.rr(y)) for x, y in zip(a, b)]
            else:
                V[I.id] = self.fcmp(pred, self.rr(a), self.rr(b))
        elif op == 'icmp':
            a = self.val(st, fr, I.a[0])
            b = self.val(st, fr, I.a[1])
            pred, t = I.x
            if t.k == 'vector':
                V[I.id] = [self.icmp(pred, x, y, t.elts[0]) for x, y in zip(a, b)]
            else:
                V[I.id] = self.icmp(pred, a, b, t)
        elif op == 'br':
            if not I.a:
                self.jump(st, fr, I.x[0])
                return None
            c = self.val(st, fr, I.a[0])
            x = I.x
            return self.branch(st, c, lambda s, tk: self.jump(s, s.frames[-1], x[0] if tk else x[1]))
        elif op in ('call', 'invoke'):
            return self.call(st, fr, I)
        elif op == 'ret':
            v = self.val(st, fr, I.a[0]) if I.a else None
            return self.ret(st, v)
        elif op == 'select':
            c = self.val(st, fr, I.a[0])
            a = self.val(st, fr, I.a[1])
            b = self.val(st, fr, I.a[2])
            if isinstance(c, list):
                V[I.id] = [self.ite_t(self.cb(ci), x, y, I.ty.elts[0]) for ci, x, y in zip(c, a, b)]
            else:
                c = self.cb(c)
                if not isinstance(c, int):
                    # decided by the path condition?
                    nc = b_not(c)
                    for p in st.pc:
                        if p.eq(c):
                            c = 1
                            break
                        if p.eq(nc):
                            c = 0
                            break
                r = self.ite_t(c, a, b, I.ty)
                if r is None:
                    cc = c

                    def mk(v):
                        def f(s):
                            s.frames[-1].vals[I.id] = v
                            s.frames[-1].ip += 1
                        return f
                    raise Fork([(cc, mk(a)), (b_not(cc), mk(b))])
                V[I.id] = r
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a = self.val(st, fr, I.a[0])
            b = self.val(st, fr, I.a[1])
            if I.ty.k == 'vector':
                V[I.id] = [self.binop_int(op, x, y, I.ty.elts[0].w) for x, y in zip(a, b)]
            else:
                V[I.id] = self.binop_int(op, a, b, I.ty.w)
        elif op == 'fneg':
            a = self.val(st, fr, I.a[0])
            V[I.id] = [self.fneg(self.rr(x)) for x in a] if isinstance(a, list) else self.fneg(self.rr(a))
        elif op == 'alloca':
            n = self.val(st, fr, I.a[0])
            if not isinstance(n, int):
                raise Unsupported("variable-size alloca")
            rid = self.new_region(st, I.x.size * n, 'stack', None, 'stack')
            fr.allocas.append(rid)
            V[I.id] = Ptr(rid, 0)
        elif op in ('zext', 'sext', 'trunc'):
            a = self.val(st, fr, I.a[0])
            if I.ty.k == 'vector':
                V[I.id] = [self.ext(op, x, I.x[0].elts[0].w, I.ty.elts[0].w) for x in a]
            else:
                V[I.id] = self.ext(op, a, I.x[0].w, I.ty.w)
        elif op == 'switch':
            c = self.val(st, fr, I.a[0])
            dflt, cases = I.x
            if isinstance(c, int):
                for v, b in cases:
                    if v == c:
                        self.jump(st, fr, b)
                        return None
                self.jump(st, fr, dflt)
                return None
            if isinstance(c, Undef):
                raise Unsupported("switch on undef")
            alts = []

            def mk(b):
                return lambda s: self.jump(s, s.frames[-1], b)
            neg = []
            for v, b in cases:
                e = c == z3.BitVecVal(v, c.size())
                alts.append((e, mk(b)))
                neg.append(z3.Not(e))
            alts.append((z3.And(*neg), mk(dflt)))
            raise Fork(alts)
        elif op in ('sitofp', 'uitofp'):
            a = self.val(st, fr, I.a[0])
            V[I.id] = [self.itof(op, x, I.x[0].elts[0].w) for x in a] if I.ty.k == 'vector' else self.itof(op, a, I.x[0].w)
        elif op in ('fptosi', 'fptoui'):
            a = self.rr(self.val(st, fr, I.a[0]))
            V[I.id] = self.ftoi(st, op, a, I.ty.w)
        elif op == 'fpext':
            V[I.id] = self.val(st, fr, I.a[0])
        elif op == 'fptrunc':
            a = self.val(st, fr, I.a[0])
            V[I.id] = [self.fptrunc(st, x) for x in a] if isinstance(a, list) else self.fptrunc(st, a)
        elif op == 'bitcast':
            a = self.val(st, fr, I.a[0])
            V[I.id] = self.bitcast(st, a, I.x[0], I.ty)
        elif op == 'ptrtoint':
            V[I.id] = self.ptrtoint(self.val(st, fr, I.a[0]))
        elif op == 'inttoptr':
            V[I.id] = self.inttoptr(self.val(st, fr, I.a[0]))
        elif op == 'extractvalue':
            a = self.val(st, fr, I.a[0])
            for k in I.x:
                a = a[k]
            V[I.id] = a
        elif op == 'insertvalue':
            a = self.val(st, fr, I.a[0])
            v = self.val(st, fr, I.a[1])

            def ins(agg, idx):
                l = list(agg)
                l[idx[0]] = v if len(idx) == 1 else ins(l[idx[0]], idx[1:])
                return l
            V[I.id] = ins(a, I.x)
        elif op == 'extractelement':
            a = self.val(st, fr, I.a[0])
            i = self.val(st, fr, I.a[1])
            if not isinstance(i, int):
                raise Unsupported("symbolic vector index")
            V[I.id] = a[i]
        elif op == 'insertelement':
            a = list(self.val(st, fr, I.a[0]))
            i = self.val(st, fr, I.a[2])
            a[i] = self.val(st, fr, I.a[1])
            V[I.id] = a
        elif op == 'shufflevector':
            a = self.val(st, fr, I.a[0])
            b = self.val(st, fr, I.a[1])
            c = list(a) + list(b)
            V[I.id] = [UNDEF if k < 0 else c[k] for k in I.x]
        elif op == 'freeze':
            a = self.val(st, fr, I.a[0])
            if isinstance(a, Undef):
                a = self.resolve_undef(I.ty)
            V[I.id] = a
        elif op == 'unreachable':
            raise Kill()
        elif op == 'landingpad' or op == 'resume':
            raise Kill()
        elif op == 'fence':
            pass
        elif op == 'atomicrmw':
            p = self.val(st, fr, I.a[0])
            old = self.load(st, p, I.ty)
            v = self.val(st, fr, I.a[1])
            k = {0: None, 1: 'add', 2: 'sub', 3: 'and', 5: 'or', 6: 'xor'}.get(I.x, '?')
            if k == '?':
                raise Unsupported("atomicrmw")
            self.store(st, p, v if k is None else self.binop_int(k, old, v, I.ty.w), I.ty)
            V[I.id] = old
        elif op == 'cmpxchg':
            p = self.val(st, fr, I.a[0])
            t = I.x[1]
            old = self.load(st, p, t)
            exp = self.val(st, fr, I.a[1])
            new = self.val(st, fr, I.a[2])
            e = self.icmp('eq', old, exp, t)
            if not isinstance(e, int):
                raise Unsupported("symbolic cmpxchg")
            if e:
                self.store(st, p, new, t)
            V[I.id] = [old, e]
        elif op == 'frem':
            a, b = self.val(st, fr, I.a[0]), self.val(st, fr, I.a[1])
            if isinstance(a, Fraction) and isinstance(b, Fraction):
                V[I.id] = Fraction(math.fmod(a, b))
            else:
                raise Unsupported("frem")
        else:
            raise Unsupported("instruction " + op)
        fr.ip += 1
        return None

    def cb(self, c):
        if isinstance(c, Undef):
            return self.fresh_bool('undef')
        if isinstance(c, z3.BitVecRef):
            return self.simpb(B(c))
        return c

    def rr(self, v):
        if isinstance(v, Undef):
            return self.fresh_real('undef')
        return v

    def fop(self, st, op, a, b):
        a, b = self.rr(a), self.rr(b)
        if op == 'fadd':
            return self.fadd(a, b)
        if op == 'fsub':
            return self.fsub(a, b)
        if op == 'fmul':
            return self.fmul(a, b)
        return self.fdiv(st, a, b)

    def ext(self, op, a, w0, w1):
        if isinstance(a, int):
            if op == 'zext':
                return a
            if op == 'sext':
                return sgn(a, w0) & ((1 << w1) - 1)
            return a & ((1 << w1) - 1)
        if isinstance(a, Undef):
            return self.fresh_bv('undef', w1) if w1 > 1 else self.fresh_bool('undef')
        if isinstance(a, (PInt, Bits)):
            if op == 'trunc' and w1 == 1 and isinstance(a, PInt):
                return a.p.o & 1
            raise Unsupported(op + " of address/bits")
        if w0 == 1:
            a = B(a)
            if op == 'zext':
                return z3.If(a, z3.BitVecVal(1, w1), z3.BitVecVal(0, w1))
            return z3.If(a, z3.BitVecVal((1 << w1) - 1, w1), z3.BitVecVal(0, w1))
        if op == 'zext' and boolish(a) is not None:
            return bv01(boolish(a), w1)
        if op == 'zext':
            r = z3.ZeroExt(w1 - w0, a)
        elif op == 'sext':
            r = z3.SignExt(w1 - w0, a)
        else:
            b = boolish(a)
            if b is not None:
                return b if w1 == 1 else bv01(b, w1)
            if w1 == 1:
                return self.simpb(z3.Extract(0, 0, a) == z3.BitVecVal(1, 1))
            r = z3.Extract(w1 - 1, 0, a)
        r = z3.simplify(r)
        return r.as_long() if z3.is_bv_value(r) else r

    def fptrunc(self, st, a):
        """double -> float: any value within half a unit in the last place (relative 2^-24); under/overflow not modelled"""
        if isinstance(a, (Special, Undef)):
            return a
        if isinstance(a, Fraction):
            import struct
            try:
                return Fraction(struct.unpack('f', struct.pack('f', float(a)))[0])
            except OverflowError:
                return PINF if a > 0 else NINF
        if isinstance(a, z3.ArithRef):
            y = self.fresh_real('f32')
            m = self.fabs(a)
            e = R(Fraction(1, 1 << 24))
            st.pc.append(y - a <= e * m)
            st.pc.append(a - y <= e * m)
            return y
        return a

    def itof(self, op, a, w):
        if isinstance(a, int):
            return Fraction(sgn(a, w) if op == 'sitofp' else a)
        if isinstance(a, Undef):
            return self.fresh_real('undef')
        if z3.is_bool(a):
            return z3.If(a, z3.RealVal(1 if op == 'uitofp' else -1), z3.RealVal(0))
        return z3.ToReal(z3.BV2Int(a, op == 'sitofp'))

    def ftoi(self, st, op, a, w):
        if isinstance(a, Fraction):
            v = int(a)
            return v & ((1 << w) - 1)
        if isinstance(a, Special):
            return self.fresh_bv('fptoi', w)
        # truncation toward zero: fresh bv k with its integer value bracketed
        k = self.fresh_bv('fptoi', w)
        iv = z3.ToReal(z3.BV2Int(k, op == 'fptosi'))
        lim = Fraction(1 << (w - 1)) if op == 'fptosi' else Fraction(1 << w)
        self.defined(st, z3.And(a < R(lim), a > (R(-lim - 1) if op == 'fptosi' else -1)), 'float-to-int overflow')
        st.pc.append(z3.If(a >= 0, z3.And(iv <= a, a < iv + 1), z3.And(iv >= a, a > iv - 1)))
        return k

    def bitcast(self, st, a, t0, t1):
        if t0.k == t1.k and t0.w == t1.w and t0.k != 'vector':
            return a
        if t1.k in ('double', 'float') or t1.k == 'int':
            if t0.k == 'vector':
                rid = self.new_region(st, t0.size, 'bitcast', None, 'stack')
                self.store(st, Ptr(rid, 0), a, t0)
                return self.load(st, Ptr(rid, 0), t1)
            return self.retype(st, None, a, t1)
        if t1.k == 'vector':
            rid = self.new_region(st, t0.size, 'bitcast', None, 'stack')
            self.store(st, Ptr(rid, 0), a, t0)
            return self.load(st, Ptr(rid, 0), t1)
        raise Unsupported(f"bitcast {t0.k}->{t1.k}")

    def ret(self, st, v):
        fr = st.frames.pop()
        for rid in fr.allocas:
            st.mem.pop(rid, None)
            st.owned.discard(rid)
        if not st.frames:
            self.end_path(st)
            raise Done()
        up = st.frames[-1]
        if fr.retid is not None:
            up.vals[fr.retid] = v
        if fr.normal is not None:
            self.jump(st, up, fr.normal)
        else:
            up.ip += 1
        return None

    def end_path(self, st):
        pass

    def cstr(self, st, p):
        out = []
        r = st.mem[p.r]
        o = p.o
        i = 0
        ch = self.load_bytes(st, p, 512)
        return ch

    def load_bytes(self, st, p, lim):
        r = st.mem[p.r]
        s = ''
        for i in range(lim):
            c = r.cells.get(p.o + i)
            v = c[1] if c else r.fill
            if not isinstance(v, int) or v == 0:
                break
            s += chr(v)
        return s

    def call(self, st, fr, I):
        callee, normal = I.x
        t = self.val(st, fr, callee) if not (isinstance(callee, tuple) and callee[0] == 'meta') else None
        if t is None:
            raise Unsupported("inline asm")
        if isinstance(t, PIte):
            if isinstance(callee, int):
                self.need_concrete_ptr(st, callee, t)
        if not isinstance(t, FPtr):
            if isinstance(t, Ptr) and t.r == 0:
                raise NullDeref("call through null")
            raise Unsupported(f"indirect call through {t!r}")
        name = t.name
        args = [None if (isinstance(a, tuple) and a[0] == 'meta') else self.val(st, fr, a) for a, ty in I.a]
        return self.do_call(st, fr, I, name, args, normal)

    def done_call(self, st, fr, I, v, normal):
        if v is not None:
            fr.vals[I.id] = v
        if normal is not None:
            self.jump(st, fr, normal)
        else:
            fr.ip += 1
        return None

    def do_call(self, st, fr, I, name, args, normal):
        rep = self.replace.get(name)
        if rep is not None and not st.ghost.get(('inreal', name)):
            # nest: the outermost call runs the real body, the calls made while it runs are replaced
            if name not in self.nest or any(f.fn.name == name for f in st.frames):
                name = rep
        if name.startswith('__lcv_') or name.startswith('llvm.') or name in EXT:
            r = self.intrinsic(st, fr, I, name, args, normal)
            return r
        fn = self.m.funcs.get(name)
        if fn is None or fn.decl:
            if name in self.m.aliases:
                c = self.m.const(self.m.aliases[name])
                return self.do_call(st, fr, I, c[1], args, normal)
            if IGNORE_EXT.match(name):
                v = None
                if I.ty.k == 'ptr':
                    v = args[0] if args else NULL
                elif I.ty.k != 'void':
                    v = self.resolve_undef(I.ty)
                return self.done_call(st, fr, I, v, normal)
            return self.external(st, fr, I, name, args, normal)
        # need concrete pointer args? lazily on use
        st_ret = I.id if I.ty.k != 'void' else None
        nfr = len(st.frames)
        self.push(st, fn, args, st_ret, normal)
        return None

    def external(self, st, fr, I, name, args, normal):
        raise Unsupported("call to external function " + name)

    def throw(self, st, what):
        mode = st.ghost.get('throw', self.o['throw'])
        if mode == 'forbid':
            self.obls.append(Obligation(f"no exception: {what} in {self.short(st.frames[-1].fn.name)}", list(st.pc), z3.BoolVal(False), list(st.inputs), st.path, 'throw'))
        else:
            self.assumed.add("paths that throw are outside the contract (they do not return)")
        raise Done()

    def intrinsic(self, st, fr, I, name, args, normal):
        f = EXT.get(name)
        if f is None:
            base = name
            if name.startswith('llvm.'):
                parts = name.split('.')
                for k in range(len(parts), 1, -1):
                    f = EXT.get('.'.join(parts[:k]))
                    if f:
                        break
                if f is None and IGNORE_EXT.match(name):
                    return self.done_call(st, fr, I, None, normal)
        if f is None:
            raise Unsupported("intrinsic " + name)
        r = f(self, st, fr, I, args)
        if isinstance(r, Forked):
            return r.states
        return self.done_call(st, fr, I, r, normal)


class Forked:
    def __init__(s, states):
        s.states = states


class NoMerge(Exception):
    pass


class Done(Exception):
    pass


class NullDeref(Exception):
    def __str__(s):
        return "null dereference (" + str(s.args[0]) + ")"


class MemErr(Exception):
    pass


EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


def vec1(f):
    def g(E, st, fr, I, a):
        x = a[0]
        if isinstance(x, list):
            return [f(E, st, E.rr(y)) for y in x]
        return f(E, st, E.rr(x))
    return g


EXT['sqrt'] = EXT['sqrtf'] = EXT['llvm.sqrt'] = vec1(lambda E, st, x: E.fsqrt(st, x))
EXT['fabs'] = EXT['fabsf'] = EXT['llvm.fabs'] = vec1(lambda E, st, x: E.fabs_pc(st, x))


@ext('llvm.minnum', 'llvm.minimum', 'fmin', 'fminf')
def _fmin(E, st, fr, I, a):
    def m(x, y):
        c = E.fcmp('olt', x, y)
        r = E.ite(c, x, y)
        if r is None:
            raise Unsupported('min of special')
        return r
    return [m(x, y) for x, y in zip(*a)] if isinstance(a[0], list) else m(a[0], a[1])


@ext('llvm.maxnum', 'llvm.maximum', 'fmax', 'fmaxf')
def _fmax(E, st, fr, I, a):
    def m(x, y):
        c = E.fcmp('ogt', x, y)
        r = E.ite(c, x, y)
        if r is None:
            raise Unsupported('max of special')
        return r
    return [m(x, y) for x, y in zip(*a)] if isinstance(a[0], list) else m(a[0], a[1])


@ext('llvm.copysign', 'copysign')
def _copysign(E, st, fr, I, a):
    m = E.fabs(a[0])
    c = E.fcmp('olt', a[1], F0)
    return E.ite(c, E.fneg(m), m)


@ext('llvm.fmuladd', 'llvm.fma', 'fma')
def _fma(E, st, fr, I, a):
    return E.fadd(E.fmul(a[0], a[1]), a[2])


def _trig(E, st, x):
    """(sin, cos) of x as a pair of reals with s^2+c^2=1 (nothing else assumed)"""
    if isinstance(x, Fraction):
        if x == 0:
            return F0, F1
        key = ('trigc', x)
    else:
        s = z3.simplify(x, som=True)
        if z3.is_rational_value(s):
            return _trig(E, st, Fraction(s.numerator_as_long(), s.denominator_as_long()))
        key = ('trig', s.get_id())
        E._keep.append(s)
    r = E.trig_cache.get(key)
    if r is None:
        # odd/even symmetry: look for the negated argument
        r = (E.fresh_real('sin'), E.fresh_real('cos'))
        if not isinstance(x, Fraction):
            n = z3.simplify(-x, som=True)
            rn = E.trig_cache.get(('trig', n.get_id()))
            if rn is not None:
                r = (-rn[0], rn[1])
        E.trig_cache[key] = r
        E.trig_cache[('def',) + key] = r[0] * r[0] + r[1] * r[1] == 1
    E.add_def(st, E.trig_cache[('def',) + key])
    return r


EXT['sin'] = EXT['llvm.sin'] = vec1(lambda E, st, x: _trig(E, st, x)[0])
EXT['cos'] = EXT['llvm.cos'] = vec1(lambda E, st, x: _trig(E, st, x)[1])


@ext('sincos')
def _sincos(E, st, fr, I, a):
    s, c = _trig(E, st, a[0])
    E.store(st, a[1], s, DBL)
    E.store(st, a[2], c, DBL)


@ext('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')
def _iminmax(E, st, fr, I, a):
    raise Unsupported('iminmax')


def _mk_iminmax(pred):
    def f(E, st, fr, I, a):
        c = E.icmp(pred, a[0], a[1], I.ty)
        return E.ite_t(c, a[0], a[1], I.ty)
    return f


EXT['llvm.umin'] = _mk_iminmax('ult')
EXT['llvm.umax'] = _mk_iminmax('ugt')
EXT['llvm.smin'] = _mk_iminmax('slt')
EXT['llvm.smax'] = _mk_iminmax('sgt')


@ext('llvm.abs')
def _iabs(E, st, fr, I, a):
    w = I.ty.w
    x = a[0]
    if isinstance(x, int):
        return abs(sgn(x, w)) & ((1 << w) - 1)
    return z3.If(x < 0, -x, x)


@ext('llvm.ctpop')
def _ctpop(E, st, fr, I, a):
    if isinstance(a[0], int):
        return bin(a[0]).count('1')
    w = I.ty.w
    return z3.simplify(sum([z3.ZeroExt(w - 1, z3.Extract(i, i, a[0])) for i in range(w)], z3.BitVecVal(0, w)))


@ext('llvm.ctlz')
def _ctlz(E, st, fr, I, a):
    w = I.ty.w
    if isinstance(a[0], int):
        return w - a[0].bit_length()
    r = z3.BitVecVal(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, a[0]) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return r


@ext('llvm.cttz')
def _cttz(E, st, fr, I, a):
    w = I.ty.w
    if isinstance(a[0], int):
        return (a[0] & -a[0]).bit_length() - 1 if a[0] else w
    r = z3.BitVecVal(w, w)
    for i in reversed(range(w)):
        r = z3.If(z3.Extract(i, i, a[0]) == 1, z3.BitVecVal(i, w), r)
    return r


@ext('llvm.fshl')
def _fshl(E, st, fr, I, a):
    w = I.ty.w
    s = a[2]
    if not isinstance(s, int):
        raise Unsupported('fshl')
    s %= w
    if s == 0:
        return a[0]
    return E.binop_int('or', E.binop_int('shl', a[0], s, w), E.binop_int('lshr', a[1], w - s, w), w)


def _ovf(op, signed):
    def f(E, st, fr, I, a):
        t = I.ty.elts[0]
        r = E.binop_int(op, a[0], a[1], t.w)
        if isinstance(a[0], int) and isinstance(a[1], int):
            x, y = (sgn(a[0], t.w), sgn(a[1], t.w)) if signed else (a[0], a[1])
            z = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
            ok = -(1 << (t.w - 1)) <= z < (1 << (t.w - 1)) if signed else 0 <= z < (1 << t.w)
            return [r, int(not ok)]
        raise Unsupported('overflow intrinsic')
    return f


for _o in ('add', 'sub', 'mul'):
    EXT[f'llvm.u{_o}.with.overflow'] = _ovf(_o, False)
    EXT[f'llvm.s{_o}.with.overflow'] = _ovf(_o, True)


def _satsub(E, st, fr, I, a):
    c = E.icmp('ugt', a[0], a[1], I.ty)
    return E.ite_t(c, E.binop_int('sub', a[0], a[1], I.ty.w), 0, I.ty)


EXT['llvm.usub.sat'] = _satsub


@ext('llvm.is.constant')
def _isc(E, st, fr, I, a):
    return 0


@ext('llvm.expect')
def _expect(E, st, fr, I, a):
    return a[0]


@ext('llvm.objectsize')
def _objsz(E, st, fr, I, a):
    return (1 << 64) - 1


@ext('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')
def _memcpy(E, st, fr, I, a):
    n = a[2]
    for k in (0, 1):
        o = I.a[k][0]
        if isinstance(o, int):
            E.need_concrete_ptr(st, o, a[k])
    if not isinstance(n, int):
        o = I.a[2][0]
        alts = []
        for v, vc in E.enum_conds(st, n, 64):
            def mk(v=v):
                def f(s):
                    s.frames[-1].vals[o] = v
                return f
            alts.append((vc, mk()))
        raise Fork(alts)
    E.memcpy(st, a[0], a[1], n)
    return a[0] if I.ty.k == 'ptr' else None


@ext('llvm.memset', 'memset')
def _memset(E, st, fr, I, a):
    if not isinstance(a[2], int) or not isinstance(a[1], int):
        raise Unsupported('symbolic memset')
    o = I.a[0][0]
    if isinstance(o, int):
        E.need_concrete_ptr(st, o, a[0])
    E.memset(st, a[0], a[1], a[2])
    return a[0] if I.ty.k == 'ptr' else None


@ext('memcmp', 'bcmp')
def _memcmp(E, st, fr, I, a):
    n = a[2]
    if not isinstance(n, int):
        raise Unsupported('memcmp')
    if n == 0:
        return 0
    x = E.load_bytes_n(st, a[0], n)
    y = E.load_bytes_n(st, a[1], n)
    for p, q in zip(x, y):
        if p != q:
            return 1 if p > q else 0xffffffff
    return 0


def _lbn(self, st, p, n):
    r = self.deref(st, p, 'memcmp')
    out = []
    t = I8
    for i in range(n):
        v = self.load(st, Ptr(p.r, p.o + i), I8)
        if not isinstance(v, int):
            raise Unsupported('memcmp of symbolic bytes')
        out.append(v)
    return out


Engine.load_bytes_n = _lbn


@ext('strlen')
def _strlen(E, st, fr, I, a):
    return len(E.load_bytes(st, a[0], 4096))


class _T:
    pass


def mkty(k, w, size):
    from llvmir import Ty
    t = Ty()
    t.k = k
    t.w = w
    t.elts = t.offs = None
    t.n = 0
    t.size = t.ssize = size
    return t


I8 = mkty('int', 8, 1)
I32 = mkty('int', 32, 4)
I64 = mkty('int', 64, 8)
DBL = mkty('double', 64, 8)
PTR = mkty('ptr', 64, 8)


@ext('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnwmRKSt9nothrow_t', 'aligned_alloc_')
def _new(E, st, fr, I, a):
    n = a[0]
    if not isinstance(n, int):
        o = I.a[0][0]
        alts = []
        for v, vc in E.enum_conds(st, n, 64):
            def mk(v=v):
                def f(s):
                    s.frames[-1].vals[o] = v
                return f
            alts.append((vc, mk()))
        raise Fork(alts)
    if n > (1 << 40):
        E.throw(st, 'bad_alloc')
    return Ptr(E.new_region(st, n, 'heap', None, 'heap'), 0)


@ext('calloc')
def _calloc(E, st, fr, I, a):
    if not isinstance(a[0], int) or not isinstance(a[1], int):
        raise Unsupported('calloc')
    return Ptr(E.new_region(st, a[0] * a[1], 'heap', 0, 'heap'), 0)


@ext('realloc')
def _realloc(E, st, fr, I, a):
    if not isinstance(a[1], int):
        raise Unsupported('realloc')
    rid = E.new_region(st, a[1], 'heap', None, 'heap')
    p = a[0]
    if isinstance(p, Ptr) and p.r:
        r = st.mem[p.r]
        E.memcpy(st, Ptr(rid, 0), Ptr(p.r, 0), min(r.size, a[1]))
        st.wr(p.r).freed = True
    return Ptr(rid, 0)


@ext('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _free(E, st, fr, I, a):
    p = a[0]
    o = I.a[0][0]
    if isinstance(o, int):
        E.need_concrete_ptr(st, o, p)
    if isinstance(p, Undef):
        raise MemErr("free of an uninitialised pointer")
    if p.r == 0:
        return None
    r = st.mem.get(p.r)
    if r is None or r.freed:
        raise MemErr("double free of " + (r.name if r else '?'))
    if p.o != 0:
        raise MemErr("free of an interior pointer")
    w = st.wr(p.r)
    w.freed = True
    w.cells = {}
    return None


@ext('__cxa_allocate_exception')
def _cxaalloc(E, st, fr, I, a):
    return Ptr(E.new_region(st, a[0] if isinstance(a[0], int) else 64, 'exception', None, 'heap'), 0)


@ext('__cxa_throw', '__cxa_rethrow', '_ZSt17__throw_bad_allocv', '_ZSt20__throw_length_errorPKc', '_ZSt28__throw_bad_array_new_lengthv',
     '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc', '_ZSt25__throw_bad_function_callv',
     '_ZSt20__throw_out_of_rangePKc', '_ZSt16__throw_bad_castv', '_ZSt9terminatev', 'abort', 'exit', '__assert_fail',
     '__clang_call_terminate', '__cxa_pure_virtual', '_ZSt24__throw_invalid_argumentPKc')
def _throw(E, st, fr, I, a):
    E.throw(st, 'throw/abort')


@ext('__cxa_free_exception', '__cxa_end_catch', '__cxa_guard_abort')
def _nop(E, st, fr, I, a):
    return None


@ext('__cxa_guard_acquire')
def _guard(E, st, fr, I, a):
    v = E.load(st, a[0], I8)
    if v == 0:
        return 1
    return 0


@ext('__cxa_guard_release')
def _guardr(E, st, fr, I, a):
    E.store(st, a[0], 1, I8)


@ext('pow', 'llvm.pow')
def _pow(E, st, fr, I, a):
    x, y = a
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return Fraction(math.pow(x, y))
    if isinstance(y, Fraction) and y.denominator == 1 and 0 <= y <= 8:
        r = F1
        for _ in range(int(y)):
            r = E.fmul(r, x)
        return r
    raise Unsupported('pow')


@ext('llvm.powi')
def _powi(E, st, fr, I, a):
    n = sgn(a[1], 32)
    r = F1
    for _ in range(n):
        r = E.fmul(r, a[0])
    return r


def _cmath(name, fn):
    def g(E, st, fr, I, a):
        if all(isinstance(x, Fraction) for x in a):
            return fpconst(fn(*[float(x) for x in a]))
        raise Unsupported(name + ' of a symbolic argument')
    EXT[name] = g


for _n, _f in (('tan', math.tan), ('acos', math.acos), ('asin', math.asin), ('atan', math.atan), ('atan2', math.atan2), ('exp', math.exp), ('log', math.log), ('cbrt', lambda x: math.copysign(abs(x) ** (1 / 3), x))):
    _cmath(_n, _f)


def _floor(E, st, x, up):
    if isinstance(x, Fraction):
        return Fraction(math.ceil(x) if up else math.floor(x))
    if isinstance(x, Special):
        return x
    i = z3.ToReal(z3.ToInt(x)) if not up else -z3.ToReal(z3.ToInt(-x))
    return i


EXT['floor'] = EXT['llvm.floor'] = vec1(lambda E, st, x: _floor(E, st, x, False))
EXT['ceil'] = EXT['llvm.ceil'] = vec1(lambda E, st, x: _floor(E, st, x, True))


# ---------------------------------------------------------------- contract API
@ext('__lcv_real')
def _lreal(E, st, fr, I, a):
    nm = E.load_bytes(st, a[0], 64)
    k = len(st.inputs)
    v = z3.Real(f"{nm}@{k}")
    st.inputs.append((nm, 'real', v))
    return v


@ext('__lcv_i32', '__lcv_u32')
def _li32(E, st, fr, I, a):
    nm = E.load_bytes(st, a[0], 64)
    v = z3.BitVec(f"{nm}@{len(st.inputs)}", 32)
    st.inputs.append((nm, 'bv32', v))
    return v


@ext('__lcv_u64')
def _li64(E, st, fr, I, a):
    nm = E.load_bytes(st, a[0], 64)
    v = z3.BitVec(f"{nm}@{len(st.inputs)}", 64)
    st.inputs.append((nm, 'bv64', v))
    return v


@ext('__lcv_bool')
def _lbool(E, st, fr, I, a):
    nm = E.load_bytes(st, a[0], 64)
    v = z3.Bool(f"{nm}@{len(st.inputs)}")
    st.inputs.append((nm, 'bool', v))
    return v


@ext('__lcv_choice')
def _lchoice(E, st, fr, I, a):
    nm = E.load_bytes(st, a[0], 64)
    n = a[1]
    out = []
    idx = len(st.inputs)
    for i in range(n):
        s = st.copy() if i < n - 1 else st
        f = s.frames[-1]
        f.vals[I.id] = i
        s.inputs.append((nm, 'int', i))
        s.path += f"[{nm}={i}]"
        E.jump(s, f, I.x[1]) if I.x[1] is not None else setattr(f, "ip", f.ip + 1)
        out.append(s)
    return Forked(out)


@ext('__lcv_split')
def _lsplit(E, st, fr, I, a):
    """case split: returns its argument as a constant on each path"""
    def tgt(s, tk):
        f = s.frames[-1]
        f.vals[I.id] = int(tk)
        E.jump(s, f, I.x[1]) if I.x[1] is not None else setattr(f, "ip", f.ip + 1)
    r = E.branch(st, a[0], tgt)
    return Forked(r if r else [st])


@ext('__lcv_assume')
def _lassume(E, st, fr, I, a):
    c = E.cb(a[0])
    if isinstance(c, int):
        if not c:
            raise Kill()
        return None
    for x in conjuncts(c):
        st.pc.append(x)
    return None


def conjuncts(c):
    if z3.is_and(c):
        out = []
        for x in c.children():
            out.extend(conjuncts(x))
        return out
    return [c]


def _do_assert(E, st, label, c, kind='assert'):
    if isinstance(c, int):
        E.obls.append(Obligation(label, list(st.pc) if not c else [], z3.BoolVal(bool(c)), list(st.inputs), st.path, kind))
        return
    for x in conjuncts(c):
        E.obls.append(Obligation(label, list(st.pc), x, list(st.inputs), st.path, kind))


@ext('__lcv_assert')
def _lassert(E, st, fr, I, a):
    label = E.load_bytes(st, a[1], 200)
    c = E.cb(a[0])
    _do_assert(E, st, label, c)
    return None


@ext('__lcv_lemma')
def _llemma(E, st, fr, I, a):
    label = E.load_bytes(st, a[1], 200)
    c = E.cb(a[0])
    _do_assert(E, st, label, c, 'lemma')
    if isinstance(c, int):
        if not c:
            raise Kill()
    else:
        st.pc.extend(conjuncts(c))
    return None


@ext('__lcv_step')
def _lstep(E, st, fr, I, a):
    """(hyp, concl, label): pc |- hyp ; hyp |- concl (without pc) ; then concl is available"""
    label = E.load_bytes(st, a[2], 200)
    h, c = E.cb(a[0]), E.cb(a[1])
    if not isinstance(h, int):
        hs = []
        for x in conjuncts(h):
            hs.append(x)
            if not any(p.eq(x) for p in st.pc):
                E.obls.append(Obligation(label + ' (hyp)', list(st.pc), x, list(st.inputs), st.path, 'lemma'))
    else:
        hs = [] if h else [z3.BoolVal(False)]
        if not h:
            E.obls.append(Obligation(label + ' (hyp)', list(st.pc), z3.BoolVal(False), list(st.inputs), st.path, 'lemma'))
    if isinstance(c, int):
        c = z3.BoolVal(bool(c))
    for x in conjuncts(c):
        E.obls.append(Obligation(label, hs, x, list(st.inputs), st.path, 'lemma', True))
        st.pc.append(x)
    return None


@ext('__lcv_rule')
def _lrule(E, st, fr, I, a):
    '''a*b == rhs for two variables a, b: proved here; from here on polynomials are normalised with it'''
    if st.path not in ('', 'p'):
        raise Unsupported("__lcv_rule after a branch")
    x, y, z = a[0], a[1], a[2]
    E.canon(x)
    i, j = sorted((E.lin.var(x), E.lin.var(y)))
    assert z3.is_const(x) and z3.is_const(y) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and y.decl().kind() == z3.Z3_OP_UNINTERPRETED
    fact = x * y == R(z)
    E.obls.append(Obligation('product rule', list(st.pc), fact, list(st.inputs), st.path, 'lemma'))
    st.pc.append(fact)
    E.rules[(i, j)] = E.lin.poly(z3.simplify(R(z), som=True)) if not isinstance(z, Fraction) else ({(): z} if z else {})
    E.cut_memo.clear()
    return None


@ext('__lcv_cover')
def _lcover(E, st, fr, I, a):
    label = E.load_bytes(st, a[0], 200)
    E.covers.setdefault(label, 0)
    E.covers[label] += 1
    return None


@ext('__lcv_replace')
def _lreplace(E, st, fr, I, a):
    E.replace[a[0].name] = a[1].name
    return None


@ext('__lcv_throw_ok')
def _lthrow(E, st, fr, I, a):
    st.ghost['throw'] = 'ok' if a[0] else 'forbid'
    return None


@ext('__lcv_abs_cut')
def _lcut(E, st, fr, I, a):
    """replace a value by a fresh variable equal to it (names an intermediate term)"""
    v = a[0]
    if isinstance(v, (Fraction, Special)):
        return v
    x = E.fresh_real('cut')
    st.pc.append(x == v)
    w = E.cutv(v)
    if w is not v and not isinstance(w, (Fraction, Special)) and not w.eq(v):
        st.pc.append(x == w)
    return x


@ext('__lcv_havoc_real')
def _lhavoc(E, st, fr, I, a):
    return E.fresh_real('h')


@ext('__lcv_havoc_bool')
def _lhavocb(E, st, fr, I, a):
    return E.fresh_bool('hb')


@ext('__lcv_is_symbolic')
def _lissym(E, st, fr, I, a):
    return 1
