"""Linearisation back end.

A conjunction  hyps /\\ not goal  over the reals is abstracted to linear arithmetic: every monomial becomes a variable.  To recover
nonlinear reasoning, valid consequences are added first: hypotheses equalities multiplied by monomials, products of hypothesis
inequalities, squares.  If the abstraction is unsatisfiable (z3, linear real arithmetic), so is the original: 'unsat' is sound.
"""
from fractions import Fraction
import itertools, time
import z3

F0, F1 = Fraction(0), Fraction(1)


class Lin:
    def __init__(self):
        self.vid = {}      # ast id -> var index
        self.vars = []     # index -> z3 expr
        self.pc = {}       # ast id -> poly
        self.keep = []
        self.defs = {}     # purified ite: var index -> (cond, then, else)
        self.mv = {}       # monomial -> z3 real var
        self.n = 0

    def var(self, e):
        i = e.get_id()
        k = self.vid.get(i)
        if k is None:
            k = len(self.vars)
            self.vid[i] = k
            self.vars.append(e)
            self.keep.append(e)
        return k

    def poly(self, e):
        i = e.get_id()
        p = self.pc.get(i)
        if p is not None:
            return p
        p = self._poly(e)
        self.pc[i] = p
        self.keep.append(e)
        return p

    def _poly(self, e):
        if z3.is_rational_value(e):
            f = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return {(): f} if f else {}
        if z3.is_int_value(e):
            f = Fraction(e.as_long())
            return {(): f} if f else {}
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in e.children():
                for m, a in self.poly(c).items():
                    r[m] = r.get(m, F0) + a
            return {m: a for m, a in r.items() if a}
        if k == z3.Z3_OP_SUB:
            cs = e.children()
            r = dict(self.poly(cs[0]))
            for c in cs[1:]:
                for m, a in self.poly(c).items():
                    r[m] = r.get(m, F0) - a
            return {m: a for m, a in r.items() if a}
        if k == z3.Z3_OP_UMINUS:
            return {m: -a for m, a in self.poly(e.arg(0)).items()}
        if k == z3.Z3_OP_MUL:
            r = {(): F1}
            for c in e.children():
                r = pmul(r, self.poly(c))
                if len(r) > 3000:
                    raise TooBig()
            return r
        if k == z3.Z3_OP_DIV:
            d = self.poly(e.arg(1))
            if set(d) <= {()} and d:
                a = 1 / d[()]
                return {m: a * c for m, c in self.poly(e.arg(0)).items()}
            return {(self.var(e),): F1}
        if k == z3.Z3_OP_POWER:
            ex = self.poly(e.arg(1))
            if set(ex) == {()} and ex[()].denominator == 1 and 0 <= ex[()] <= 8:
                r = {(): F1}
                for _ in range(int(ex[()])):
                    r = pmul(r, self.poly(e.arg(0)))
                return r
            return {(self.var(e),): F1}
        if k == z3.Z3_OP_ITE:
            v = self.var(e)
            if v not in self.defs:
                self.defs[v] = (e.arg(0), e.arg(1), e.arg(2))
            return {(v,): F1}
        return {(self.var(e),): F1}


class TooBig(Exception):
    pass


def pmul(a, b):
    if len(a) == 1 and () in a:
        c = a[()]
        return {m: c * x for m, x in b.items()}
    if len(b) == 1 and () in b:
        c = b[()]
        return {m: c * x for m, x in a.items()}
    r = {}
    for m, x in a.items():
        for n, y in b.items():
            k = mmul(m, n)
            r[k] = r.get(k, F0) + x * y
    return {m: x for m, x in r.items() if x}


_mm = {}


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    k = (m, n)
    r = _mm.get(k)
    if r is None:
        r = tuple(sorted(m + n))
        _mm[k] = r
    return r


def mdiv(m, n):
    """m / n or None"""
    if not n:
        return m
    r = list(m)
    for x in n:
        try:
            r.remove(x)
        except ValueError:
            return None
    return tuple(r)


def deg(p):
    return max((len(m) for m in p), default=0)


CMP = {z3.Z3_OP_LE: 'le', z3.Z3_OP_LT: 'lt', z3.Z3_OP_GE: 'ge', z3.Z3_OP_GT: 'gt'}


class Prob:
    """abstraction of one query"""

    def __init__(self, L):
        self.L = L
        self.eqs = []      # poly == 0
        self.ges = []      # (poly, strict): poly >= 0 / > 0
        self.bools = []    # z3 formulas over monomial variables
        self.used = set()  # purified vars seen
        self.mono = set()
        self.tr = {}
        self.mvs = {}

    def mv(self, m):
        v = self.mvs.get(m)
        if v is None:
            v = z3.Real('m_' + '_'.join(map(str, m)))
            self.mvs[m] = v
        return v

    def lin(self, p):
        """polynomial as linear expression"""
        ts = []
        c0 = None
        for m, c in p.items():
            if m == ():
                c0 = z3.RealVal(str(c))
            elif c == 1:
                ts.append(self.mv(m))
            else:
                ts.append(z3.RealVal(str(c)) * self.mv(m))
        if c0 is not None:
            ts.append(c0)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def note(self, p):
        for m in p:
            self.mono.add(m)
            for v in m:
                if v in self.L.defs and v not in self.used:
                    self.used.add(v)
                    c, a, b = self.L.defs[v]
                    pa, pb = self.L.poly(a), self.L.poly(b)
                    pv = {(v,): F1}
                    self.note(pa)
                    self.note(pb)
                    cc = self.form(c)
                    self.bools.append(z3.If(cc, self.lin(psub(pv, pa)) == 0, self.lin(psub(pv, pb)) == 0))
                    # the common special cases |x|, max, min as polynomial facts usable in products
                    r = self.cmp(c)
                    if r is not None:
                        op, q = r   # q op 0
                        s = 1 if op in ('ge', 'gt') else (-1 if op in ('le', 'lt') else 0)
                        if s:
                            d = psub(pa, pb)
                            q = q if s > 0 else {m: -x for m, x in q.items()}
                            k = ratio(d, q)
                            if k is not None and k != 0:
                                # v = max(a,b) when d ~ +q, min otherwise
                                if k > 0:
                                    self.ges.append((psub(pv, pa), False, 'def'))
                                    self.ges.append((psub(pv, pb), False, 'def'))
                                else:
                                    self.ges.append((psub(pa, pv), False, 'def'))
                                    self.ges.append((psub(pb, pv), False, 'def'))

    def cmp(self, e):
        """comparison atom as (op, poly) meaning poly op 0, or None"""
        neg = False
        while z3.is_not(e):
            e = e.arg(0)
            neg = not neg
        k = e.decl().kind()
        op = CMP.get(k)
        if op is None:
            if k == z3.Z3_OP_EQ and z3.is_arith(e.arg(0)):
                op = 'eq'
            elif k == z3.Z3_OP_DISTINCT and e.num_args() == 2 and z3.is_arith(e.arg(0)):
                op = 'ne'
            else:
                return None
        p = psub(self.L.poly(e.arg(0)), self.L.poly(e.arg(1)))
        if neg:
            op = {'le': 'gt', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'eq': 'ne', 'ne': 'eq'}[op]
        return op, p

    def form(self, e):
        """boolean formula over monomial variables"""
        i = e.get_id()
        r = self.tr.get(i)
        if r is not None:
            return r
        self.L.keep.append(e)
        r = self._form(e)
        self.tr[i] = r
        return r

    def _form(self, e):
        if z3.is_true(e) or z3.is_false(e):
            return e
        k = e.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR):
            cs = [self.form(c) for c in e.children()]
            if k == z3.Z3_OP_AND:
                return z3.And(*cs)
            if k == z3.Z3_OP_OR:
                return z3.Or(*cs)
            if k == z3.Z3_OP_NOT:
                return z3.Not(cs[0])
            if k == z3.Z3_OP_IMPLIES:
                return z3.Implies(*cs)
            return z3.Xor(*cs)
        if k == z3.Z3_OP_ITE:
            return z3.If(self.form(e.arg(0)), self.form(e.arg(1)), self.form(e.arg(2)))
        if k == z3.Z3_OP_EQ and z3.is_bool(e.arg(0)):
            return self.form(e.arg(0)) == self.form(e.arg(1))
        c = self.cmp(e)
        if c is not None:
            op, p = c
            self.note(p)
            l = self.lin(p)
            return {'le': l <= 0, 'lt': l < 0, 'ge': l >= 0, 'gt': l > 0, 'eq': l == 0, 'ne': l != 0}[op]
        return e

    def add(self, e, goal=False):
        """assert e"""
        if z3.is_and(e):
            for c in e.children():
                self.add(c, goal)
            return
        if z3.is_not(e) and z3.is_or(e.arg(0)):
            for c in e.arg(0).children():
                self.add(z3.Not(c), goal)
            return
        if z3.is_not(e) and z3.is_not(e.arg(0)):
            return self.add(e.arg(0).arg(0), goal)
        if z3.is_not(e) and z3.is_implies(e.arg(0)):
            self.add(e.arg(0).arg(0), goal)
            self.add(z3.Not(e.arg(0).arg(1)), goal)
            return
        c = self.cmp(e)
        if c is not None:
            op, p = c
            self.note(p)
            tag = 'goal' if goal else 'hyp'
            if op == 'eq':
                self.eqs.append(p)
            elif op in ('ge', 'gt'):
                self.ges.append((p, op == 'gt', tag))
            elif op in ('le', 'lt'):
                self.ges.append(({m: -x for m, x in p.items()}, op == 'lt', tag))
            else:
                self.bools.append(self.lin(p) != 0)
            return
        self.bools.append(self.form(e))


def psub(a, b):
    r = dict(a)
    for m, x in b.items():
        y = r.get(m, F0) - x
        if y:
            r[m] = y
        else:
            r.pop(m, None)
    return r


def ratio(a, b):
    """k with a == k*b, or None"""
    if len(a) != len(b) or not a:
        return None
    k = None
    for m, x in a.items():
        y = b.get(m)
        if y is None:
            return None
        if k is None:
            k = x / y
        elif x != k * y:
            return None
    return k


def elim_linear(P):
    """substitute away variables defined by an equality  v = poly  (v linear, not in poly): returns number of substitutions"""
    L = P.L
    n = 0
    ch = True
    while ch:
        ch = False
        for i, p in enumerate(P.eqs):
            cand = None
            for m, c in p.items():
                if len(m) == 1:
                    v = m[0]
                    if sum(1 for mm in p if v in mm) == 1 and v not in P.L.defs:
                        cand = (v, c)
                        if deg(p) <= 1:
                            pass
                        break
            if cand and deg(p) <= 2 and len(p) <= 12:
                yield i, cand


def build(P, level, cap=2500, maxdeg=4):
    """the linear query for a given level; returns list of z3 formulas"""
    eqs = [p for p in P.eqs if p]
    ges = []
    seen = set()
    for p, s, t in P.ges:
        k = (frozenset(p.items()), s)
        if k in seen:
            continue
        seen.add(k)
        ges.append((p, s, t))
    out_eq = list(eqs)
    out_ge = [(p, s) for p, s, t in ges]
    if level >= 1:
        mono = set(P.mono)
        prods = []
        if level >= 2:
            # products of inequalities
            cand = [(p, s, t) for p, s, t in ges if deg(p) <= 2 and 0 < len(p) <= 12]
            pairs = []
            lim = 3 if level == 2 else maxdeg
            for (p, s, t), (q, u, w) in itertools.combinations_with_replacement(cand, 2):
                if p is q and not s and deg(p) > 1:
                    continue
                d = deg(p) + deg(q)
                if d > lim or d < 2:
                    continue
                sc = d * 4 + len(p) + len(q) - (6 if t == 'goal' or w == 'goal' else 0) - (3 if t == 'def' or w == 'def' else 0)
                pairs.append((sc, p, s, q, u))
            pairs.sort(key=lambda x: x[0])
            for sc, p, s, q, u in pairs[:cap // 2]:
                r = pmul(p, q)
                prods.append((r, s and u))
            for r, s in prods:
                mono.update(r)
            # squares of variables
            for m in list(mono):
                if len(m) == 1:
                    mm = m + m
                    if mm in mono:
                        prods.append(({mm: F1}, False))
        out_ge += prods
        # multiples of equalities reaching known monomials
        frontier = set(mono)
        known = set(mono)
        mult = set()
        total = 0
        rounds = 1 if level == 1 else 2
        md = max((len(m) for m in mono), default=2)
        md = max(md, 2) if level < 3 else max(md, 3)
        for r in range(rounds):
            new = set()
            for i, p in enumerate(eqs):
                for t in p:
                    if not t:
                        continue
                    for M in frontier:
                        if len(M) < len(t):
                            continue
                        k = mdiv(M, t)
                        if k is None or k == () or (i, k) in mult:
                            continue
                        if deg(p) + len(k) > md + (1 if level >= 3 else 0):
                            continue
                        mult.add((i, k))
                        q = {mmul(m, k): c for m, c in p.items()}
                        out_eq.append(q)
                        total += 1
                        new.update(m for m in q if m not in known)
                        if total > cap:
                            break
                    if total > cap:
                        break
                if total > cap:
                    break
            known |= new
            frontier = new
            if total > cap or not new:
                break
    fs = []
    for p in out_eq:
        fs.append(P.lin(p) == 0)
    for p, s in out_ge:
        fs.append(P.lin(p) > 0 if s else P.lin(p) >= 0)
    fs += P.bools
    return fs


def prove(hyps, goal, ms=2000, levels=(0, 1, 2, 3), L=None, stats=None):
    """True when hyps |= goal is established"""
    L = L or Lin()
    try:
        P = Prob(L)
        for h in hyps:
            P.add(h)
        P.add(z3.Not(goal), True)
    except TooBig:
        return False
    for lv in levels:
        t = time.time()
        try:
            fs = build(P, lv)
        except TooBig:
            return False
        s = z3.SolverFor('QF_LRA') if lv < 99 else z3.Solver()
        s.set('timeout', ms)
        try:
            s.add(*fs)
            r = s.check()
        except z3.Z3Exception:
            s = z3.Solver()
            s.set('timeout', ms)
            s.add(*fs)
            r = s.check()
        if stats is not None:
            stats.append((lv, len(fs), str(r), round(time.time() - t, 2)))
        if r == z3.unsat:
            return lv if lv else True
    return False
