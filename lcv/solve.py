"""Discharging obligations: in-process z3 first (forked children), then a portfolio of solver processes with hard time limits."""
import os, re, sys, time, json, select, signal, subprocess, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
import z3

NCPU = int(os.environ.get('LCV_JOBS', '0')) or os.cpu_count() or 4


# ------------------------------------------------------------------ stage 0
def stage0_child(todo, ms, wfd):
    import lin
    out = os.fdopen(wfd, 'w', buffering=1)
    L = lin.Lin()

    def zz(hyps, cond, t):
        s = z3.Solver()
        s.set('timeout', t)
        for h in hyps:
            s.add(h)
        s.add(z3.Not(cond))
        return s.check() == z3.unsat
    for idx, hyps, cond, full in todo:
        t = time.time()
        out.write(json.dumps([idx, 'start', 0]) + '\n')
        r = 'unknown'
        tries = [('lin', lambda: lin.prove(hyps, cond, 2000, (0, 1), L)),
                 ('z3-inproc', lambda: zz(hyps, cond, ms)),
                 ('lin2', lambda: lin.prove(hyps, cond, 6000, (2, 3), L)),
                 ('z3-inproc', lambda: zz(hyps, cond, 4 * ms))]
        if full:
            # the same obligation with every named polynomial written out
            tries[2:2] = [('lin-expanded', lambda: lin.prove(*full(), 4000, (0, 1), L)), ('z3-expanded', lambda: zz(*full(), ms))]
        for nm, f in tries:
            try:
                if f():
                    r = nm
                    break
            except z3.Z3Exception:
                pass
            out.write(json.dumps([idx, 'tick', 0]) + '\n')
        out.write(json.dumps([idx, r, time.time() - t]) + '\n')
    out.close()


def stage0(todo, ms, nproc):
    """todo: [(idx, hyps, cond)] -> {idx: (result, secs)}; children are killed when they overrun their time limit"""
    res = {}
    if not todo:
        return res
    nproc = max(1, min(nproc, (len(todo) + 1) // 2))
    chunks = [list(todo[k::nproc]) for k in range(nproc)]
    live = {}

    def spawn(chunk):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for fd in list(live):
                    try:
                        os.close(fd)
                    except OSError:
                        pass
                stage0_child(chunk, ms, w)
            finally:
                os._exit(0)
        os.close(w)
        live[r] = dict(pid=pid, chunk=chunk, buf='', cur=None, t=time.time(), done=set())
    for c in chunks:
        spawn(c)
    hard = 25.0
    while live:
        rd, _, _ = select.select(list(live), [], [], 0.5)
        for fd in rd:
            L = live[fd]
            data = os.read(fd, 65536)
            if not data:
                os.close(fd)
                os.waitpid(L['pid'], 0)
                rest = [x for x in L['chunk'] if x[0] not in L['done']]
                del live[fd]
                if rest:  # crashed: skip the current one
                    if L['cur'] is not None:
                        res[L['cur']] = ('unknown', 0)
                        rest = [x for x in rest if x[0] != L['cur']]
                    else:
                        res[rest[0][0]] = ('unknown', 0)
                        rest = rest[1:]
                    if rest:
                        spawn(rest)
                continue
            L['buf'] += data.decode()
            while '\n' in L['buf']:
                ln, L['buf'] = L['buf'].split('\n', 1)
                i, r, s = json.loads(ln)
                L['t'] = time.time()
                if r == 'tick':
                    continue
                if r == 'start':
                    L['cur'] = i
                else:
                    res[i] = (r, s)
                    L['done'].add(i)
                    L['cur'] = None
        now = time.time()
        for fd in list(live):
            L = live[fd]
            if now - L['t'] > hard:
                try:
                    os.kill(L['pid'], signal.SIGKILL)
                except OSError:
                    pass
                L['t'] = now
    return res


# ------------------------------------------------------------------ portfolio
def smt2(hyps, cond, inputs):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(z3.Not(cond))
    body = s.to_smt2()
    body = re.sub(r'\(check-sat\)\s*$', '', body.strip())
    body = re.sub(r'\(set-logic[^)]*\)', '', body)
    body = re.sub(r'^;.*$', '', body, flags=re.M)
    # declared names, in input order
    decl = set(re.findall(r'\(declare-fun (\|[^|]*\||[^\s()]+) \(\)', body))
    names = []
    for nm, kind, v in inputs:
        if kind == 'int':
            continue
        n = v.sexpr()
        if n in decl:
            names.append(n)
    return body, names


STRATS = {
    'z3': (['z3-new', '-smt2'], '(check-sat)'),
    'z3-nlsat': (['z3-new', '-smt2'], '(check-sat-using (then simplify solve-eqs elim-term-ite simplify purify-arith solve-eqs qfnra-nlsat))'),
    'z3-nlsat2': (['z3-new', '-smt2'], '(check-sat-using (then simplify elim-term-ite simplify tseitin-cnf qfnra-nlsat))'),
    'z3-old': (['z3', '-smt2'], '(check-sat)'),
    'z3-old-nra': (['z3', '-smt2'], '(check-sat-using qfnra)'),
    'cvc5': (['cvc5', '--lang=smt2', '-q'], '(check-sat)'),
    'cvc5-cov': (['cvc5', '--lang=smt2', '-q', '--nl-cov'], '(check-sat)'),
    'cvc5-ext': (['cvc5', '--lang=smt2', '-q', '--nl-ext-tplanes', '--no-nl-cov'], '(check-sat)'),
    'z3-s1': (['z3-new', '-smt2', 'smt.random_seed=7', 'smt.arith.solver=2'], '(check-sat)'),
}


def run_solver(strat, body, names, secs, want_model=False):
    cmd, chk = STRATS[strat]
    logic = '(set-logic ALL)\n'
    pre = ''
    if cmd[0] != 'cvc5':
        pre = '(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n'
    txt = pre + ('(set-option :produce-models true)\n' if want_model else '') + logic + body + '\n' + chk + '\n'
    if want_model and names:
        txt += '(get-value (' + ' '.join(names) + '))\n'
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    t = time.time()
    try:
        p = subprocess.Popen(cmd + [f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=secs)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.communicate()
            out = 'timeout'
    finally:
        os.unlink(f.name)
    out = out.strip()
    first = out.split('\n', 1)[0].strip() if out else ''
    r = first if first in ('sat', 'unsat') else 'unknown'
    model = None
    if r == 'sat' and want_model:
        model = parse_values(out.split('\n', 1)[1] if '\n' in out else '')
    return r, time.time() - t, model


def tokens(s):
    return re.findall(r'\|[^|]*\||[()]|[^\s()]+', s)


def parse_values(s):
    toks = tokens(s)
    pos = 0

    def rd():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == '(':
            l = []
            while toks[pos] != ')':
                l.append(rd())
            pos += 1
            return l
        return t

    def ev(x):
        if isinstance(x, list):
            if x[0] == '-':
                a = [ev(y) for y in x[1:]]
                return -a[0] if len(a) == 1 else a[0] - a[1]
            if x[0] == '/':
                return ev(x[1]) / ev(x[2])
            if x[0] == '+':
                return sum(ev(y) for y in x[1:])
            if x[0] == '*':
                r = 1
                for y in x[1:]:
                    r *= ev(y)
                return r
            if x[0] == '_' and x[1].startswith('bv'):
                return int(x[1][2:])
            raise ValueError(x)
        if x == 'true':
            return 1
        if x == 'false':
            return 0
        if x.startswith('#x'):
            return int(x[2:], 16)
        if x.startswith('#b'):
            return int(x[2:], 2)
        x = x.rstrip('?')
        return float(Fraction(x))
    out = {}
    try:
        t = rd()
        for n, v in t:
            try:
                out[n] = ev(v)
            except Exception:
                pass
    except Exception:
        pass
    return out


def portfolio(items, stages, deadline, log=None):
    """items: list of dict(body, names, result...) ; runs every unresolved item through the stages [(strategy list, secs)].
    Sets item['result'] in unsat/sat/unknown, item['backend'], item['secs'], item['model']."""
    for strats, secs in stages:
        todo = [it for it in items if it['result'] == 'unknown']
        if not todo:
            break
        lock = threading.Lock()

        def job(it, st):
            if it['result'] != 'unknown':
                return
            left = deadline - time.time()
            if left < 1:
                it['late'] = True
                return
            r, dt, model = run_solver(st, it['body'], it['names'], min(secs, left), want_model=True)
            with lock:
                it['secs'] += dt
                it['tried'].append((st, r, round(dt, 1)))
                if it['result'] == 'unknown' and r != 'unknown':
                    it['result'] = r
                    it['backend'] = st
                    it['model'] = model
        with ThreadPoolExecutor(NCPU) as ex:
            # strategy-major within groups of the items, so that cheap items leave the queue early
            fs = []
            for st in strats:
                for it in todo:
                    fs.append(ex.submit(job, it, st))
            for f in fs:
                f.result()
