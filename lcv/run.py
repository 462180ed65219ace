#!/usr/bin/env python3-vt
"""Check driver: ./check PROP [--tier quick|thorough] [--only harness] [--repo DIR]
Compiles the contract harnesses of PROP with the real code, generates the proof obligations, discharges them."""
import sys, os, re, json, time, tempfile, shutil, subprocess, signal, traceback, argparse, glob
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--only')
ap.add_argument('--repo')
ap.add_argument('-v', action='store_true')
ap.add_argument('--keep', action='store_true')
ap.add_argument('--budget', type=float, default=0)
ap.add_argument('--noev', action='store_true')
args = ap.parse_args()
if args.repo:
    os.environ['LCV_REPO'] = os.path.abspath(args.repo)
import build, solve
from concurrent.futures import ThreadPoolExecutor
NCPU = solve.NCPU
T0 = time.time()
BUDGET = args.budget or (780 if args.tier == 'quick' else 3000)
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def parse_opts(s):
    o = {}
    for k, v in re.findall(r'(\w+)=("[^"]*"|\S+)', s):
        v = v.strip('"')
        o[k] = int(v) if re.fullmatch(r'-?\d+', v) else v
    return o


def harness_child(bc, name, opts, nproc, wpath, rep=()):
    """symbolic execution + stage 0 in this process; result written as JSON"""
    import engine, z3
    t = time.time()
    if os.environ.get('LCV_TRACE'):
        def onalrm(*a):
            traceback.print_stack(a[1], limit=25)
            f = a[1]
            while f:
                if f.f_code.co_name == 'run_merge' and 'st' in f.f_locals:
                    print('AT', [x.fn.name for x in f.f_locals['st'].frames], f.f_locals['st'].frames[-1].ip, file=sys.stderr)
                f = f.f_back
            print('E', E and E.stats, file=sys.stderr)
            signal.setitimer(signal.ITIMER_REAL, float(os.environ['LCV_TRACE']))
        signal.signal(signal.SIGALRM, onalrm)
        signal.setitimer(signal.ITIMER_REAL, float(os.environ['LCV_TRACE']))
    eo = {k: v for k, v in opts.items() if k in ('merge', 'prune', 'prune_ms', 'div0', 'cut', 'throw', 'unwind', 'max_steps', 'max_paths', 'deadline')}
    res = dict(name=name, error=None, obls=[], opts=opts)
    E = None
    try:
        E = engine.Engine(engine.Module(bc), eo)
        for rx, stub in rep:
            if 'real' in opts and re.search(str(opts['real']), stub):
                continue        # this harness proves the contract of that function: run the real body
            for f in E.m.funcs:
                if re.search(rx, f) and f != stub:
                    E.replace[f] = stub
                    if 'nest' in opts and re.search(str(opts['nest']), stub):
                        E.nest.add(f)   # recursion: the outermost call runs the real body
        E.run(name)
    except engine.Unsupported as e:
        res['error'] = str(e)
    except Exception:
        res['error'] = 'internal: ' + traceback.format_exc()[-1500:]
    if E is None:
        json.dump(res, open(wpath, 'w'))
        return
    res['exec_s'] = time.time() - t
    res['stats'] = E.stats
    res['covers'] = E.covers
    res['funcs'] = [E.short(f) for f in E.funcs_run if not f.startswith('vc_')]
    res['assumed'] = sorted(E.assumed)
    # deduplicate, slice hypotheses
    seen = {}
    items = []
    for o in E.obls:
        cond = z3.simplify(o.cond)
        if z3.is_true(cond):
            items.append(dict(label=o.label, kind=o.kind, path=o.path, result='unsat', backend='simplify', secs=0.0, o=o, hyps=None))
            continue
        o.pc = E.cutfacts(o.pc, o.cond)
        hyps = o.pc if (o.iso or z3.is_false(cond)) else E.slice(o.pc, o.cond)
        key = (o.cond.get_id(), frozenset(h.get_id() for h in hyps))
        it = dict(label=o.label, kind=o.kind, path=o.path, result='unknown', backend=None, secs=0.0, o=o, hyps=hyps)
        if any(h.eq(o.cond) for h in hyps):
            it['result'] = 'unsat'
            it['backend'] = 'hypothesis'
        if key in seen:
            it['dup'] = seen[key]
            it['result'] = 'dup'
        else:
            seen[key] = len(items)
        items.append(it)
    def expanded(it):
        o = it['o']
        c = E.uncut(o.cond)
        pc = [E.uncut(h) for h in o.pc]
        return (pc if o.iso else E.slice(pc, c)), c
    todo = [(i, it['hyps'], it['o'].cond, (lambda it=it: expanded(it)) if E.cuts else None) for i, it in enumerate(items) if it['result'] == 'unknown']
    ms = opts.get('t0', 400)
    for i, (r, s) in solve.stage0(todo, ms, nproc).items():
        items[i]['secs'] += s
        if r != 'unknown':
            items[i]['result'] = 'unsat'
            items[i]['backend'] = r
    for i, it in enumerate(items):
        if it['result'] == 'dup':
            continue
        if it['result'] == 'unknown':
            # everything known goes to the portfolio (a model must satisfy all of it)
            o = it['o']
            hy = o.pc
            body, names = solve.smt2([E.uncut(h) for h in hy] if E.cuts else hy, E.uncut(o.cond) if E.cuts else o.cond, o.inputs)
            it['body'] = body
            it['names'] = names
            if len(it['hyps']) < len(hy) or E.cuts:
                it['body_sliced'], it['names_sliced'] = solve.smt2(it['hyps'], o.cond, o.inputs)
            it['inputs'] = [(n, k, (v if k == 'int' else v.sexpr())) for n, k, v in o.inputs]
    for it in items:
        o = it.pop('o')
        it.pop('hyps', None)
        it['tried'] = []
        it['model'] = None
    res['obls'] = items
    json.dump(res, open(wpath, 'w'))


def run_harnesses(jobs, out):
    """jobs: [(bc, name, opts, replacements)] run in child processes, NCPU at a time"""
    results = {}
    pend = list(jobs)
    live = {}
    k = 0
    while pend or live:
        while pend and len(live) < NCPU:
            bc, name, opts, rep = pend.pop(0)
            w = os.path.join(out, 'r_%s_%d.json' % (name, k))
            k += 1
            nproc = max(1, NCPU // max(1, min(NCPU, len(jobs))))
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    harness_child(bc, name, opts, max(nproc, 2), w, rep)
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    os._exit(0)
            live[pid] = (name, w, time.time(), opts)
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.02)
            for p in list(live):
                nm, w, t, o = live[p]
                if time.time() - t > o.get('deadline', 400) + 120 or time.time() - T0 > BUDGET + 60:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        pass
            continue
        if pid not in live:
            continue
        nm, w, t, o = live.pop(pid)
        try:
            results[nm] = json.load(open(w))
        except Exception:
            results[nm] = dict(name=nm, error='verification-condition generation ended without a result (status %d)' % st, obls=[], opts=o)
        if args.v:
            r = results[nm]
            print('  [%5.1fs] %s: %d obligations, %d open, paths %s %s' % (time.time() - T0, nm, len(r['obls']), sum(1 for x in r['obls'] if x['result'] == 'unknown'), r.get('stats', {}).get('paths'), r['error'] or ''), flush=True)
    return results


def native_replay(exe, name, lines, tmp):
    f = os.path.join(tmp, 'replay_%s.txt' % name)
    open(f, 'w').write('\n'.join(lines) + '\n')
    try:
        r = subprocess.run([exe, 'replay', name, f], capture_output=True, text=True, timeout=40)
    except subprocess.TimeoutExpired:
        return None
    return r.stdout if r.returncode == 1 else None


def model_lines(it):
    L = []
    m = it['model'] or {}
    for n, k, v in it['inputs']:
        if k == 'int':
            L.append('IN %s i %d' % (n, v))
        else:
            x = m.get(v, 0)
            if k == 'real':
                L.append('IN %s d %.17g' % (n, float(x)))
            else:
                L.append('IN %s i %d' % (n, int(x)))
    return L


def native_search(exe, name, secs, seed, covers=False):
    try:
        r = subprocess.run([exe, 'search', name, str(seed), str(secs)] + (['covers'] if covers else []), capture_output=True, text=True, timeout=secs + 40)
    except subprocess.TimeoutExpired:
        return '', -1
    return r.stdout, r.returncode


def main():
    prop = args.prop
    specs = sorted(glob.glob(os.path.join(VERIF, 'spec', prop + '_*.cpp')))
    if not specs:
        print('no specification for', prop)
        return 2
    out = tempfile.mkdtemp(prefix='lcv_%s_' % prop)
    try:
        return check(prop, specs, out)
    finally:
        if args.keep:
            print('kept', out)
        else:
            shutil.rmtree(out, ignore_errors=True)


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop and k.get('status') == 'known']


def check(prop, specs, out):
    build.prep(out)
    # compile
    def comp(s):
        return build.build_ir(s, out)

    def compn(s):
        return build.build_native(s, out)
    # the native runtime first (shared object file)
    build.sh(['clang++', '-O1', '-std=c++14', '-c', os.path.join(VERIF, 'lcv', 'native.cpp'), '-o', os.path.join(out, 'native.o')])
    with ThreadPoolExecutor(NCPU) as ex:
        irs = [(s, ex.submit(comp, s)) for s in specs]
        nats = [(s, ex.submit(compn, s)) for s in specs]
        irs = [(s, f.result()) for s, f in irs]
        nats = dict((s, f.result()) for s, f in nats)
    if args.v:
        print('  [%5.1fs] built' % (time.time() - T0))
    import llvmir
    jobs = []
    exe_of = {}
    for s, bc in irs:
        m = llvmir.Module(bc)
        for g, gv in m.globals.items():
            if g.startswith('lcvopt_'):
                nm = 'vc_' + g[len('lcvopt_'):]
                if args.only and not re.search(args.only, nm):
                    continue
                c = gv.init
                st = ''
                if c:
                    k = m.const(c)
                    if k[0] == 'agg':
                        st = ''.join(chr(x[1]) for x in k[1] if x[1])
                o = parse_opts(st)
                if o.get('tier') == 'thorough' and args.tier != 'thorough':
                    continue
                exe_of[nm] = nats[s]
                jobs.append((bc, nm, o, build.options(s)['replace']))
        del m
    if not jobs:
        print('no harness')
        return 2
    jobs.sort(key=lambda j: -j[2].get('cost', 1))
    res = run_harnesses(jobs, out)
    # portfolio over everything still open
    items = []
    for nm, r in res.items():
        for it in r['obls']:
            it['harness'] = nm
            if it['result'] == 'unknown':
                items.append(it)
    deadline = T0 + BUDGET * 0.8
    sl = [it for it in items]
    # sliced variant first (fewer hypotheses): only an unsat answer is used
    for it in sl:
        if 'body_sliced' in it:
            it['_full'] = (it['body'], it['names'])
            it['body'], it['names'] = it['body_sliced'], it['names_sliced']
    fast = [(['z3', 'z3-nlsat', 'cvc5'], 4)]
    slow = [(['z3-nlsat', 'z3-old-nra', 'cvc5-ext', 'z3-s1', 'z3-old', 'cvc5', 'z3', 'z3-nlsat2'], 25), (['z3-nlsat', 'z3-old-nra', 'cvc5', 'cvc5-ext', 'z3', 'z3-nlsat2', 'cvc5-cov', 'z3-s1'], 90)]
    if args.tier == 'thorough':
        slow.append((['z3-nlsat', 'z3-old-nra', 'cvc5', 'cvc5-ext', 'z3', 'cvc5-cov'], 400))

    def fix_sliced():
        again = []
        for it in sl:
            if '_full' in it:
                it['body'], it['names'] = it.pop('_full')
                if it['result'] == 'sat':
                    it['result'] = 'unknown'
                    again.append(it)
        return again
    nfail_cap = 6

    def failing():
        return [it for it in items if it['result'] == 'sat']
    # a refuted obligation is tried on the real code before more solver time is spent
    viol = []          # (harness, label, replay text, confirmed)
    seenlab = set()

    def confirm():
        for it in failing():
            if it.get('conf') is not None:
                continue
            key = (it['harness'], it['label'])
            if key in seenlab and sum(1 for v in viol if v[0] == it['harness']) >= 1:
                it['conf'] = False
                continue
            r = native_replay(exe_of[it['harness']], it['harness'], model_lines(it), out)
            it['conf'] = bool(r)
            if r:
                seenlab.add(key)
                viol.append((it['harness'], it['label'], r, 'model of ' + str(it['backend'])))

    def search_for(names, secs):
        names = [n for n in dict.fromkeys(names) if not any(v[0] == n for v in viol)]
        if not names:
            return
        def one(n):
            per = max(1, NCPU // len(names))
            outl = []
            with ThreadPoolExecutor(per) as ex2:
                for so, rc in ex2.map(lambda k: native_search(exe_of[n], n, secs, SEED * 1000 + k), range(per)):
                    if rc == 1 and 'FAIL' in so:
                        outl.append(so)
            return n, outl
        with ThreadPoolExecutor(NCPU) as ex:
            for n, l in ex.map(one, names):
                for so in l[:1]:
                    lab = re.search(r'FAIL (.*)', so).group(1)
                    viol.append((n, lab, so, 'native search'))
    kf0 = known_findings(prop)

    def found():
        return [v for v in viol if not any(k['harness'] == v[0] and re.search(k['label'], v[1]) for k in kf0)]
    # executing the harness on random inputs is the cheapest way to a failing input
    bad = [it['harness'] for it in items if it['result'] != 'unsat'] + [n for n, r in res.items() if r['error']]
    if bad:
        search_for(bad, 2)
    if not found():
        solve.portfolio(sl, fast, deadline)
        fix_sliced()
        solve.portfolio(items, fast, deadline)
        if args.v:
            print('  [%5.1fs] fast portfolio: open %d, refuted %d' % (time.time() - T0, sum(1 for i in items if i['result'] == 'unknown'), len(failing())))
        confirm()
    else:
        fix_sliced()
    bad = [it['harness'] for it in items if it['result'] != 'unsat'] + [n for n, r in res.items() if r['error']]
    if bad and not found():
        search_for(bad, 6)
    if [it for it in items if it['result'] == 'unknown'] and not found():
        solve.portfolio(items, slow[:1], deadline)
        if args.v:
            print('  [%5.1fs] slow portfolio: open %d' % (time.time() - T0, sum(1 for i in items if i['result'] == 'unknown')))
        confirm()
        if [it for it in items if it['result'] == 'unknown'] and not found():
            solve.portfolio(items, slow[1:], deadline)
            confirm()
    bad = [it['harness'] for it in items if it['result'] != 'unsat'] + [n for n, r in res.items() if r['error']]
    if bad and not found():
        search_for(bad, 25 if args.tier == 'quick' else 120)
    # covers: reachability of the asserted points, by executing the real code natively
    cov_miss = []
    todo_c = [(n, r) for n, r in res.items() if not r['error']]

    def cov(nr):
        n, r = nr
        labels = set(r.get('covers', {}))
        got = set()
        for secs in (0.3, 3, 15):
            so, rc = native_search(exe_of[n], n, secs, SEED, covers=True)
            got |= set(re.findall(r'COVER (.*)', so))
            if labels <= got:
                break
        return n, labels, got
    if not bad:
        with ThreadPoolExecutor(NCPU) as ex:
            for n, labels, got in ex.map(cov, todo_c):
                if not labels:
                    cov_miss.append((n, '(no cover statement reached)'))
                for l in labels - got:
                    cov_miss.append((n, l))
    return report(prop, res, items, viol, cov_miss, exe_of, out)


def reached_functions(res, out):
    """names of the FCL functions in the call graph of the harnesses that ran, before LLVM inlines them"""
    syms = set()
    for f in glob.glob(os.path.join(out, '*.funcs')):
        for line in open(f):
            w = line.split()
            if w and w[0] in res:
                syms.update(w[1:])
    txt = subprocess.run(['c++filt', '-p'], input='\n'.join(sorted(syms)), capture_output=True, text=True).stdout
    return sorted(k for k in map(plain, txt.split('\n')) if k.startswith('fcl::'))


def plain(k):
    """a demangled name without template arguments and return type"""
    while True:
        k2 = re.sub(r'<[^<>]*>', '', k)
        if k2 == k:
            break
        k = k2
    return k.split(' ')[-1] if not 'operator' in k else k[k.find('fcl::'):] if 'fcl::' in k else k


def report(prop, res, items, viol, cov_miss, exe_of, out):
    nob = ndis = 0
    back = {}
    secs = 0.0
    bounded = {}
    per = {}
    undis = []
    funcs = set()
    assumed = set()
    nb_ob = 0
    for nm, r in sorted(res.items()):
        h = dict(obligations=0, discharged=0, paths=r.get('stats', {}).get('paths'), exec_s=round(r.get('exec_s', 0), 2))
        if r['error']:
            h['error'] = r['error']
        b = r['opts'].get('bounded')
        for it in r['obls']:
            ok = it['result'] == 'unsat' or (it['result'] == 'dup' and r['obls'][it['dup']]['result'] == 'unsat')
            h['obligations'] += 1
            h['discharged'] += ok
            if it['result'] != 'dup':
                back[it['backend'] or 'none'] = back.get(it['backend'] or 'none', 0) + 1
            secs += it['secs']
            if not ok and it['result'] != 'dup':
                undis.append(it)
        if b:
            bounded[nm] = dict(bound=b.replace('_', ' '), obligations=h['obligations'], discharged=h['discharged'])
        else:
            nob += h['obligations']
            ndis += h['discharged']
        per[nm] = h
        funcs.update(r.get('funcs', []))
        assumed.update(r.get('assumed', []))
    errors = [(n, r['error']) for n, r in res.items() if r['error']]
    fclf = sorted(set(reached_functions(res, out)) | set(plain(f) for f in funcs if plain(f).startswith('fcl::')))
    scan = assume_scan(prop)
    level = 'proof' if nob > 0 else 'other'
    cov = dict(obligations=nob, discharged=ndis,
               checker_cmd='./check %s --tier %s' % (prop, args.tier),
               trusted_base=['clang 18 front end and LLVM 18 -O2 passes (the IR of the real functions is what is verified)',
                             'lcv/engine.py (VC generator: symbolic execution of that IR)',
                             'z3 5.3.2, z3 4.8.12, cvc5 1.1.2 (an unsat answer of any of them discharges an obligation)',
                             'lcv/lin.py (abstraction of nonlinear real obligations to linear ones; z3 decides those)',
                             'double arithmetic treated as exact real arithmetic (no rounding, overflow, NaN)'] + scan,
               functions_under_contract=fclf, by_backend=back, solver_s=round(secs, 1), harnesses=per, bounded=bounded)
    if level == 'other':
        cov['explanation'] = 'only bounded harnesses'
    ev = dict(property=prop, tier=args.tier if args.tier in ('quick', 'thorough') else 'quick', seed=SEED, level=level, coverage=cov,
              assumptions=sorted(assumed) + ['floating-point rounding is not modelled'] , wall_s=round(time.time() - T0, 1), violations=0)
    rc = 0
    lines = []
    kf = known_findings(prop)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)

    def is_known(h, label, text):
        for k in kf:
            if k['harness'] == h and re.search(k['label'], label):
                return k
        return None
    printed = set()
    newv = []
    for h, label, text, src in viol:
        k = is_known(h, label, text)
        if k:
            if k['id'] not in printed:
                printed.add(k['id'])
                lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            continue
        newv.append((h, label, text, src))
    rest = [it for it in undis if not is_known(it['harness'], it['label'], '')]
    rp = os.path.join(VERIF, 'evidence', prop + '.replay.txt')
    if newv:
        h, label, text, src = newv[0]
        with open(rp, 'w') as f:
            f.write('property %s\nharness %s\nfailed obligation: %s\nfailing input found by: %s\n' % (prop, h, label, src))
            f.write('replay: build the harness natively (python3-vt lcv/run.py builds it) and run  EXE replay %s THISFILE\n\n%s\n' % (h, text))
            for it in undis[:20]:
                f.write('not discharged: %s / %s (%s) path %s: %s %s\n' % (it['harness'], it['label'], it['kind'], it['path'], it['result'], it['tried']))
        lines.append('failed obligation: %s: %s' % (h, label))
        lines.append('VIOLATION property=%s replay=%s' % (prop, rp))
        rc = 1
    elif rest:
        with open(rp, 'w') as f:
            f.write('property %s\nno failing input found; the proof does not go through on this tree.\n' % prop)
            for n, e in errors:
                f.write('verification-condition generation incomplete for %s: %s\n' % (n, e))
            for it in rest[:40]:
                f.write('not discharged: %s / %s (%s) path %s: %s; tried %s\n' % (it['harness'], it['label'], it['kind'], it['path'],
                        {'sat': 'refuted by the solver, the model did not fail when replayed', 'unknown': 'undecided (time limit)'}[it['result']], it['tried']))
                if it.get('model') and it['result'] == 'sat':
                    f.write('  model: %s\n' % it['model'])
        for it in rest[:3]:
            lines.append('obligation not discharged: %s: %s (%s)' % (it['harness'], it['label'], it['result']))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        rc = 1
    elif errors:
        # nothing was refuted and nothing failed when executed, but not everything could be turned into obligations: no verdict
        for n, e in errors[:5]:
            lines.append('ERROR: obligations of %s could not be generated: %s' % (n, e))
        rc = 2
    elif cov_miss:
        for n, l in cov_miss:
            lines.append('vacuity guard: %s: "%s" was not reached' % (n, l))
        rc = 2
    elif nob == 0 and not bounded:
        lines.append('no obligations generated')
        rc = 2
    ev['violations'] = 1 if rc == 1 else 0
    if not args.noev and not args.only:
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    if args.v:
        for n, h in sorted(per.items()):
            print('  %-40s %5d/%-5d paths %s exec %.1fs %s' % (n, h['discharged'], h['obligations'], h['paths'], h['exec_s'], h.get('error', '')))
        for it in undis[:30]:
            print('  OPEN %s: %s [%s] %s %s' % (it['harness'], it['label'], it['kind'], it['path'], it['result']))
        for v in viol[:3]:
            print('  FAILING INPUT', v[0], v[1], v[3]); print('    ' + v[2].replace('\n', '\n    '))
        slow = sorted((it for it in items if it['result'] == 'unsat'), key=lambda i: -i['secs'])[:5]
        for it in slow:
            print('  slow %.1fs %s %s %s %s' % (it['secs'], it['harness'], it['label'], it['path'], it['backend']))
    nb = sum(b['obligations'] for b in bounded.values())
    print('%s: %d/%d obligations discharged over %d harnesses%s, solver %.1fs, wall %.1fs' %
          (prop, ndis, nob, len(per), (' (+%d bounded)' % nb if nb else ''), secs, time.time() - T0))
    for l in lines:
        print(l)
    return rc


def assume_scan(prop):
    """trusted stubs: functions replaced by a contract in the harness sources"""
    out = []
    for s in sorted(glob.glob(os.path.join(VERIF, 'spec', prop + '_*.cpp'))):
        for t in re.findall(r'//\s*LCV-TRUST:\s*(.*)', open(s).read()):
            out.append(t.strip())
    return out


if __name__ == '__main__':
    try:
        rc = main()
    except build.BuildError as e:
        print('build failed:', e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
