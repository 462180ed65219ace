"""Compile a contract harness together with the real FCL sources of /repo's working tree."""
import os, re, subprocess, sys, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LCV_REPO', '/repo')
EIGEN = '/usr/include/eigen3'
OPT = 'opt-18' if os.path.exists('/usr/bin/opt-18') else 'opt'


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (' '.join(cmd), (r.stderr or r.stdout)[-6000:]))
    return r.stdout


def prep(out):
    """generated headers (what cmake's configure step writes): config.h from config.h.in, a plain export.h, fcl.h not needed"""
    g = os.path.join(out, 'gen', 'fcl')
    os.makedirs(g, exist_ok=True)
    vals = {'FCL_MAJOR_VERSION': '0', 'FCL_MINOR_VERSION': '7', 'FCL_PATCH_VERSION': '0', 'FCL_VERSION': '0.7.0',
            'FCL_HAVE_SSE': '0', 'FCL_HAVE_OCTOMAP': '1', 'FCL_ENABLE_PROFILING': '0', 'OCTOMAP_MAJOR_VERSION': '1',
            'OCTOMAP_MINOR_VERSION': '9', 'OCTOMAP_PATCH_VERSION': '7'}
    src = open(os.path.join(REPO, 'include/fcl/config.h.in')).read()
    txt = re.sub(r'@(\w+)@', lambda m: vals.get(m.group(1), '0'), src)
    txt = re.sub(r'#cmakedefine01 (\w+)', lambda m: '#define %s %s' % (m.group(1), vals.get(m.group(1), '0')), txt)
    txt = re.sub(r'#cmakedefine (\w+)(.*)', lambda m: '#define %s%s' % (m.group(1), m.group(2)) if vals.get(m.group(1), '0') != '0' else '/* #undef %s */' % m.group(1), txt)
    open(os.path.join(g, 'config.h'), 'w').write(txt)
    open(os.path.join(g, 'export.h'), 'w').write(
        '#ifndef FCL_EXPORT_H\n#define FCL_EXPORT_H\n#define FCL_EXPORT\n#define FCL_NO_EXPORT\n#define FCL_DEPRECATED\n'
        '#define FCL_DEPRECATED_EXPORT\n#define FCL_DEPRECATED_NO_EXPORT\n#endif\n')


def flags(out):
    return ['-std=c++14', '-DNDEBUG', '-DEIGEN_DONT_VECTORIZE', '-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize',
            '-Wno-everything', '-fno-access-control', '-I', os.path.join(out, 'gen'), '-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'src'), '-isystem', EIGEN,
            '-I', os.path.join(VERIF, 'spec')]


def preprocess(spec, out, tag, cxx):
    """run the preprocessor, then drop the explicit instantiation DECLARATIONS (`extern template ...;`) of FCL's headers, so that the
    template bodies are instantiated in this translation unit.  Nothing else of the source is touched."""
    name = os.path.splitext(os.path.basename(spec))[0]
    ii = os.path.join(out, name + tag + '.ii')
    sh(['clang++', '-E', spec, '-o', ii] + flags(out) + cxx)
    txt = open(ii).read()
    parts = re.split(r'(?m)^(# \d+ "[^"]*".*)$', txt)
    res = [parts[0]]
    inrepo = False
    text = []
    for k in range(1, len(parts), 2):
        f = re.match(r'# \d+ "([^"]*)"', parts[k]).group(1)
        inrepo = os.path.abspath(f).startswith(os.path.abspath(REPO) + '/')
        body = parts[k + 1]
        if inrepo:
            body = re.sub(r'\bextern\s+template\b[^;]*;', lambda m: '\n' * m.group(0).count('\n'), body)
        res.append(parts[k])
        res.append(body)
    open(ii, 'w').write(''.join(res))
    return ii


def fixll(path, noinline, replaced=()):
    txt = open(path).read()
    replaced = re.compile('|'.join(replaced)) if replaced else None
    if noinline:
        rx = re.compile('|'.join(noinline))

        def f(m):
            if not rx.search(m.group(2)):
                return m.group(0)
            line = m.group(0)
            if replaced and replaced.search(m.group(2)):
                # interposable: the optimiser may assume nothing about the body (it is used through its contract)
                line = re.sub(r'^define (internal |linkonce_odr |weak_odr |linkonce )?', 'define weak ', line)
                return re.sub(r'\)( unnamed_addr| local_unnamed_addr)?( #\d+)', lambda k: ')' + (k.group(1) or '') + ' noinline "disable-tail-calls"="true"', line, count=1)
            return re.sub(r'\)( unnamed_addr| local_unnamed_addr)?( #\d+)', lambda k: ')' + (k.group(1) or '') + ' noinline' + k.group(2), line, count=1) \
                if not line.count(' alwaysinline') else line
        txt = re.sub(r'^define ([^@\n]*)@("?[\w.$]+"?)\(.*$', f, txt, flags=re.M)
    open(path, 'w').write(txt)


def options(spec):
    src = open(spec).read()
    rep = re.findall(r'//\s*LCV-REPLACE:\s*(\S+)\s*=>\s*(\S+)', src)
    return {'noinline': re.findall(r'//\s*LCV-NOINLINE:\s*(\S+)', src) + [a for a, b in rep],
            'replace': rep,
            'cxx': sum([x.split() for x in re.findall(r'//\s*LCV-CXX:\s*(.*)', src)], []),
            'link': sum([x.split() for x in re.findall(r'//\s*LCV-LINK:\s*(.*)', src)], []),
            'opt': (re.findall(r'//\s*LCV-OPT:\s*(\S+)', src) or ['O2'])[0]}


def callgraph(ll, dst, replaced):
    """the functions each harness can reach in the IR before inlining (bodies of functions used through contracts are not entered);
    for the evidence only"""
    rx = re.compile('|'.join(replaced)) if replaced else None
    body = {}
    refs = re.compile(r'@([\w.$]+)')
    cur = None
    for line in open(ll):
        if line.startswith('define '):
            cur = refs.search(line).group(1) if refs.search(line) else None
            body[cur] = set()
        elif line.startswith('}'):
            cur = None
        elif cur and '@' in line:
            body[cur].update(refs.findall(line))
    with open(dst, 'w') as f:
        for h in sorted(b for b in body if b and b.startswith('vc_')):
            seen, todo = {h}, [h]
            while todo:
                x = todo.pop()
                if x != h and rx and rx.search(x):
                    continue
                for y in body[x]:
                    if y not in seen and y in body:
                        seen.add(y)
                        todo.append(y)
            f.write(h + ' ' + ' '.join(sorted(s for s in seen if s.startswith('_Z') and s in body and not (rx and rx.search(s)))) + '\n')


def build_ir(spec, out):
    name = os.path.splitext(os.path.basename(spec))[0]
    o = options(spec)
    ll = os.path.join(out, name + '.ll')
    bc = os.path.join(out, name + '.bc')
    ii = preprocess(spec, out, '', o['cxx'])
    sh(['clang++', '-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', ii, '-o', ll] + flags(out))
    os.unlink(ii)
    fixll(ll, o['noinline'], [a for a, b in o['replace']])
    callgraph(ll, os.path.join(out, name + '.funcs'), [a for a, b in o['replace']])
    sh([OPT, '-passes=default<%s>' % o['opt'], '-vectorize-loops=false', '-vectorize-slp=false', ll, '-o', bc])
    os.unlink(ll)
    return bc


def build_native(spec, out, extra=()):
    name = os.path.splitext(os.path.basename(spec))[0]
    o = options(spec)
    obj = os.path.join(out, name + '.n.o')
    rt = os.path.join(out, 'native.o')
    exe = os.path.join(out, name + '.exe')
    ii = preprocess(spec, out, '.n', o['cxx'] + ['-DLCV_NATIVE'] + list(extra))
    sh(['clang++', '-O1', '-c', ii, '-o', obj] + flags(out) + list(extra))
    os.unlink(ii)
    if not os.path.exists(rt):
        tmp = rt + '.%d' % os.getpid()
        sh(['clang++', '-O1', '-std=c++14', '-c', os.path.join(VERIF, 'lcv', 'native.cpp'), '-o', tmp])
        os.replace(tmp, rt)
    sh(['clang++', obj, rt, '-o', exe, '-lccd', '-loctomap', '-loctomath'] + o['link'] + ['-Wl,--unresolved-symbols=ignore-all', '-lpthread'])
    return exe
