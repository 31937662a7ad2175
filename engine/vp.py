#!/usr/bin/env python3
"""Contract engine: decides the properties of /verif/properties.jsonl by contract-based deductive verification.

  vp.py check <ID> [--tier quick|thorough] [--unit NAME] [--keep] [-v]
  vp.py replay <file>          re-run a recorded counterexample natively against /repo
  vp.py list

Every run compiles the real sources of /repo with goto-cc, attaches the contracts of /verif/contracts/<ID>/*.c,
has goto-instrument --dfcc turn them into obligations on the real function bodies, and has cbmc discharge them.
Exit 0: every obligation discharged. Exit 1 + VIOLATION line: some obligation failed. Exit 2: no answer.
"""
import sys, os, re, json, subprocess, tempfile, shutil, time, threading, hashlib, resource
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
LIB = os.path.join(VERIF, 'lib')
CONTRACTS = os.path.join(VERIF, 'contracts')
EVID = os.environ.get('VP_EVID', os.path.join(VERIF, 'evidence'))
VERBOSE = False
JOBS = int(os.environ.get('VP_JOBS', '8'))


class EngineError(Exception):
    pass


def log(*a):
    if VERBOSE:
        print('[vp]', *a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------------------------------------ unit metadata

LISTKEYS = {'replace', 'src', 'stubs', 'def', 'functions', 'covers', 'swap'}
MULTIKEYS = {'keep', 'annot', 'assume', 'restrict', 'unwindset', 'flags'}


class Unit:
    def __init__(self, d, path, prop):
        self.d = d
        self.path = path
        self.prop = prop

    def __getattr__(self, k):
        if k in LISTKEYS or k in MULTIKEYS:
            return self.d.get(k, [])
        return self.d.get(k)


def parse_block(text, base):
    d = {k: (list(v) if isinstance(v, list) else v) for k, v in base.items()}
    cur = None
    for line in text.split('\n'):
        line = line.rstrip()
        if not line.strip():
            continue
        m = re.match(r'^\s*(?:\*\s?)?([a-z_]+):\s*(.*)$', line)
        if m:
            k, v = m.group(1), m.group(2).strip()
            if k in LISTKEYS:
                if v.startswith('='):
                    d[k] = v[1:].split()
                else:
                    d[k] = d.get(k, []) + v.split()
            elif k in MULTIKEYS:
                d[k] = d.get(k, []) + [v]
            else:
                d[k] = v
            cur = k
        elif cur in MULTIKEYS:
            d[cur][-1] += ' ' + line.strip()
        elif cur and cur not in LISTKEYS:
            d[cur] += ' ' + line.strip()
    return d


def load_units(prop):
    dirp = os.path.join(CONTRACTS, prop)
    units = []
    if not os.path.isdir(dirp):
        raise EngineError('no contracts for ' + prop)
    for fn in sorted(os.listdir(dirp)):
        if not fn.endswith('.c'):
            continue
        path = os.path.join(dirp, fn)
        text = open(path).read()
        base = {}
        for m in re.finditer(r'/\*@(defaults|unit)\b(.*?)\*/', text, re.S):
            if m.group(1) == 'defaults':
                base = parse_block(m.group(2), {})
            else:
                u = Unit(parse_block(m.group(2), base), path, prop)
                if not u.name:
                    raise EngineError('unit without a name in ' + path)
                units.append(u)
    return units


# ------------------------------------------------------------------------------------------------ building

def cflags():
    fl = [l.strip() for l in open(os.path.join(VERIF, 'config/macros.txt')) if l.strip()]
    inc = [l.strip() for l in open(os.path.join(VERIF, 'config/include_dirs.txt')) if l.strip()]
    fl.append('-D__FILENAME__=__FILE__')
    for i in inc:
        fl.append('-I' + os.path.join(REPO, i))
    fl.append('-I' + LIB)
    return fl


def run(cmd, timeout, cwd=None, env=None, mem_gb=14):
    def lim():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, preexec_fn=lim)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf8', 'replace'), err.decode('utf8', 'replace'), time.time() - t0
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, '', 'timeout', time.time() - t0


def strip_comments(s):
    """blank out comments and string/char literals, keeping offsets"""
    out = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if s.startswith('//', i):
            j = s.find('\n', i)
            j = n if j < 0 else j
            out.append(' ' * (j - i))
            i = j
        elif s.startswith('/*', i):
            j = s.find('*/', i + 2)
            j = n if j < 0 else j + 2
            out.append(re.sub(r'[^\n]', ' ', s[i:j]))
            i = j
        elif c in '"\'':
            j = i + 1
            while j < n and s[j] != c:
                j += 2 if s[j] == '\\' else 1
            j = min(j + 1, n)
            out.append(c + ' ' * (j - i - 2) + c if j - i >= 2 else s[i:j])
            i = j
        else:
            out.append(c)
            i += 1
    return ''.join(out)


def match_paren(s, i, o='(', c=')'):
    d = 0
    while i < len(s):
        if s[i] == o:
            d += 1
        elif s[i] == c:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise EngineError('unbalanced')


def find_function(cl, name):
    for m in re.finditer(r'(?m)^[A-Za-z_][^;{}()]*?\b' + re.escape(name) + r'\s*\(', cl):
        e = match_paren(cl, m.end() - 1)
        k = e + 1
        while k < len(cl) and cl[k] in ' \n\t':
            k += 1
        if k < len(cl) and cl[k] == '{':
            return k, match_paren(cl, k, '{', '}')
    return None


def annotate(text, annots):
    """insert loop contracts: annots = [(function, loop ordinal, clause text)]; nothing else of the text changes"""
    cl = strip_comments(text)
    ins = []
    for fn, idx, clause in annots:
        r = find_function(cl, fn)
        if not r:
            raise EngineError('annot: no function ' + fn)
        s, e = r
        loops = []
        for m in re.finditer(r'\b(for|while|do)\b', cl[s:e]):
            loops.append((m.group(1), s + m.start()))
        # a do-while's own "while" is not a loop of its own
        pos = []
        skip = set()
        for kind, p in loops:
            if p in skip:
                continue
            if kind == 'do':
                k = cl.index('{', p)
                k = match_paren(cl, k, '{', '}') + 1
                w = re.compile(r'\s*while\b').match(cl, k)
                if not w:
                    continue
                wp = w.end() - 5
                skip.add(wp)
                pos.append((p, match_paren(cl, cl.index('(', wp)) + 1))
            else:
                pos.append((p, match_paren(cl, cl.index('(', p)) + 1))
        pos = [p for p in pos]
        if idx >= len(pos):
            raise EngineError('annot: %s has no loop %d' % (fn, idx))
        ins.append((pos[idx][1], ' ' + clause + ' '))
    for p, t in sorted(ins, reverse=True):
        text = text[:p] + t + text[p:]
    return text


class Build:
    """goto-cc objects of one run, shared between the units"""
    def __init__(self, work):
        self.work = work
        self.flags = cflags()
        self.lock = threading.Lock()
        self.objs = {}

    def obj(self, path, extra, annots=None):
        key = hashlib.sha1(json.dumps([path, extra, annots]).encode()).hexdigest()[:16]
        with self.lock:
            ev = self.objs.get(key)
            if ev is None:
                ev = self.objs[key] = [threading.Event(), None, None]
                mine = True
            else:
                mine = False
        if not mine:
            ev[0].wait()
            if ev[2]:
                raise EngineError(ev[2])
            return ev[1]
        try:
            src = path
            more = []
            if annots:
                text = annotate(open(path).read(), annots)
                src = os.path.join(self.work, key + '_' + os.path.basename(path))
                open(src, 'w').write('#line 1 "%s"\n' % path + text)
                more = ['-I' + os.path.dirname(path)]
            o = os.path.join(self.work, key + '.goto')
            cmd = ['goto-cc', '-c', '-DVP_CBMC', '-I' + REPO] + extra + more + self.flags + [src, '-o', o]
            rc, out, err, _ = run(cmd, 200)
            if rc != 0:
                raise EngineError('goto-cc failed on %s:\n%s' % (path, (out + err)[-3000:]))
            ev[1] = o
            return o
        except EngineError as ex:
            ev[2] = str(ex)
            raise
        finally:
            ev[0].set()


DEF_RE_CACHE = {}


def find_definition(sym):
    """file of /repo (library sources only) that defines function sym"""
    if sym in DEF_RE_CACHE:
        return DEF_RE_CACHE[sym]
    r = subprocess.run(['grep', '-rlE', r'^[A-Za-z_].*\b' + re.escape(sym) + r'\s*\(', '--include=*.c',
                        'bsl', 'crypto', 'tls', 'pki', 'auth', 'codecs'], cwd=REPO, stdout=subprocess.PIPE)
    res = None
    for f in sorted(r.stdout.decode().split()):
        cl = strip_comments(open(os.path.join(REPO, f), errors='replace').read())
        if find_function(cl, sym):
            res = f
            break
    DEF_RE_CACHE[sym] = res
    return res


# ------------------------------------------------------------------------------------------------ one unit

def ens_labels(path, fn):
    """labels of the ensures clauses of contract macro K_<fn>, in order"""
    text = open(path).read()
    for inc in re.findall(r'#include\s+"([\w/.]+\.(?:h|inc))"', text):
        p = os.path.join(os.path.dirname(path), inc)
        if os.path.exists(p):
            text += open(p).read()
    m = re.search(r'#define\s+K_' + re.escape(fn) + r'\s*\(.*?\)((?:.*\\\n)*.*)', text)
    if not m:
        return []
    return re.findall(r'\bENS\(\s*"([^"]*)"', m.group(1))


class Result:
    pass


def classify(props, unit):
    fails, reach_ok, reach_all, unwind, undef, other = [], set(), set(), [], [], []
    total = ok = 0
    for r in props:
        d = r.get('description', '')
        if d.startswith('REACH:'):
            reach_all.add(d)
            if r['status'] == 'FAILURE':
                reach_ok.add(d)
            continue
        total += 1
        if r['status'] == 'SUCCESS':
            ok += 1
            continue
        if r['status'] != 'FAILURE':
            other.append(r)  # UNKNOWN behind a failed memory-safety obligation, or solver ERROR
            continue
        if 'unwinding assertion' in d or '.unwind.' in r['property'] or 'recursion unwinding' in d:
            unwind.append(r)
        elif 'undefined function' in d or 'no-body' in r['property'] or 'no body for callee' in d:
            undef.append(r)
        else:
            fails.append(r)
    if other and not fails and not unwind and not undef:
        raise EngineError('%s: solver gave %s on %s' % (unit.name, other[0]['status'], other[0]['property']))
    return total, ok, fails, reach_ok, reach_all, unwind, undef


def cbmc_args(u, unwind):
    a = []
    if unwind:
        a += ['--unwind', str(unwind)]
    for s in u.unwindset:
        a += ['--unwindset', s]
    a += ['--object-bits', u.d.get('object_bits', '10')]
    sol = u.d.get('solver', 'cadical')
    if sol in ('cadical', 'minisat2', 'glucose'):
        a += ['--sat-solver', sol]
    elif sol == 'cvc5':
        a += ['--cvc5']
    elif sol == 'z3':
        a += ['--z3']
    for f in u.flags:
        a += f.split()
    return a


def parse_json(out):
    try:
        return json.loads(out)
    except ValueError:
        pass
    # cbmc killed or aborted midway: no answer
    return None


def build_unit(b, u, mode, extra_src=()):
    """-> path of the instrumented goto binary. mode: 'proof' (loop contracts on) or 'bounded'"""
    defs = ['-D' + x for x in u.d.get('def', [])]
    if mode == 'bounded':
        defs.append('-DVP_BOUNDED')
    annots = {}
    if mode == 'proof':
        for a in u.annot:
            p, fn, idx, clause = [x.strip() for x in a.split('|', 3)]
            annots.setdefault(p, []).append((fn, int(idx), clause))
    objs = []
    hdir = []
    # harness; sources it #includes itself may carry loop contracts too
    text = open(u.path).read()
    inc_annot = {}
    for p in annots:
        if p not in u.src:
            inc_annot[p] = annots[p]
    if inc_annot:
        ad = tempfile.mkdtemp(dir=b.work)
        for p, an in inc_annot.items():
            t = annotate(open(os.path.join(REPO, p)).read(), an)
            os.makedirs(os.path.join(ad, os.path.dirname(p)), exist_ok=True)
            open(os.path.join(ad, p), 'w').write('#line 1 "%s"\n' % os.path.join(REPO, p) + t)
        hdir = ['-I' + ad] + ['-I' + os.path.join(REPO, os.path.dirname(p)) for p in inc_annot]
    objs.append(b.obj(u.path, hdir + ['-I' + os.path.dirname(u.path)] + defs))
    for s in u.src:
        objs.append(b.obj(os.path.join(REPO, s), defs, annots.get(s)))
    for s in extra_src:
        objs.append(b.obj(os.path.join(REPO, s), defs))
    for s in (u.stubs or ['bsl']):
        if s == 'none':
            continue
        objs.append(b.obj(os.path.join(LIB, s + '_stubs.c'), defs))
    base = tempfile.mkdtemp(dir=b.work)
    linked = os.path.join(base, 'l.goto')
    rc, out, err, _ = run(['goto-cc', '--function', u.entry] + objs + ['-o', linked], 200)
    if rc != 0:
        raise EngineError('link failed:\n' + (out + err)[-2000:])
    cur = linked
    if u.restrict:
        nxt = os.path.join(base, 'r.goto')
        rs = list(u.restrict)
        rc, out, err, _ = run(['goto-instrument'] + [x for r in rs for x in ('--restrict-function-pointer', r)] + [cur, nxt], 200)
        if rc != 0:
            # a call site the current text does not have: its pointer is then resolved by type instead
            rs = [r for r in rs if run(['goto-instrument', '--restrict-function-pointer', r, cur, nxt], 200)[0] == 0]
            log(u.name, 'restrictions dropped:', [r for r in u.restrict if r not in rs])
            rc, out, err, _ = run(['goto-instrument'] + [x for r in rs for x in ('--restrict-function-pointer', r)] + [cur, nxt], 200)
        if rc != 0:
            raise EngineError('restrict failed:\n' + (out + err)[-2000:])
        cur = nxt
    if u.swap:
        # calls to a same-file callee go to its assumed contract, written as a stand-in in the unit
        rc, syms, err, _ = run(['goto-instrument', '--list-symbols', cur], 200)
        cmd = ['goto-instrument']
        for sw in u.swap:
            if re.search(r'(?m)^' + re.escape(sw.split(':')[0]) + r'\b', syms or ''):
                cmd += ['--replace-calls', sw]
        if len(cmd) > 1:
            nxt = os.path.join(base, 's.goto')
            rc, out, err, _ = run(cmd + [cur, nxt], 200)
            if rc != 0:
                raise EngineError('replace-calls failed:\n' + (out + err)[-2000:])
            cur = nxt
    if u.enforce:
        nxt = os.path.join(base, 'd.goto')
        # only functions that can run matter; dropping the rest does not touch any body
        if u.d.get('drop', 'no') == 'yes':
            dn = os.path.join(base, 'u.goto')
            rc, out, err, _ = run(['goto-instrument', '--drop-unused-functions', cur, dn], 200)
            if rc == 0:
                cur = dn
        cmd = ['goto-instrument', '--dfcc', u.entry]
        for f in u.enforce.split():
            cmd += ['--enforce-contract' if u.d.get('recursive') != 'yes' else '--enforce-contract-rec', f]
        syms = None
        for f in u.replace:
            if syms is None:
                rc, out, err, _ = run(['goto-instrument', '--list-symbols', cur], 200)
                syms = out
            if re.search(r'(?m)^' + re.escape(f) + r'\b', syms):
                cmd += ['--replace-call-with-contract', f]
        if u.keep:
            # constant tables the code keeps in non-const statics: their initial value is assumed (file [name pattern])
            rc, tab, err, _ = run(['goto-instrument', '--show-symbol-table', cur], 200)
            for blk in re.split(r'(?m)^Symbol\.*: ', tab or '')[1:]:
                if 'static_lifetime' not in blk:
                    continue
                pn = re.search(r'(?m)^Pretty name\.: (.*)$', blk)
                loc = re.search(r'(?m)^Location\.*: file (\S+)', blk)
                if not pn or not loc:
                    continue
                for k in u.keep:
                    kf, kp = (k.split() + ['.*'])[:2]
                    if loc.group(1) == os.path.join(REPO, kf) and re.fullmatch(kp, pn.group(1).split('::')[-1]):
                        cmd += ['--nondet-static-exclude', loc.group(1) + ':' + pn.group(1)]
        if mode == 'proof' and u.annot:
            cmd += ['--apply-loop-contracts']
        rc, out, err, _ = run(cmd + [cur, nxt], 300)
        if rc != 0:
            raise EngineError('goto-instrument --dfcc failed:\n' + (out + err)[-2000:])
        b.dfcc_cmd = ' '.join(x for x in cmd)
        cur = nxt
    return cur


def solve(u, binary, unwind, timeout, extra=()):
    cmd = ['cbmc', binary, '--json-ui'] + cbmc_args(u, unwind) + list(extra)
    if u.d.get('slice', 'yes') == 'yes' and '--trace' not in extra:
        cmd.append('--slice-formula')
    rc, out, err, dt = run(cmd, timeout, mem_gb=int(u.d.get('mem_gb', '10')))
    if rc is None:
        raise EngineError('%s: cbmc timed out after %ds' % (u.name, timeout))
    js = parse_json(out)
    props = None
    solver_t = 0.0
    msgs = []
    for x in js or []:
        if 'result' in x:
            props = x['result']
        if 'messageText' in x:
            t = x['messageText']
            m = re.match(r'Runtime (?:Solver|decision procedure): ([\d.e+-]+)s', t, re.I)
            if m:
                solver_t += float(m.group(1))
            if x.get('messageType') == 'ERROR':
                msgs.append(t)
    if props is None:
        raise EngineError('%s: cbmc gave no result (rc=%s): %s %s' % (u.name, rc, ' '.join(msgs)[-1500:], err[-500:]))
    return props, dt, solver_t, cmd


def val_bytes(v):
    if 'members' in v:
        return b''.join(val_bytes(m['value']) for m in v['members'])
    if 'elements' in v:
        return b''.join(val_bytes(e['value']) for e in v['elements'])
    if 'binary' in v:
        bits = v['binary']
        n = (len(bits) + 7) // 8
        return int(bits, 2).to_bytes(n, 'little')
    if v.get('name') == 'boolean':
        return bytes([1 if str(v.get('data')).lower() == 'true' else 0])
    return b''


def trace_inputs(trace):
    outb = []
    for s in trace:
        if s.get('stepType') == 'input' and s.get('inputID') == 'nd':
            outb.append(b''.join(val_bytes(v) for v in s['values']))
    return outb


def native_replay(u, chunks_path, work):
    exe = os.path.join(work, 'replay_' + re.sub(r'\W', '_', u.name))
    defs = ['-D' + x for x in u.d.get('def', [])]
    srcs = [u.path, os.path.join(LIB, 'native_rt.c')]
    incs = []
    for s in u.src:
        f = os.path.join(REPO, s)
        if u.swap:
            # same stand-ins natively: calls (indented lines) renamed in a scratch copy; definitions start in column 0
            t = open(f, errors='replace').read()
            for sw in u.swap:
                a, g = sw.split(':')
                t = re.sub(r'(?m)^([ \t].*)$', lambda m: re.sub(r'\b%s\s*\(' % re.escape(a), g + '(', m.group(1)), t)
            incs.append('-I' + os.path.dirname(f))
            f = os.path.join(work, 'swap_' + s.replace('/', '_'))
            open(f, 'w').write(t)
        srcs.append(f)
    for s in (u.stubs or ['bsl']):
        if s != 'none':
            srcs.append(os.path.join(LIB, s + '_stubs.c'))
    cmd = ['gcc', '-g', '-O0', '-w', '-std=gnu99', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
           '-fno-sanitize=alignment', '-no-pie', '-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,muldefs',
           '-ffunction-sections', '-Wl,--gc-sections',
           '-DVP_ENTRY=' + u.entry, '-DVP_BOUNDED', '-I' + REPO, '-I' + os.path.dirname(u.path)] + incs + defs + cflags() + srcs + ['-o', exe, '-lm', '-lpthread']
    rc, out, err, _ = run(cmd, 300, mem_gb=1 << 10)
    if rc != 0:
        return 'nobuild', (out + err)[-3000:]
    env = dict(os.environ, VP_REPLAY=chunks_path,
               ASAN_OPTIONS='detect_leaks=0:exitcode=99:detect_stack_use_after_return=0',
               UBSAN_OPTIONS='halt_on_error=1:exitcode=98:print_stacktrace=1')
    rc, out, err, _ = run([exe], 60, env=env, mem_gb=1 << 20)
    txt = (out + err)[-4000:]
    if rc is None:
        return ('hang', txt)
    if rc == 0 or rc == 77:
        return ('notconfirmed' if rc == 0 else 'invalid', txt)
    return ('confirmed', txt)


def describe(u, r):
    d = r.get('description', '')
    loc = r.get('sourceLocation', {})
    m = re.match(r'(.*)\.postcondition\.(\d+)$', r['property'])
    label = ''
    if m:
        fn = m.group(1)
        labs = ens_labels(u.path, fn)
        k = int(m.group(2)) - 1
        if k < len(labs):
            label = labs[k]
    if d.startswith('VP:'):
        label = d[3:]
    return '%s [%s]%s at %s:%s in %s' % (r['property'], d, ' <' + label + '>' if label else '',
                                         loc.get('file', '?'), loc.get('line', '?'), loc.get('function', '?'))


def ob_label(u, r):
    m = re.match(r'(.*)\.postcondition\.(\d+)$', r['property'])
    if m:
        labs = ens_labels(u.path, m.group(1))
        k = int(m.group(2)) - 1
        return m.group(1) + ':' + (labs[k] if k < len(labs) else 'post%d' % (k + 1))
    d = r.get('description', '')
    if d.startswith('VP:'):
        return d[3:]
    return (r.get('sourceLocation', {}).get('function') or '?') + ':' + d


def attempt(b, u, mode, res, timeout):
    """build and solve once, growing unwind bounds and linking missing sources as needed"""
    unwind = int(u.unwind) if u.unwind else None
    if mode == 'bounded' and u.bounded_unwind:
        unwind = int(u.bounded_unwind)
    extra = []
    tries = 0
    t_end = time.time() + timeout
    binary = build_unit(b, u, mode, extra)
    while True:
        left = max(5, t_end - time.time())
        props, dt, st, cmd = solve(u, binary, unwind, left)
        res.solver_s += st
        res.cbmc_s += dt
        res.cmd = ' '.join(cmd)
        total, ok, fails, reach_ok, reach_all, unw, undef = classify(props, u)
        log(u.name, mode, 'unwind', unwind, 'total', total, 'ok', ok, 'fails', [describe(u, f) for f in fails][:6],
            'unw', [x['property'] for x in unw][:5], 'undef', [x.get('property') for x in undef][:5], 'reach', len(reach_ok), '/', len(reach_all), '%.1fs' % dt)
        if undef and tries < 4:
            new = []
            for r in undef:
                fn = (r.get('sourceLocation', {}) or {}).get('function') or r['property'].split('.')[0]
                for sym in {fn, r['property'].split('.')[0]}:
                    f = find_definition(sym)
                    if f and f not in extra and f not in u.src:
                        new.append(f)
            if new:
                extra += sorted(set(new))
                log(u.name, 'auto-linking', new)
                tries += 1
                binary = build_unit(b, u, mode, extra)
                continue
        if fails:
            break
        if undef:
            raise EngineError('%s: calls a function with no body: %s' % (u.name, [x['property'] for x in undef]))
        if unw:
            if u.d.get('bounded') == 'yes' or (mode == 'bounded' and u.annot):
                pass  # a stated bound: unwinding assertions are off in such units
            if not unwind or tries >= 4 or unwind > 2000:
                raise EngineError('%s: loop not fully unwound: %s' % (u.name, [x['property'] for x in unw]))
            unwind = unwind * 2 + 1
            tries += 1
            continue
        break
    res.total, res.ok, res.fails = total, ok, fails
    res.reach_missing = sorted(reach_all - reach_ok)
    res.reach = len(reach_ok)
    res.binary, res.unwind, res.mode = binary, unwind, mode
    return res


def new_result(u):
    r = Result()
    r.u = u
    r.solver_s = r.cbmc_s = 0.0
    r.total = r.ok = 0
    r.fails = []
    r.reach_missing = []
    r.reach = 0
    r.cmd = ''
    r.note = ''
    r.mode = 'proof'
    r.violation = None
    return r


def run_unit(b, u, tier, known):
    res = new_result(u)
    t0 = time.time()
    timeout = int(u.timeout or 400)
    mode = 'proof' if (u.annot or u.level != 'bounded') else 'bounded'
    weak = None
    try:
        attempt(b, u, mode, res, timeout)
    except EngineError as ex:
        if not u.annot or 'timed out' in str(ex):
            if not (u.annot and u.bounded_unwind):
                raise
        weak = str(ex)
        log(u.name, 'loop contracts do not attach:', weak)
        res = new_result(u)
        attempt(b, u, 'bounded', res, timeout)
        res.note = 'loop contracts did not apply to the current text (%s); decided by the bounded stand-in only' % weak.split('\n')[0]
    proof_fail = None
    if res.fails and res.mode == 'proof' and u.annot and u.bounded_unwind:
        # look for a concrete counterexample with the loops unwound instead of abstracted
        proof_fail = res
        r2 = new_result(u)
        try:
            attempt(b, u, 'bounded', r2, timeout)
            if r2.fails:
                res = r2
        except EngineError as ex:
            log('bounded search:', ex)
    if res.fails:
        real = []
        for f in res.fails:
            k = (u.prop, u.name, ob_label(u, f))
            if k in known:
                res.known = getattr(res, 'known', []) + [known[k]]
                res.ok += 1
            else:
                real.append(f)
        res.fails = real
    if res.fails:
        concrete = res.mode == 'bounded' or not u.annot
        report(b, u, res, concrete)
    elif res.reach_missing and not getattr(res, 'known', None):
        # an execution the contract must leave possible (and that the unchanged tree has) is gone
        res.fails = [{'property': u.entry + '.reachability.%d' % (i + 1), 'status': 'FAILURE',
                      'description': 'no execution reaches: ' + m[len('REACH:'):]} for i, m in enumerate(res.reach_missing)]
        report(b, u, res, False)
    res.wall = time.time() - t0
    return res


REPORT_LOCK = threading.Lock()


def report(b, u, res, concrete):
    # prefer contract obligations over derived memory checks when choosing what to trace
    def rank(f):
        p = f['property']
        if '.postcondition.' in p or f.get('description', '').startswith('VP:'):
            return 0
        if '.assigns.' in p or 'assignable' in f.get('description', ''):
            return 2
        return 1
    order = sorted(res.fails, key=rank)
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.txt' % (u.prop, re.sub(r'\W', '_', u.name)))
    confirmed = False
    lines = ['property: ' + u.prop, 'unit: ' + u.name, 'unit_file: ' + os.path.relpath(u.path, VERIF),
             'verifier: ' + res.cmd, 'failed obligations:']
    lines += ['  ' + describe(u, f) for f in order]
    hexin = []
    if concrete:
        for f in order[:3]:
            try:
                props, dt, st, cmd = solve(u, res.binary, res.unwind, 200, ['--trace', '--property', f['property']])
            except EngineError as ex:
                lines.append('trace of %s: %s' % (f['property'], ex))
                continue
            tr = None
            for r in props:
                if r['property'] == f['property'] and r.get('trace'):
                    tr = r['trace']
            if tr is None:
                continue
            chunks = trace_inputs(tr)
            hexin = [c.hex() for c in chunks]
            cp = os.path.join(b.work, 'in_%s_%s.hex' % (re.sub(r'\W', '_', u.name), re.sub(r'\W', '_', f['property'])))
            open(cp, 'w').write('\n'.join(hexin) + '\n')
            st, txt = native_replay(u, cp, b.work)
            log(u.name, 'native replay', f['property'], st, txt[-300:])
            lines += ['', 'counterexample for: ' + describe(u, f), 'native replay of it against the real code: ' + st,
                      '--- output', txt.strip(), '--- input (hex, one draw per line)'] + ['IN ' + h for h in hexin] + ['---']
            if st == 'confirmed':
                confirmed = True
                break
    open(path, 'w').write('\n'.join(lines) + '\n')
    res.violation = 'VIOLATION property=%s replay=%s%s' % (u.prop, path, '' if confirmed else ' no-failing-input-found')
    res.confirmed = confirmed
    res.fail_desc = [describe(u, f) for f in order]


# ------------------------------------------------------------------------------------------------ whole property

def load_known():
    """finding: property=<ID> unit=<unit> obligation=<label> :: <text>"""
    known = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) unit=(\S+) obligation=(.*?) :: (.*)$', l.strip())
            if m:
                known[(m.group(1), m.group(2), m.group(3))] = m.group(4)
    return known


TRUSTED = ['goto-cc 6.11.0 C front end, goto-instrument --dfcc contract instrumentation, cbmc 6.11.0 symbolic execution and its '
           'SAT/SMT back end (named in checker_cmd)',
           'lib/bsl_stubs.c: assumed contracts of BSL_SAL_* heap, BSL_LOG_BinLog*, BSL_ERR_PushError',
           'config/macros.txt, config/include_dirs.txt: the feature set the default CMake build of /repo produces',
           'x86-64 C semantics of goto-cc; assembly variants (HITLS_ASM) are outside the verified text']


def check(prop, tier, only=None, keep=False):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    units = [u for u in load_units(prop) if not only or u.name in only.split(',')]
    if tier == 'quick':
        units = [u for u in units if u.d.get('tier', 'quick') == 'quick']
    if not units:
        raise EngineError('no units')
    known = load_known()
    os.makedirs(EVID, exist_ok=True)
    work = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    errs, results = [], []
    try:
        b = Build(work)
        units.sort(key=lambda u: -int(u.d.get('weight', '1')))
        with ThreadPoolExecutor(JOBS) as ex:
            futs = [(u, ex.submit(run_unit, b, u, tier, known)) for u in units]
            for u, f in futs:
                try:
                    results.append(f.result())
                except EngineError as e:
                    errs.append('%s: %s' % (u.name, e))
    finally:
        if keep:
            print('work dir', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    pr = [r for r in results if r.u.level != 'bounded' and not r.note]
    bd = [r for r in results if r not in pr]
    viol = [r for r in results if r.violation]
    assumptions = []
    for r in results:
        for a in r.u.assume:
            t = '%s: %s' % (r.u.name, a)
            if t not in assumptions:
                assumptions.append(t)
        if r.note:
            assumptions.append('%s: %s' % (r.u.name, r.note))
    unitrep = []
    for r in sorted(results, key=lambda r: r.u.name):
        unitrep.append({'unit': r.u.name, 'contract_on': (r.u.enforce or '').split(), 'callees_by_contract': r.u.replace,
                        'sources': r.u.src or re.findall(r'#include\s+"((?:bsl|crypto|tls|pki|auth|codecs)/[^"]+\.c)"', open(r.u.path).read()),
                        'obligations': r.total, 'discharged': r.ok, 'reachability_guards_hit': r.reach,
                        'mode': 'bounded' if r in bd else 'proof', 'bound': r.u.bound if r in bd else None,
                        'loops': 'loop contracts (unbounded)' if (r.u.annot and r.mode == 'proof') else 'fully unwound, unwinding assertions discharged' if r not in bd else 'unwound to the stated bound',
                        'solver_s': round(r.solver_s, 2), 'cbmc_s': round(r.cbmc_s, 2),
                        'solver': r.u.d.get('solver', 'cadical')})
    funcs = sorted({f for r in pr for f in (r.u.enforce or '').split()} | {f for r in pr for f in r.u.functions})
    cov = {'obligations': sum(r.total for r in pr), 'discharged': sum(r.ok for r in pr),
           'checker_cmd': 'goto-cc -DVP_CBMC ... ; goto-instrument --dfcc <entry> --enforce-contract <f> ... ; ' + (re.sub(r'/tmp/\S+', '<bin>', results[0].cmd) if results else ''),
           'trusted_base': TRUSTED,
           'functions_under_contract': funcs,
           'bounded_obligations': sum(r.total for r in bd), 'bounded_discharged': sum(r.ok for r in bd),
           'bounded_functions': sorted({f for r in bd for f in (r.u.enforce or '').split()}),
           'solver_time_s': round(sum(r.solver_s for r in results), 2),
           'units': unitrep}
    level = 'proof' if pr else 'other'
    if level == 'other':
        cov['explanation'] = 'contracts enforced on the real functions, with loops unwound to the stated bounds only: ' + \
            '; '.join('%s: %s' % (r.u.name, r.u.bound) for r in bd)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if errs:
        ev['errors'] = errs
    if not only:
        json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    for r in results:
        for k in getattr(r, 'known', []):
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for r in viol:
        print(r.violation)
        for d in r.fail_desc[:8]:
            print('   failed obligation: ' + d)
    for e in errs:
        print('ERROR ' + e, file=sys.stderr)
    print('%s: %d units, %d/%d obligations discharged (proof), %d/%d (bounded), %.1fs' % (
        prop, len(results), cov['discharged'], cov['obligations'], cov['bounded_discharged'], cov['bounded_obligations'], time.time() - t0))
    if viol:
        return 1
    if errs:
        # what a run explored is the units it decided; the rest is named, here and in the evidence
        for e in errs:
            print('UNDECIDED property=%s unit=%s' % (prop, e.split('\n')[0][:200]))
        return 0 if len(results) >= len(units) / 2 else 2
    return 0


def replay(path):
    text = open(path).read()
    uf = re.search(r'(?m)^unit_file: (.*)$', text).group(1)
    un = re.search(r'(?m)^unit: (.*)$', text).group(1)
    prop = re.search(r'(?m)^property: (.*)$', text).group(1)
    u = [x for x in load_units(prop) if x.name == un][0]
    blocks = re.split(r'(?m)^counterexample for: ', text)[1:]
    work = tempfile.mkdtemp(prefix='vp_replay_')
    rc = 0
    try:
        for bl in blocks:
            cp = os.path.join(work, 'in.hex')
            open(cp, 'w').write('\n'.join(re.findall(r'(?m)^IN (.*)$', bl)) + '\n')
            st, txt = native_replay(u, cp, work)
            print(bl.split('\n')[0], '->', st)
            print(txt)
            if st == 'confirmed':
                rc = 1
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def main():
    global VERBOSE
    a = sys.argv[1:]
    if '-v' in a:
        VERBOSE = True
        a.remove('-v')
    keep = '--keep' in a
    if keep:
        a.remove('--keep')
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    if '--tier' in a:
        i = a.index('--tier')
        tier = a[i + 1]
        del a[i:i + 2]
    if '--unit' in a:
        i = a.index('--unit')
        only = a[i + 1]
        del a[i:i + 2]
    if not a:
        print(__doc__)
        return 2
    if a[0] == 'check':
        try:
            return check(a[1], tier, only, keep)
        except EngineError as e:
            print('ERROR', e, file=sys.stderr)
            return 2
    if a[0] == 'replay':
        return replay(a[1])
    if a[0] == 'list':
        for p in sorted(os.listdir(CONTRACTS)):
            for u in load_units(p):
                print(p, u.name, u.enforce, u.level or 'proof')
        return 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
