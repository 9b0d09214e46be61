#!/usr/bin/env python3
"""Bounded model checking driver.

usage: run.py PROPERTY [--entry NAME] [--keep] [-v]

Takes the harness files under /verif/harness whose //@property line names
PROPERTY, compiles them with goto-cc together with the *current* sources of
/repo, lets CBMC decide every assertion for every input within the stated
bounds, and confirms each counterexample by running it natively (gcc, ASan)
on the same sources before reporting it.  See /verif/DESIGN.md.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VH_REPO', '/repo')
VLIB = os.path.join(VERIF, 'vlib')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = int(os.environ.get('VH_JOBS', '8'))
TOTAL = 840 if TIER == 'quick' else 6*3600
T0 = time.time()
VERBOSE = '-v' in sys.argv
BASECHECKS = ['--no-standard-checks', '--bounds-check', '--pointer-check', '--div-by-zero-check']
OPTCHECKS = {'overflow': '--signed-overflow-check', 'shift': '--undefined-shift-check',
             'conversion': '--conversion-check', 'uoverflow': '--unsigned-overflow-check',
             'leak': '--memory-leak-check', 'ptroverflow': '--pointer-overflow-check'}
SANITIZE = {'overflow': 'signed-integer-overflow', 'shift': 'shift'}


class Inconclusive(Exception):
    pass


def log(*a):
    if VERBOSE:
        print('%7.1f' % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- harness files
class Entry:
    def __init__(self, h, name, tag, opts, line):
        self.h, self.name, self.tag, self.opts, self.line = h, name, tag, opts, line
        self.id = name + ('-' + tag if tag else '')
        self.unwind = int(opts.get('unwind', 8))
        self.timeout = int(opts.get('timeout', 240 if TIER == 'quick' else 3600))
        self.checks = [c for c in opts.get('checks', '').split(',') if c]
        self.known = opts.get('known')
        self.defs = ['-D%s=%s' % kv for kv in opts.items() if kv[0].isupper() or kv[0][0] == '_']


class Harness:
    def __init__(self, path):
        self.path = path
        self.props, self.sources, self.stubs, self.flags, self.hflags, self.nobody = [], [], [], [], [], []
        self.native, self.assumes, self.notes, self.entries, self.wrap = [], [], [], [], []
        for line in open(path):
            m = re.match(r'//@(\w+)\s*(.*)', line)
            if not m:
                continue
            k, v = m.group(1), m.group(2).strip()
            if k == 'property': self.props += v.split()
            elif k == 'sources': self.sources += v.split()
            elif k == 'stubs': self.stubs += v.split()
            elif k == 'flags': self.flags += v.split()
            elif k == 'nobody': self.nobody += v.split()
            elif k == 'native': self.native += v.split()
            elif k == 'wrap': self.wrap += v.split()
            elif k == 'assume': self.assumes.append(v)
            elif k == 'bound': self.notes.append(v)
            elif k == 'entry': self.entries.append(v)
            else: sys.exit('%s: unknown directive %s' % (path, k))

    def expand(self, level=0):
        """Entries for this tier; level 1 is the fallback after a time-out."""
        out = []
        for e in self.entries:
            secs = re.split(r'\s*/(thorough|fallback)\b', e)
            head = secs[0].split()
            name, _, tag = head[0].partition('#')
            opts = dict(x.partition('=')[::2] for x in head[1:])
            extra = {secs[i]: dict(x.partition('=')[::2] for x in secs[i+1].split())
                     for i in range(1, len(secs), 2)}
            if opts.get('tier', TIER) != TIER:
                continue
            if level == 1:
                if TIER == 'quick' and 'fallback' not in extra:
                    continue
                if TIER == 'quick':
                    opts.update(extra['fallback'])
            elif TIER == 'thorough':
                opts.update(extra.get('thorough', {}))
            out.append(Entry(self, name, tag, opts, e))
        return out


def harnesses(prop):
    out = []
    for p in sorted(glob.glob(os.path.join(VERIF, 'harness', '*.c'))):
        h = Harness(p)
        if prop in h.props:
            out.append(h)
    return out


# ---------------------------------------------------------------- processes
def sh(cmd, timeout=None, env=None, cwd=None, mem=None):
    """Run cmd in its own process group; returns (rc, out, err); rc None on timeout."""
    def lim():
        os.setsid()
        if mem:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd,
                         preexec_fn=lim, stdin=subprocess.DEVNULL)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, e = p.communicate()
        rc = None
    return rc, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')


def remaining():
    return TOTAL - (time.time() - T0)


# ---------------------------------------------------------------- generated headers
def gendir(work):
    """Directory with the configure-time headers belonging to the current templates."""
    ok = True
    for line in open(os.path.join(VLIB, 'gen', 'INPUTS.sha256')):
        h, f = line.split()
        try:
            if hashlib.sha256(open(os.path.join(REPO, 'src', f), 'rb').read()).hexdigest() != h:
                ok = False
        except OSError:
            ok = False
    if ok:
        return os.path.join(VLIB, 'gen')
    # templates changed: configure afresh outside /repo
    b = os.path.join(work, 'cfg')
    rc, o, e = sh(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DWITH_PYTHON=OFF', '-DWITH_DOC=OFF',
                   '-DWITH_HDF5=OFF', '-DWITH_EXAMPLES=OFF', '-DCMAKE_BUILD_TYPE=Debug'], timeout=300)
    if os.path.exists(os.path.join(b, 'src', 'config.h')):
        return os.path.join(b, 'src')
    if os.path.exists(os.path.join(REPO, '_build', 'src', 'config.h')):
        return os.path.join(REPO, '_build', 'src')
    raise Inconclusive('cannot configure: ' + e[-500:])


class Ctx:
    pass


CTX = Ctx()


def includes():
    g, r = CTX.gen, REPO
    return ['-I' + VLIB, '-I' + g, '-I' + g + '/utils', '-I' + r + '/src', '-I' + r + '/src/utils',
            '-I/usr/include/rasqal', '-I/usr/include/raptor2', '-I/usr/include/python3.12']


BASEDEFS = ['-DHAVE_CONFIG_H', '-DHAVE_CONFIG_SNPRINTF_H', '-D_GNU_SOURCE', '-std=gnu11']


def srcpath(s):
    if s.startswith('vlib/') or s.startswith('harness/'):
        return os.path.join(VERIF, s)
    return os.path.join(REPO, s)


_locks, _done, _glock = {}, {}, threading.Lock()
_undef, _reach = {}, {}


def once(key, fn):
    with _glock:
        lk = _locks.setdefault(key, threading.Lock())
    with lk:
        if key not in _done:
            try: _done[key] = (True, fn())
            except Exception as ex: _done[key] = (False, ex)
        ok, v = _done[key]
        if not ok:
            raise v
        return v


def compile_goto(src, defs, extra=()):
    key = ('goto', src, tuple(defs), tuple(extra))
    def fn():
        out = os.path.join(CTX.work, 'g' + hashlib.md5(repr(key).encode()).hexdigest()[:16] + '.o')
        rc, o, e = sh(['goto-cc', '-c', '-DVH_CBMC', '-D__NO_CTYPE'] + BASEDEFS + list(defs) + list(extra)
                      + includes() + [src, '-o', out], timeout=120)
        if rc != 0:
            raise Inconclusive('goto-cc %s: %s' % (src, (o + e)[-1500:]))
        return out
    return once(key, fn)


def symbol_index():
    """Map function name -> file for every function defined in /repo/src (text scan)."""
    def fn():
        idx = {}
        for f in glob.glob(REPO + '/src/*.c') + glob.glob(REPO + '/src/utils/*.c'):
            txt = open(f, errors='replace').read()
            for m in re.finditer(r'^(?!static)[A-Za-z_][\w \t\*]*?\b(\w+)\s*\([^;{}()]*(?:\([^()]*\)[^;{}()]*)*\)\s*\{', txt, re.M):
                idx.setdefault(m.group(1), f)
        return idx
    return once('index', fn)


def build_goto(ent, vac):
    h = ent.h
    key = ('link', h.path, ent.name, tuple(ent.defs), ent.opts.get('replace'), vac)
    def fn():
        defs = list(ent.defs)
        split = ['-D%s=vh_%s' % (x, x) for x in ('malloc', 'calloc', 'realloc', 'free')] if 'FIXHEAP' in ent.opts else []
        hdefs = defs + split + h.hflags + (['-DVH_VACUITY'] if vac else [])
        objs = [compile_goto(h.path, hdefs, h.flags)]
        srcs = [srcpath(s) for s in h.sources] + [os.path.join(VLIB, 'stubs', s + '.c') for s in h.stubs]
        libc = os.path.join(VLIB, 'stubs', 'libc.c')
        added = []
        out = os.path.join(CTX.work, 'l' + hashlib.md5(repr(key).encode()).hexdigest()[:16] + '.goto')
        for _ in range(8):
            o2 = [compile_goto(s, [d for d in defs if d.startswith('-DSRC_')] + split, h.flags) for s in srcs + added]
            o2.append(compile_goto(libc, defs, h.flags))
            rc, o, e = sh(['goto-cc'] + objs + o2 + ['--function', ent.name, '-o', out], timeout=120)
            if rc != 0:
                raise Inconclusive('link: ' + (o + e)[-1500:])
            for r in ent.opts.get('replace', '').split(',') if ent.opts.get('replace') else []:
                rc, o, e = sh(['goto-instrument', '--replace-calls', r, out, out], timeout=120)
                if rc != 0:
                    raise Inconclusive('replace %s: %s' % (r, (o + e)[-1500:]))
            red = out + '.r'
            rc, o, e = sh(['goto-instrument', '--drop-unused-functions', '--add-library', out, red], timeout=120)
            rc, o, e = sh(['goto-instrument', '--list-undefined-functions', red], timeout=120)
            rc, o2_, e = sh(['goto-instrument', '--reachable-call-graph', red], timeout=120)
            reach = set(re.findall(r'^(\w+) -> \w+$', o2_, re.M)) | set(re.findall(r'-> (\w+)$', o2_, re.M))
            _reach[out] = reach
            und = [x for x in re.findall(r'^(\w+)$', o, re.M) if x in reach]
            _undef[out] = sorted(x for x in und if not NBOK.match(x) and x not in h.nobody)
            idx = symbol_index()
            new = sorted({idx[u] for u in und if u in idx and u not in h.nobody} - set(srcs + added))
            if not new:
                return out, added
            added += new
        return out, added
    return once(key, fn)


NBOK = re.compile(r'^(nondet_\w+|__CPROVER_\w+|__builtin_\w+|__VERIFIER_\w+)$')


class CbmcRes:
    pass


def run_cbmc(ent, goto, vac, unwind, stop=True, unwinding=True, timeout=None):
    opts = ['--no-standard-checks'] if vac or ent.opts.get('safety') == '0' else list(BASECHECKS)
    if not vac:
        opts += [OPTCHECKS[c] for c in ent.checks if c in OPTCHECKS]
        opts += ['--unwinding-assertions' if unwinding else '--no-unwinding-assertions']
        if not unwinding:
            opts += ['--partial-loops'] if False else []
    else:
        opts += ['--no-unwinding-assertions']
    cmd = ['cbmc', goto, '--function', ent.name, '--unwind', str(unwind), '--drop-unused-functions',
           '--no-malloc-may-fail', '--json-ui', '--verbosity', '8', '--trace', '--object-bits', ent.opts.get('objbits', '9')] + opts
    uset = ent.opts.get('unwindset', '')
    cmd += ['--unwindset', 'vsnprintf.18:%d' % max(unwind, 72)]    # loop over the (constant) format string
    if uset:
        k = max(1, unwind // ent.unwind)      # scaled together with the default bound
        cmd += ['--unwindset', ','.join('%s:%d' % (x.rsplit(':', 1)[0], int(x.rsplit(':', 1)[1])*k)
                                        for x in uset.split(','))]
    if stop and not vac:
        cmd += ['--stop-on-fail']
    if vac:
        cmd += ['--sat-solver', ent.opts.get('vsolver', 'cadical')]
    elif ent.opts.get('solver'):
        cmd += ['--sat-solver', ent.opts['solver']]
    if ent.opts.get('fs'):
        cmd += ['--max-field-sensitivity-array-size', ent.opts['fs']]
    if ent.opts.get('cbmc'):
        cmd += ent.opts['cbmc'].split(',')
    t = time.time()
    tmo = min(timeout or ent.timeout, max(5, remaining()))
    rc, o, e = sh(cmd, timeout=tmo, mem=12 << 30)
    r = CbmcRes()
    r.cmd, r.rc, r.wall, r.failed, r.props = cmd, rc, time.time() - t, [], 0
    r.steps = r.vccs = r.clauses = 0
    r.solver = 0.0
    r.timeout = rc is None
    r.raw = o
    if r.timeout:
        log('cbmc', ent.id, 'TIMEOUT', '%.1f' % r.wall)
        return r
    try:
        js = json.loads(o)
    except ValueError:
        r.error = 'unparsable output rc=%s: %s %s' % (rc, o[-300:], e[-300:])
        r.timeout = True   # treated as: no answer
        return r
    r.status = None
    for el in js:
        if 'messageText' in el:
            m = el['messageText']
            x = re.match(r'size of program expression: (\d+) steps', m)
            if x: r.steps = int(x.group(1))
            x = re.match(r'Generated (\d+) VCC\(s\), (\d+) remaining', m)
            if x: r.vccs = int(x.group(1)); r.vccs_left = int(x.group(2))
            x = re.match(r'(\d+) variables, (\d+) clauses', m)
            if x: r.clauses = max(r.clauses, int(x.group(2)))
            x = re.match(r'Runtime Solver: ([\d.e-]+)s', m)
            if x: r.solver += float(x.group(1))
            if el.get('messageType') == 'ERROR':
                r.error = m
        if 'property' in el and 'status' in el:      # --stop-on-fail style
            if el['status'].lower() == 'failed' or el['status'] == 'failure':
                r.failed.append(el)
            r.props += 1
        if 'result' in el:
            for p in el['result']:
                r.props += 1
                if p['status'] == 'FAILURE':
                    r.failed.append(p)
                elif p['status'] not in ('SUCCESS',):
                    r.error = 'status ' + p['status']
        if 'cProverStatus' in el:
            r.status = el['cProverStatus']
    if r.status is None and not r.failed:
        r.error = getattr(r, 'error', 'no verdict')
        r.timeout = True
    log('cbmc', ent.id, 'vac' if vac else '', r.status, 'failed=%d' % len(r.failed), 'unwind=%d' % unwind,
        'wall=%.1f steps=%d vccs=%d clauses=%d' % (r.wall, r.steps, r.vccs, r.clauses),
        'nobody=%s' % _undef.get(goto), getattr(r, 'error', ''))
    return r


def trace_inputs(p):
    vals = []
    for s in p.get('trace') or []:
        if s.get('stepType') == 'input' and s.get('inputID') == 'nd':
            b = s['values'][0].get('binary')
            if b is None:
                d = s['values'][0].get('data', '0')
                vals.append(1 if d in ('TRUE', 'true') else 0)
            else:
                vals.append(int(b, 2))
    return vals


# ---------------------------------------------------------------- native replay
def build_native(ent, zero):
    h = ent.h
    key = ('native', h.path, ent.name, tuple(ent.defs), tuple(ent.checks), zero)
    def fn():
        out = os.path.join(CTX.work, 'n' + hashlib.md5(repr(key).encode()).hexdigest()[:16])
        san = ['address', 'bounds'] + [SANITIZE[c] for c in ent.checks if c in SANITIZE]
        srcs = [h.path] + [srcpath(s) for s in h.sources + h.native] + \
               [os.path.join(VLIB, 'stubs', s + '.c') for s in h.stubs] + [os.path.join(VLIB, 'replay.c')]
        goto, added = build_goto(ent, False)
        srcs += added
        cmd = ['gcc', '-g', '-O0', '-w', '-fsanitize=' + ','.join(san), '-fno-sanitize-recover=all',
               '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=' + ('zero' if zero else 'pattern'),
               '-DVH_ENTRY=' + ent.name] + BASEDEFS + ent.defs + h.flags + includes() + srcs + \
              ['-Wl,--wrap=' + w for w in h.wrap] + ['-Wl,--unresolved-symbols=ignore-all', '-no-pie', '-lm', '-o', out]
        rc, o, e = sh(cmd, timeout=180)
        if rc != 0:
            raise Inconclusive('native build: ' + e[-1500:])
        return out
    return once(key, fn)


FILLS = [(False, '170'), (True, '0'), (False, '255'), (True, '1')]


def replay(ent, vals, name, hang=False):
    """Run the values natively.  Returns (verdict, text)."""
    vf = os.path.join(CTX.work, name + '.vals')
    with open(vf, 'w') as f:
        f.write('\n'.join('%x' % v for v in vals) + '\n')
    last = ('ok', '')
    for zero, fill in FILLS:
        exe = build_native(ent, zero)
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = ('detect_leaks=0:exitcode=99:abort_on_error=0:max_malloc_fill_size=1048576:'
                               'malloc_fill_byte=%s:allocator_may_return_null=1' % fill)
        env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=98:print_stacktrace=1'
        env['VH_LEAK'] = '1' if 'leak' in ent.checks else '0'
        d = os.path.join(CTX.work, 'run-%s-%s-%s' % (name, zero, fill))
        os.makedirs(d, exist_ok=True)
        rc, o, e = sh([exe, vf], timeout=10, env=env, cwd=d)
        if rc is None:
            return 'fail', 'TIMEOUT after 10 s (does not terminate)', vf
        if rc == 77:
            last = ('diverged', e)
        elif rc != 0:
            return 'fail', 'exit %d\n%s%s' % (rc, o[-2000:], e[-6000:]), vf
        else:
            last = ('ok', e)
    return last[0], last[1], vf


# ---------------------------------------------------------------- deciding one entry
class Outcome:
    def __init__(self, ent):
        self.ent = ent
        self.verdict = None      # 'holds' | 'violated' | 'inconclusive'
        self.detail = ''
        self.main = None
        self.vac = None
        self.queries = 0
        self.solver = 0.0
        self.witness = []        # (label, vals, validated)
        self.funcs = []


def save_replay(ent, vals, text, prop_desc):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, '%s-%s' % (CTX.prop, ent.id))
    with open(base + '.vals', 'w') as f:
        f.write('\n'.join('%x' % v for v in vals) + '\n')
    with open(base + '.txt', 'w') as f:
        f.write('property %s\nharness %s entry %s defs %s\nassertion: %s\nvalues file: %s\n\n'
                'native run on the real sources:\n%s\n\nto repeat: python3 %s %s --replay %s %s\n'
                % (CTX.prop, ent.h.path, ent.id, ' '.join(ent.defs), prop_desc, base + '.vals', text,
                   os.path.join(VLIB, 'run.py'), CTX.prop, ent.id, base + '.vals'))
    return base + '.txt'


def confirm(ent, out, res, tag):
    """Try to confirm any failed property of res natively."""
    tried = 0
    for p in res.failed[:12]:
        vals = trace_inputs(p)
        v, text, vf = replay(ent, vals, '%s-%s-%d' % (ent.id, tag, tried))
        tried += 1
        log('replay', ent.id, p.get('description'), p.get('property'), '->', v, text.strip().split('\n')[0:3])
        if v == 'fail':
            out.verdict = 'violated'
            out.prop_desc = p.get('description', '') + ' @ ' + str(p.get('property', ''))
            out.replay = save_replay(ent, vals, text, out.prop_desc)
            out.detail = text.strip().split('\n')[:1][0] + ' ' + ' '.join(re.findall(r'VH-CHECK-FAILED[^\n]*|ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|Assertion[^\n]*', text)[:2])
            return True
    return False


def unmodelled(ent):
    return _undef.get(build_goto(ent, False)[0], [])


def decide(ent):
    out = Outcome(ent)
    try:
        goto, added = build_goto(ent, False)
        if added:
            out.detail_added = added
        unwind = ent.unwind
        for attempt in range(4):
            r = run_cbmc(ent, goto, False, unwind)
            out.queries += 1; out.solver += r.solver
            out.main, out.unwind = r, unwind
            if r.timeout:
                out.verdict = 'inconclusive'
                out.detail = getattr(r, 'error', 'no answer within %.0f s' % r.wall)
                return out
            if not r.failed:
                if r.status != 'success':
                    out.verdict, out.detail = 'inconclusive', 'cbmc: %s %s' % (r.status, getattr(r, 'error', ''))
                    return out
                um = unmodelled(ent)
                if um:
                    log(ent.id, 'UNMODELLED', um)
                    out.detail = 'functions without body treated as arbitrary: ' + ' '.join(um)
                out.verdict = 'holds'
                return out
            if confirm(ent, out, r, 'a%d' % attempt):
                return out
            is_unw = any('unwinding assertion' in p.get('description', '') or '.unwind.' in p.get('property', '')
                         for p in r.failed)
            if is_unw:
                # first look for a genuine failure below the bound
                r2 = run_cbmc(ent, goto, False, unwind, unwinding=False)
                out.queries += 1; out.solver += r2.solver
                if r2.failed and confirm(ent, out, r2, 'b%d' % attempt):
                    return out
                unwind = unwind*2
                continue
            # unreproduced: try all other failing assertions
            r3 = run_cbmc(ent, goto, False, unwind, stop=False)
            out.queries += 1; out.solver += r3.solver
            if r3.failed and confirm(ent, out, r3, 'c%d' % attempt):
                return out
            um = unmodelled(ent)
            out.verdict = 'inconclusive'
            out.detail = 'counterexample not reproduced natively: %s%s' % (
                '; '.join(sorted({p.get('description', '') for p in (r.failed + r3.failed)})),
                ' (unmodelled: %s)' % ' '.join(um) if um else '')
            return out
        out.verdict, out.detail = 'inconclusive', 'loop bound not sufficient (unwind %d)' % unwind
    except Inconclusive as ex:
        out.verdict, out.detail = 'inconclusive', str(ex)
    return out


def vacuity(ent):
    """Reachability twin: returns dict label -> (vals, validated)"""
    labels, problems, wit = set(), [], []
    if ent.opts.get('novac'):
        return None, [], []
    goto, _ = build_goto(ent, True)
    uw = int(ent.opts.get('vunwind', ent.unwind))
    r = run_cbmc(ent, goto, True, uw)
    if not r.timeout and len(r.failed) < len(set(re.findall(r'"description": "REACH ([^"]*)"', r.raw))):
        r = run_cbmc(ent, goto, True, 2*uw)   # a mark may lie behind a longer loop
    if r.timeout:
        return r, ['vacuity twin: no answer within %.0f s' % r.wall], []
    reach = [m for m in re.findall(r'"description": "REACH ([^"]*)"', r.raw)]
    got = {}
    for p in r.failed:
        d = p.get('description', '')
        if d.startswith('REACH '):
            got.setdefault(d[6:], trace_inputs(p))
    for lab in sorted(set(reach)):
        if lab not in got:
            problems.append('unreachable mark: ' + lab)
    if not reach:
        problems.append('no reachability mark in harness')
    n = 0
    for lab, vals in sorted(got.items()):
        v, text, vf = replay(ent, vals, '%s-w%d' % (ent.id, n)); n += 1
        ok = v == 'ok' and ('VH-REACH ' + lab) in text
        wit.append((lab, vals, ok, v, text))
    return r, problems, wit


def repo_functions(ent):
    """Functions of /repo that are part of the encoding."""
    goto, added = build_goto(ent, False)
    out = set()
    for s in [srcpath(x) for x in ent.h.sources] + added:
        try: txt = open(s, errors='replace').read()
        except OSError: continue
        out |= set(re.findall(r'^(?!\s|#|//)[\w \t\*]*?\b(\w+)\s*\(', txt, re.M)) & _reach.get(goto, set())
    return out


def main():
    args = [a for a in sys.argv[1:] if a not in ('-v', '--keep')]
    prop = CTX.prop = args[0]
    only = args[args.index('--entry') + 1] if '--entry' in args else None
    hs = harnesses(prop)
    if not hs:
        print('no harness for', prop); return 2
    CTX.work = tempfile.mkdtemp(prefix='vh-%s-' % prop)
    try:
        CTX.gen = gendir(CTX.work)
        if '--replay' in args:
            i = args.index('--replay')
            for h in hs:
                for e in h.expand():
                    if e.id == args[i+1]:
                        vals = [int(x, 16) for x in open(args[i+2]).read().split()]
                        v, t, _ = replay(e, vals, 'r')
                        print(v); print(t)
                        return 1 if v == 'fail' else 0
            return 2
        return check(prop, hs, only)
    except Inconclusive as ex:
        print('INCONCLUSIVE', ex); return 2
    finally:
        if '--keep' in sys.argv: print('kept', CTX.work)
        else: shutil.rmtree(CTX.work, ignore_errors=True)


def check(prop, hs, only):
    known = {}
    kf = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r'known:\s+property=(\S+)\s+id=(\S+)\s+(.*)', line)
            if m and m.group(1) == prop: known[m.group(2)] = m.group(3)
    ents = [e for h in hs for e in h.expand() if not only or e.id == only or e.name == only]
    ents.sort(key=lambda e: -int(e.opts.get('cost', '1')))
    outs, vacs = {}, {}
    with cf.ThreadPoolExecutor(NPROC) as ex:
        fm = {}
        for e in ents:
            fm[ex.submit(decide, e)] = ('m', e)
        for e in ents:
            fm[ex.submit(vacuity, e)] = ('v', e)
        for f in cf.as_completed(fm):
            kind, e = fm[f]
            try:
                if kind == 'm': outs[e.id] = f.result()
                else: vacs[e.id] = f.result()
            except Inconclusive as x:
                if kind == 'm':
                    outs[e.id] = Outcome(e); outs[e.id].verdict = 'inconclusive'; outs[e.id].detail = str(x)
                else: vacs[e.id] = (None, [str(x)], [])
        # smaller bounds for whatever did not finish
        fb = {}
        for h in hs:
            for e in h.expand(1):
                o = outs.get(e.id)
                if o and o.verdict == 'inconclusive' and o.main is not None and o.main.timeout and remaining() > 20:
                    fb[e.id] = e
        for e, o in zip(fb.values(), ex.map(decide, fb.values())):
            if o.verdict != 'inconclusive':
                o.fallback = True
                outs[e.id] = o
        for e, v in zip(fb.values(), ex.map(vacuity, fb.values())):
            if vacs.get(e.id) and vacs[e.id][1]:
                vacs[e.id] = v
    viol, incon, findings = [], [], []
    states = trans = queries = valid = 0
    solver = 0.0
    samples, funcs, bounds = [], set(), []
    for e in ents:
        o = outs[e.id]
        ent = o.ent
        if e.known:
            if o.verdict == 'violated':
                if e.known in known: findings.append(known[e.known]); o.verdict = 'known'
                else: viol.append(o)
            elif o.verdict == 'inconclusive': incon.append((e.id, o.detail))
        elif o.verdict == 'violated': viol.append(o)
        elif o.verdict == 'inconclusive': incon.append((e.id, o.detail))
        queries += o.queries; solver += o.solver
        if o.main:
            states += o.main.steps; trans += o.main.clauses
        v = vacs.get(e.id)
        if v and v[0]:
            queries += 1; solver += v[0].solver
        if v:
            if o.verdict == 'holds' and not e.known:
                for p in v[1]: incon.append((e.id, p))
            for lab, vals, ok, verdict, text in v[2]:
                if ok: valid += 1
                elif o.verdict == 'holds' and verdict == 'fail':
                    o.verdict = 'violated'
                    o.prop_desc = 'native run of solver witness ' + lab
                    o.replay = save_replay(ent, vals, text, o.prop_desc)
                    o.detail = text.strip()[:300]
                    viol.append(o)
                elif o.verdict == 'holds' and verdict == 'ok' and ent.opts.get('laxwit') is None:
                    incon.append((e.id, 'witness %s not reached natively' % lab))
                elif o.verdict == 'holds' and verdict == 'diverged' and ent.opts.get('laxwit') is None:
                    incon.append((e.id, 'witness %s diverges natively: %s' % (lab, text[-200:])))
                if len(samples) < 12:
                    samples.append({'entry': e.id, 'reached': lab, 'solver_values_hex': ' '.join('%x' % x for x in vals[:48]),
                                    'native_run': verdict})
        bounds.append({'entry': e.id, 'verdict': o.verdict, 'unwind': getattr(o, 'unwind', e.unwind),
                       'defs': ' '.join(ent.defs), 'fallback_bound': getattr(o, 'fallback', False),
                       'assertions_checked_vccs': o.main.vccs if o.main else 0,
                       'ssa_steps': o.main.steps if o.main else 0, 'clauses': o.main.clauses if o.main else 0,
                       'solver_s': round(o.solver, 2), 'wall_s': round(o.main.wall, 1) if o.main else None,
                       'detail': o.detail})
        try: funcs |= repo_functions(ent)
        except Inconclusive: pass
    if not samples: samples = [{'entry': e.id, 'defs': ' '.join(e.defs)} for e in ents[:3]]
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
          'coverage': {
              'states': states, 'transitions': trans, 'traces_validated_against_impl': valid,
              'samples': samples,
              'counting_rule': 'states = SSA steps of the symbolic executions; transitions = CNF clauses handed to the '
                               'solver; traces validated = solver witnesses (one per reachability mark) whose native run '
                               'on the real sources reached the same mark with every assertion holding',
              'queries': queries, 'solver_s': round(solver, 2), 'functions_encoded': sorted(funcs),
              'sources': sorted({s for h in hs for s in h.sources}), 'stubs': sorted({s for h in hs for s in h.stubs} | {'libc'}),
              'entries': bounds, 'bounds': [n for h in hs for n in h.notes],
              'violated': [{'entry': o.ent.id, 'assertion': o.prop_desc, 'replay': o.replay} for o in viol],
              'inconclusive': ['%s: %s' % x for x in incon], 'known_findings': findings},
          'assumptions': ['malloc/calloc/realloc succeed', 'CBMC 6.11 models gcc x86-64 semantics; libc functions are '
                          'CBMC\'s library plus vlib/stubs/libc.c'] + [a for h in hs for a in h.assumes],
          'wall_s': round(time.time() - T0, 2), 'violations': len(viol)}
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for t in findings: print('KNOWN-FINDING: property=%s %s' % (prop, t))
    for o in viol:
        print('VIOLATION property=%s replay=%s' % (prop, o.replay))
        print('  entry %s: %s\n  %s' % (o.ent.id, o.prop_desc, o.detail))
    for i, d in incon: print('INCONCLUSIVE %s %s: %s' % (prop, i, d))
    if viol: return 1
    if incon: return 2
    print('OK property=%s entries=%d queries=%d solver=%.1fs wall=%.1fs validated=%d'
          % (prop, len(ents), queries, solver, time.time() - T0, valid))
    return 0


if __name__ == '__main__':
    sys.exit(main())
