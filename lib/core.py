"""Extraction, weaving of contracts into the extracted text, and the verifier run."""
import json, os, re, signal, subprocess, time, hashlib, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VX_REPO', '/repo')
SPECS = os.path.join(VERIF, 'specs')
WORK = os.environ.get('VX_WORK', os.path.join(VERIF, 'work'))
VX = os.path.join(VERIF, 'tools/vx/target/release/vx')


class Lost(Exception):
    """the current source has a shape the annotations do not attach to"""


def build_vx():
    srcs = [os.path.join(VERIF, 'tools/vx/src', f) for f in os.listdir(os.path.join(VERIF, 'tools/vx/src'))]
    if os.path.exists(VX) and all(os.path.getmtime(s) <= os.path.getmtime(VX) for s in srcs):
        return
    r = subprocess.run(['cargo', 'build', '--release', '--offline'], cwd=os.path.join(VERIF, 'tools/vx'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError('vx does not build:\n' + r.stdout[-3000:])


def rust_files(d):
    out = []
    for root, ds, fs in os.walk(d):
        ds[:] = [x for x in sorted(ds) if x not in ('target', 'tests', 'benches', 'examples')]
        out += [os.path.join(root, f) for f in sorted(fs) if f.endswith('.rs')]
    return out


def extract(name, dirs, structs, targets, work):
    build_vx()
    reserved = set('ret old final proof ghost tracked spec exec open closed requires ensures recommends invariant decreases forall exists choose int nat real assume assert via when by is has arbitrary broadcast global'.split())
    for f in os.listdir(SPECS):
        if f.endswith('.rs'):
            reserved.update(re.findall(r'\b(?:fn|mod) (\w+)', open(os.path.join(SPECS, f)).read()))
    cfg = {'reserved': sorted(reserved), 'files': [f for d in dirs for f in rust_files(os.path.join(REPO, d))], 'structs': structs, 'targets': targets}
    p = os.path.join(work, name + '.cfg.json')
    json.dump(cfg, open(p, 'w'))
    r = subprocess.run([VX, p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise Lost('extraction failed: ' + r.stderr[-400:])
    j = json.loads(r.stdout)
    json.dump(j, open(os.path.join(work, name + '.extract.json'), 'w'), indent=1)
    if j['errors']:
        raise Lost('source does not parse: ' + '; '.join(j['errors']))
    return j


class Loop:
    def __init__(self, d, fn):
        self.__dict__.update(d)
        self.fn = fn
        self.inv = []        # (name, text, is_candidate)
        self.dec = None
        self.start = []      # ghost lines at the top of the body (after the counter step)
        self.pre = []
        self.end = []
        self.post = []
        self.role = None

    @property
    def children(self):
        return [l for l in self.fn.loops if l.parent == self.id]

    def ancestors(self):
        p = self.parent
        while p is not None:
            l = self.fn.loop(p)
            yield l
            p = l.parent

    @property
    def canonical(self):
        return self.kind == 'canonical'

    @property
    def c(self):
        return '(%s as int)' % self.ctr


class Fn:
    def __init__(self, d):
        self.d = d
        self.name = d['name']
        if d.get('lost'):
            raise Lost('%s: %s' % (d['name'], '; '.join(d['lost'][:3])))
        if not d.get('ret'):
            raise Lost('%s: return type' % d['name'])
        self.loops = [Loop(l, self) for l in d['loops']]
        self.requires = []
        self.ensures = []
        self.ghost = []      # lines at function start
        self.decls = {}      # ghost name -> type/initial source (declared at function start)
        self.attrs = ['#[verifier::loop_isolation(false)]']
        self.broadcast = None
        self.uses = None
        self.tail = []           # ghost lines before the end
        self.before_continue = []
        self.at_exit = []        # ghost lines before every return and before the end
        self.before_return = {}  # loop id -> ghost lines before a return inside that loop

    def loop(self, i):
        return [l for l in self.loops if l.id == i][0]

    def top(self):
        return [l for l in self.loops if l.parent is None]

    def params(self):
        return {p['name']: p['ty'] for p in self.d['params']}

    def sig(self):
        ps = []
        if self.d['recv']:
            ps.append(self.d['recv'])
        ps += ['%s: %s' % (p['name'], p['ty']) for p in self.d['params']]
        ret = self.d['ret']
        r = '' if ret == '()' else ' -> (ret: %s)' % ret
        return 'pub fn %s%s(%s)%s' % (self.name, self.d.get('generics', ''), ', '.join(ps), r)

    def check_sig(self, recv, params, ret):
        if self.d['recv'] != recv or [p['ty'] for p in self.d['params']] != params or self.d['ret'] != ret:
            raise Lost('%s: signature %s' % (self.name, self.sig()))


PROBE = [False]    # vacuity run: put an unprovable assertion at every site


def generic_loops(fn, dropped, with_dec=True):
    """what holds of every counting loop and of every container passed by &mut"""
    muts = [(n, t) for n, t in fn.params().items() if t.startswith('&mut ')]
    for n, t in muts:
        if t in ('&mut Mat', '&mut Vc', '&mut Piv'):
            fn.ghost.append('let ghost __p0_%s = *%s;' % (n, n))
    for l in fn.loops:
        gen = []
        for n, t in muts:
            if t == '&mut Mat':
                gen.append(('shape of %s' % n, 'rows(*%s) == rows(__p0_%s) && cols(*%s) == cols(__p0_%s)' % (n, n, n, n), True))
            elif t in ('&mut Vc', '&mut Piv'):
                gen.append(('length of %s' % n, '%s@.len() == __p0_%s@.len()' % (n, n), True))
        if l.canonical:
            lo, hi, c = l.lo_spec, l.hi_spec, l.c
            if l.desc:
                gen.append(('counter bound', '%s <= %s && (%s <= %s || %s == %s)' % (c, hi, lo, c, c, hi), True))
            else:
                gen.append(('counter bound', '%s <= %s && (%s <= %s || %s == %s)' % (lo, c, c, hi, c, lo), True))
            if l.dec is None:
                l.dec = '%s - %s' % ((hi, c) if not l.desc else (c, lo))
        if l.auto:
            for g, src in l.auto['snaps']:
                l.pre.append(('snap', g, src))
            for i, e in enumerate(l.auto['invs']):
                gen.append(('loop %d summary %d' % (l.id, i), e, True))
        l.inv = gen + l.inv


def no_exit_yet(fn):
    """extraction passes the value of an early exit from a loop through an Option"""
    for l in fn.loops:
        pos = fn.d['body'].find('__VX_PRE_%d ;' % l.id)
        for m in l.mutated:
            if re.fullmatch(r'vx_q\d+', m[0]) and 0 <= fn.d['body'].find('let mut %s ' % m[0]) < pos:
                l.inv.append(('no early exit yet (%s)' % m[0], '%s is None' % m[0], True))


def weave(fn, out, dropped):
    """append the woven text of fn to out (a list of (line, tag)); tag = (kind, name, function)"""
    no_exit_yet(fn)
    F = fn.name if not fn.d['self'] else fn.d['self'] + '::' + fn.name
    o = lambda s, tag=None: out.append((s, tag))
    for a in fn.attrs:
        o(a)
    o(fn.sig())
    if fn.requires:
        o('  requires')
        for n, e in fn.requires:
            o('    %s,' % e, ('requires', n, F))
    if fn.ensures:
        o('  ensures')
        for n, e in fn.ensures:
            o('    %s,' % e, ('ensures', n, F))
    body = fn.d['body'].rstrip().split('\n')
    assert body[0].strip() == '{', body[0]
    o('{')
    if fn.broadcast:
        o('  broadcast use %s;' % fn.broadcast)
    for g in fn.ghost:
        o('  ' + g)
    # ghost snapshots are declared up front so that they stay visible after their loop
    for l in fn.loops:
        for p in l.pre:
            if p[0] == 'snap':
                ty = 'Mat' if not p[2].endswith('@') else None
                src = {'Mat': 'arbitrary::<Mat>()', None: None}[ty] if ty else None
                if src is None:
                    base = p[2][:-1]
                    pt = fn.params().get(base, '')
                    st = 'Seq<usize>' if pt.endswith('Piv') else 'Seq<Sc>'
                    src = 'arbitrary::<%s>()' % st
                o('  let ghost mut %s = %s;' % (p[1], src))
    probe = lambda where: o('    proof { assert(vx_never(%d)); }' % len(out), ('probe', '%s: %s' % (F, where), F)) if PROBE[0] else None
    probe('entry')
    stack = []
    lines = body[1:]
    assert lines[-1].strip() == '}'
    m = re.fullmatch(r'(.*\})\s*([\w]+|\(\))\s*', lines[-2])
    if m and fn.d['ret'] != '()':
        lines[-2:-1] = [m.group(1), m.group(2)]
    last = len(lines) - 1
    if fn.d['ret'] != '()':
        # the proof goes before the final value, which extraction leaves as a name of its own
        last -= 1
        if not re.fullmatch(r'\s*[\w()]+( \(\))?\s*', lines[last]):
            last = None
            if fn.tail or not fn.d['body'].rstrip('} \n').endswith(';'):
                raise Lost('%s: final value' % F)
    tail = fn.tail + fn.at_exit
    for ix, ln in enumerate(lines):
        if ix == last:
            for g in tail:
                o('    ' + g[0], g[1] if len(g) > 1 else None)
            probe('exit')
        m = re.search(r'__VX_(PRE|LOOP|BODY|END|POST)_(\d+) ;', ln)
        if not m:
            if fn.before_continue and re.match(r"\s*continue 'outer\b", ln):
                for g in fn.before_continue:
                    o('    ' + g[0], g[1] if len(g) > 1 else None)
            if re.match(r'\s*return\b', ln):
                for g in (fn.before_return.get(stack[0], []) if stack else []) + fn.at_exit:
                    o('    ' + g[0], g[1] if len(g) > 1 else None)
                probe('return %d' % ix)
            o(ln)
            continue
        k, l = m.group(1), fn.loop(int(m.group(2)))
        pre, rest = ln[:m.start()], ln[m.end():]
        if k == 'PRE':
            o(pre)
            for p in l.pre:
                if p[0] == 'snap':
                    o('    proof { %s = %s; }' % (p[1], p[2]))
                else:
                    o('    ' + p[0], p[1] if len(p) > 1 else None)
            o(rest)
        elif k == 'LOOP':
            stack.append(l.id)
            head, tag = out.pop()
            assert head.rstrip().endswith('{'), head
            o(head.rstrip()[:-1])
            invs = [(n, e, c) for n, e, c in l.inv if (F, l.id, n) not in dropped]
            if invs:
                o('      invariant' if l.canonical or not l.kind == 'loop' else '      invariant')
                for n, e, c in invs:
                    o('        %s,' % e, ('cand' if c else 'invariant', n, F, l.id))
            if l.dec:
                o('      decreases %s' % l.dec, ('decreases', 'loop %d terminates' % l.id, F, l.id))
            o('      {')
        elif k == 'BODY':
            o(pre)
            for g in l.start:
                o('    ' + g[0], g[1] if len(g) > 1 else None)
            probe('loop %d' % l.id)
            o(rest)
        elif k == 'END':
            o(pre)
            for g in l.end:
                o('    ' + g[0], g[1] if len(g) > 1 else None)
            o(rest)
            stack.pop()
        elif k == 'POST':
            if stack and stack[-1] == l.id:
                stack.pop()
            o(pre)
            for g in l.post:
                o('    ' + g[0], g[1] if len(g) > 1 else None)
            if not rest.strip().startswith(';'):
                probe('after loop %d' % l.id)
            o(rest)


def spec(name):
    return [(l, ('spec', name)) for l in open(os.path.join(SPECS, name)).read().split('\n')]


PANIC = ('precondition not satisfied', 'arithmetic', 'overflow', 'underflow', 'divide', 'index out', 'unreachable')


def classify(msg):
    m = msg.lower()
    if 'invariant not satisfied' in m:
        return 'invariant'
    if 'postcondition not satisfied' in m:
        return 'ensures'
    if 'assertion failed' in m or 'assertion' in m and 'fail' in m:
        return 'assert'
    if 'precondition not satisfied' in m:
        return 'requires'
    if 'overflow' in m or 'underflow' in m or 'division by zero' in m:
        return 'arith'
    if 'decreases' in m or 'termination' in m:
        return 'decreases'
    if 'rlimit' in m or 'resource limit' in m:
        return 'rlimit'
    return 'front'


class VResult:
    def __init__(self):
        self.failures = []    # dicts: kind name fn line msg
        self.front = []       # verifier front-end errors
        self.rlimit = []
        self.verified = 0
        self.errors = 0
        self.time_ms = 0
        self.obligations = 0
        self.raw = ''


DEADLINE = [None]    # no verifier run goes on after this time


def run_verus(out, path, rlimit=60, count=False, extra=(), secs=None):
    text = '\n'.join(l for l, _ in out) + '\n'
    open(path, 'w').write(text)
    logd = path + '.log'
    cmd = ['verus', path, '--output-json', '--error-format=json', '--multiple-errors', '60', '--triggers-mode', 'silent',
           '--rlimit', str(rlimit), '--num-threads', '4', '--crate-type', 'lib']
    cmd += list(extra)
    if count:
        cmd += ['--time', '--log', 'air', '--log-dir', logd]
    t0 = time.time()
    ends = [t for t in (secs and t0 + secs, DEADLINE[0]) if t]
    pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=os.path.dirname(path), start_new_session=True)
    late = False
    try:
        so, se = pr.communicate(timeout=max(1, min(ends) - t0) if ends else None)
    except subprocess.TimeoutExpired:
        late = True
        os.killpg(pr.pid, signal.SIGKILL)
        so, se = pr.communicate()
    r = subprocess.CompletedProcess(cmd, pr.returncode, so, se)
    v = VResult()
    v.late = late
    if late:
        v.rlimit.append('out of time')
    v.cmd = ' '.join(cmd)
    v.raw = r.stderr
    v.time_ms = int((time.time() - t0) * 1000)
    try:
        j = json.loads(r.stdout[r.stdout.index('{'):])
        vr = j['verification-results']
        v.verified = vr.get('verified', 0)
        v.errors = vr.get('errors', 0)
        v.smt_ms = j.get('times-ms', {}).get('smt', {}).get('total', 0) if count else 0
        v.fn_ms = {}
        if count:
            for m in j['times-ms']['smt'].get('smt-run-module-times', []):
                for b in m.get('function-breakdown', []):
                    if b['mode:'] != 'spec':
                        v.fn_ms[b['function'].split('::', 1)[-1]] = {'ms': b['time'], 'rlimit': b['rlimit'], 'mode': b['mode:']}
        if not vr.get('success') and vr.get('encountered-vir-error'):
            v.front.append('verifier front end rejected the text')
    except Exception:
        if not late:
            v.front.append('no verifier result: ' + r.stderr[-300:])
        v.smt_ms = 0
    for ln in r.stderr.split('\n'):
        if not ln.startswith('{'):
            continue
        try:
            d = json.loads(ln)
        except Exception:
            continue
        if d.get('level') != 'error' or d['message'].startswith('aborting') :
            continue
        kind = classify(d['message'])
        lines = [(s['line_start'], s.get('is_primary'), s.get('label') or '') for s in d['spans']]
        tags = [(n, out[n - 1][1]) for n, p, lb in lines if 0 < n <= len(out) and out[n - 1][1]]
        named = [t for n, t in tags if t[0] in ('invariant', 'cand', 'ensures', 'assert', 'decreases', 'requires', 'probe')]
        # an unnamed error inside the axioms/theory text
        rec = {'kind': kind, 'msg': d['message'], 'lines': [n for n, p, lb in lines],
               'text': [out[n - 1][0].strip() for n, p, lb in lines if 0 < n <= len(out)]}
        rec['specs'] = [out[n - 1][1][1] for n, p, lb in lines if 0 < n <= len(out) and out[n - 1][1] and out[n - 1][1][0] == 'spec']
        if named:
            t = named[0]
            rec['tag'] = t
            rec['name'] = '%s: %s' % (t[2], t[1])
        else:
            rec['tag'] = None
            rec['name'] = '%s: %s' % (kind, (rec['text'] or [''])[0][:120])
        if kind == 'front':
            v.front.append('%s [%s]' % (d['message'], '; '.join(rec['text'])[:200]))
        elif kind == 'rlimit':
            v.rlimit.append(rec['name'])
        else:
            v.failures.append(rec)
    if r.returncode != 0 and not (v.failures or v.front or v.rlimit):
        v.front.append('verifier exit %d: %s' % (r.returncode, r.stderr[-300:]))
    if count:
        per = {}
        for root, _, fs in os.walk(logd):
            for f in fs:
                if f.endswith('.air'):
                    cur, inq = '?', False
                    for ln in open(os.path.join(root, f)):
                        if ln.startswith(';; Function-Def'):
                            cur = ln.split()[-1].split("::", 1)[-1]
                        elif ln.startswith('(check-valid'):
                            inq = True
                        elif ln.startswith('('):
                            inq = False
                        if inq and re.match(r'\s*\(assert\b', ln):
                            per[cur] = per.get(cur, 0) + 1
        v.per_fn = per
        v.obligations = sum(per.values())
        shutil.rmtree(logd, ignore_errors=True)
    return v


def hints(pid):
    """candidates that did not hold when tools/hints.py last ran: where to start, never a reason to accept"""
    try:
        return set(tuple(x) for x in json.load(open(os.path.join(SPECS, 'hints.json'))).get(pid, []))
    except (OSError, ValueError):
        return set()


def houdini(build, path, rlimit=60, rounds=16, start=(), enough=lambda: False):
    """build(dropped) -> woven text; failing candidate invariants are dropped until none fails.
    With a start set, a proof found from it counts; otherwise the search begins again from nothing dropped."""
    if start:
        end, now = DEADLINE[0], time.time()
        if end:
            DEADLINE[0] = now + (end - now) / 2
        v = search(build, path, rlimit, rounds, set(start))
        DEADLINE[0] = end
        if (not v.front and not v.rlimit and not v.failures) or enough():
            return v
        w = search(build, path, rlimit, rounds, set())
        w.total_ms += v.total_ms
        return w
    return search(build, path, rlimit, rounds, set())


def search(build, path, rlimit, rounds, dropped):
    total = 0
    for rnd in range(rounds):
        out = build(dropped)
        v = run_verus(out, path, rlimit)
        total += v.time_ms
        bad = set()
        for f in v.failures:
            if f['kind'] == 'invariant' and f['tag'] and f['tag'][0] == 'cand':
                t = f['tag']
                bad.add((t[2], t[3], t[1]))
        bad -= dropped
        if not bad or v.front or v.late:
            break
        dropped |= bad
    v.dropped = sorted(str(d) for d in dropped)
    v.dropped_set = dropped
    v.total_ms = total
    v.out = out
    return v
