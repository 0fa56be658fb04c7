#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property of /repo's current tree.

1. the functions the property depends on are extracted from /repo's current source, woven with
   their contracts and given to Verus (the deciding step);
2. the replay engine, linked against /repo's crates, searches for a concrete failing input: it
   supplies the input for a failed obligation, guards the assumed contracts, and is the bounded
   stand-in when the current source is outside what extraction or verifier can take.
"""
import json, os, re, shlex, subprocess, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core, conform
from concurrent.futures import ThreadPoolExecutor
from core import VERIF, REPO, WORK, Lost
import props

EXIT_OK, EXIT_VIOL, EXIT_ERR = 0, 1, 2


def known():
    """entries 'known: property=<id> case=<engine case or obligation> <what fails>'"""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) case=(\S+) (.*)', ln.strip())
            if m:
                out.append(m.groups())
    return out


# ---------------------------------------------------------------- replay engine
def build_engine():
    src = os.path.join(VERIF, 'harness')
    target = os.path.join(WORK, 'target')
    if REPO != '/repo':
        dst = os.path.join(WORK, 'harness')
        subprocess.run(['rm', '-rf', dst])
        subprocess.run(['cp', '-a', src, dst], check=True)
        t = open(os.path.join(dst, 'Cargo.toml')).read().replace('/repo/', REPO + '/')
        open(os.path.join(dst, 'Cargo.toml'), 'w').write(t)
        src = dst
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', RUSTFLAGS='')
    r = subprocess.run(['cargo', 'build', '--release', '--offline', '--locked', '-q'], cwd=src, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, r.stdout[-3000:]
    return os.path.join(target, 'release', 'replay'), ''


def run_engine(exe, pid, seed, budget, thorough):
    cmd = [exe, pid, '--seed', str(seed), '--budget', str(budget)] + (['--thorough'] if thorough else [])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=budget + 90)
    except subprocess.TimeoutExpired:
        return {'error': 'engine did not end', 'cmd': ' '.join(cmd)}
    lines = [l for l in r.stdout.split('\n') if l.startswith('{')]
    if not lines:
        return {'error': 'engine died (exit %d): %s' % (r.returncode, r.stderr[-500:]), 'cmd': ' '.join(cmd)}
    j = json.loads(lines[-1])
    if 'hang' in j:
        m = re.search(r' case (\S+)$', j['hang'])
        j = {'hung': True, 'fail': {'case': m.group(1) if m else '?', 'what': 'does not return -- ' + j['hang']},
             'evaluations': 0, 'distinct_nontrivial': 0, 'skipped': 0, 'samples': [], 'families': []}
    j['cmd'] = ' '.join(cmd)
    return j


# ---------------------------------------------------------------- proof
def panic_class(f):
    """obligations whose failure means a panic or non-termination, not a wrong result"""
    return f['kind'] in ('arith', 'decreases') or (f['kind'] == 'requires' and 'prelude.rs' in f['specs'])


def prove(pid, work, thorough, loaded, found):
    """-> dict(status: proved|failed|lost|limit, ...)"""
    p = props.PROPS[pid]
    res = {'status': 'lost', 'why': '', 'failures': [], 'ignored': []}
    core.DEADLINE[0] = time.time() + (3000 if thorough else 360)
    try:
        c = p['load'](work)
        loaded(c)
        build = p['build'](c)
        v = core.houdini(build, os.path.join(work, pid + '.rs'), rlimit=200 if thorough else 60, start=() if thorough else core.hints(pid), enough=found)
    except Lost as e:
        res['why'] = str(e)
        return res
    res['v'] = v
    res['sources'] = c.j
    if v.front:
        res['why'] = 'verifier front end: ' + '; '.join(v.front[:3])
        return res
    extra = []
    for f in v.failures:
        if f['tag'] and f['tag'][0] == 'cand' and f['kind'] == 'invariant':
            v.rlimit.append('candidate invariants do not settle: ' + f['name'])
            continue
        (res['ignored'] if (panic_class(f) and not p['panics']) else res['failures']).append(f)
    core.DEADLINE[0] = None
    if res['failures'] and not found():
        # rule out solver noise: the same text with other strategies and more resources; one complete proof is enough
        strategies = ['smt.random_seed=11', 'smt.case_split=0', 'smt.random_seed=23', 'smt.random_seed=7']
        with ThreadPoolExecutor(4) as ex:
            again = list(ex.map(lambda k: core.run_verus(v.out, os.path.join(work, '%s_again%d.rs' % (pid, k)), rlimit=240, extra=['--smt-option', strategies[k]], secs=1200 if thorough else 150), range(4)))
        counts = lambda x: [f for f in x.failures if not (panic_class(f) and not p['panics'])]
        clean = [k for k in range(4) if not again[k].front and not again[k].rlimit and not counts(again[k])]
        v.total_ms += max(x.time_ms for x in again)
        if clean:
            res['failures'], v.rlimit = [], []
            extra = ['--smt-option', strategies[clean[0]]]
        else:
            sets = [set(f['name'] for f in x.failures) for x in again if not x.front and not x.late]
            both = [f for f in res['failures'] if all(f['name'] in s for s in sets)]
            if not both:
                v.rlimit.append('solver strategies disagree on ' + res['failures'][0]['name'])
            res['failures'] = both
    if res['failures']:
        res['status'] = 'failed'
        return res
    if v.rlimit:
        res['status'] = 'limit'
        res['why'] = 'solver limit reached: ' + '; '.join(v.rlimit[:4])
        return res
    # vacuity: an unprovable assertion at every site must fail at every site
    core.PROBE[0] = True
    try:
        out = build(v.dropped_set)
    finally:
        core.PROBE[0] = False
    box = {}
    t = threading.Thread(target=lambda: box.update(c=core.run_verus(v.out, os.path.join(work, pid + '.rs'), rlimit=200 if thorough else 60, count=True, extra=extra)))
    t.start()
    at = [i for i, (_, tag) in enumerate(out) if tag and tag[0] == 'probe']

    def part(k):
        skip = set(at) - set(at[k::4])
        return core.run_verus([x for i, x in enumerate(out) if i not in skip], os.path.join(work, '%s_probe%d.rs' % (pid, k)), rlimit=60) if at[k::4] else None
    with ThreadPoolExecutor(4) as ex:
        vps = [x for x in ex.map(part, range(4)) if x]
    t.join()
    cnt = box['c']
    if cnt.front or [f for f in cnt.failures if not (panic_class(f) and not p['panics'])]:
        res['status'], res['why'] = 'limit', 'the counted run did not repeat the proof'
        return res
    want = [t[1] for _, t in out if t and t[0] == 'probe']
    hit = set(f['tag'][1] for vp in vps for f in vp.failures if f['tag'] and f['tag'][0] == 'probe')
    res['probes'] = len(want)
    res['unreached'] = [w for w in want if w not in hit]
    if not want or v.verified == 0:
        res['why'] = 'no obligations'
        return res
    if res['unreached']:
        res['status'], res['why'] = 'vacuous', 'an impossible assertion was accepted at ' + '; '.join(res['unreached'][:4])
        return res
    res['status'] = 'proved'
    v.obligations, v.per_fn, v.smt_ms, v.fn_ms = cnt.obligations, getattr(cnt, 'per_fn', {}), cnt.smt_ms, getattr(cnt, 'fn_ms', {})
    v.cmd = cnt.cmd
    return res


def trusted_scan(out):
    """every assumption in the verified text"""
    t = []
    for i, (ln, tag) in enumerate(out):
        for k in re.findall(r'\b(assume|admit|external_body|external_fn_specification|assume_specification|axiom|exec_allows_no_decreases_clause)\b', ln.split('//')[0]):
            nm = re.search(r'\b(?:fn|struct|trait)\s+(\w+)', ln)
            for j in range(i, min(i + 4, len(out))):
                nm = nm or re.search(r'\b(?:fn|struct|trait)\s+(\w+)', out[j][0])
            t.append((k, nm.group(1) if nm else ln.strip()[:60]))
    return t


def main():
    t0 = time.time()
    pid = sys.argv[1]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    p = props.PROPS[pid]
    work = os.path.join(WORK, pid)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    box = {}

    def eng():
        exe, err = build_engine()
        box['exe'] = exe
        if exe is None:
            box['e'] = {'error': 'the replay engine does not build against /repo: ' + err}
        else:
            box['e'] = run_engine(exe, pid, seed, 240 if thorough else p.get('budget', 15), thorough)
    th = threading.Thread(target=eng)
    th.start()
    core.build_vx()
    conf = {'extraction': ('unknown', 'not extracted'), 'operations': ('unknown', 'not extracted')}

    def validate(c):
        def go():
            target, secs = os.path.join(WORK, 'target'), 60 if thorough else 2
            try:
                conf['extraction'] = conform.check(p['kind'], c, work, target, seed, secs)
                conf['operations'] = conform.contracts(work, target, seed, secs / 2)
            except Exception as x:
                conf['extraction'] = ('unknown', str(x)[:300])
        conf['thread'] = threading.Thread(target=go)
        conf['thread'].start()

    def found():
        # a failing input of the real code is there: what the proof says does not change the verdict
        th.join()
        e = box['e']
        return bool(e.get('fail')) and (p['panics'] or not e.get('hung'))
    pr = prove(pid, work, thorough, validate, found)
    th.join()
    if 'thread' in conf:
        conf.pop('thread').join()
    for k, what in (('extraction', 'the extracted text does not do what the crate does: '), ('operations', 'an assumed operation does not do what nalgebra does: ')):
        if conf[k][0] == 'differs':
            pr['status'], pr['why'] = 'lost', what + conf[k][1]
    e = box['e']
    if pr['status'] != 'proved' and box['exe'] and not e.get('fail') and not thorough:
        # the proof is not there: search longer, with other seeds
        for s in (seed + 1000, seed + 2000):
            e2 = run_engine(box['exe'], pid, s, 60, s == seed + 2000)
            e = e2
            if e.get('fail') or e.get('error'):
                break
    if e.get('hung') and not p['panics']:
        e['hang_not_counted'] = e['fail']
        e['fail'] = None
    extra = []
    if thorough:
        for f in p.get('thorough', []):
            extra.append(f(work))

    viol, notes = [], []
    if e.get('fail'):
        viol.append({'case': e['fail']['case'], 'what': e['fail']['what'], 'replay_cmd': e['cmd'] + ' --case ' + shlex.quote(e['fail']['case'])})
    elif pr['status'] == 'failed':
        viol.append({'case': None, 'what': 'obligation not discharged: ' + pr['failures'][0]['name']})
    for x in extra:
        if x.get('fail'):
            viol.append({'case': x['name'], 'what': x['fail']})
    bad = None
    if e.get('error') and pr['status'] not in ('proved', 'failed'):
        bad = 'neither proof (%s) nor bounded stand-in (%s) could run' % (pr['why'], e['error'][-600:])

    kn = [(c, w) for i, c, w in known() if i == pid]
    listed = [v for v in viol if any(v['case'] == c or v['what'].endswith(c) for c, w in kn)]
    fresh = [v for v in viol if v not in listed]
    for v in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, v['what']))

    # evidence
    proved = pr['status'] == 'proved'
    v = pr.get('v')
    cov = {'evaluations': e.get('evaluations', 0), 'distinct_nontrivial': e.get('distinct_nontrivial', 0), 'rule': p['rule'],
           'samples': e.get('samples', []) or ['none'], 'engine_families': e.get('families', []), 'engine_skipped': e.get('skipped', 0)}
    if e.get('error'):
        cov['engine_error'] = e['error'][-500:]
    if v is not None:
        tr = trusted_scan(v.out)
        cov.update({'proof_status': pr['status'], 'functions_under_contract': p['functions'], 'verifier': 'Verus 0.2026.09.13 with Z3',
                    'verifier_items': v.verified, 'verifier_ms_total': v.total_ms, 'smt_ms': v.smt_ms,
                    'candidate_invariants_dropped': v.dropped,
                    'failed_obligations': [f['name'] for f in pr['failures']],
                    'obligations_not_this_property': [f['name'] for f in pr['ignored']]})
        if proved:
            cov.update({'obligations': v.obligations, 'discharged': v.obligations, 'checker_cmd': v.cmd, 'obligations_by_function': v.per_fn, 'solver_by_function': v.fn_ms,
                        'vacuity_probes': pr['probes'], 'trusted_base': ['Verus/Z3', 'extraction tool tools/vx (normalises syntax, see DESIGN.md)'] +
                        sorted(set('%s %s' % x for x in tr)), 'code_map': props.code_map(pr['sources'], p['functions'])})
            if pr['ignored']:
                cov['discharged'] = v.obligations - len(pr['ignored'])
    cov['extraction_conformance'] = {'what': 'the extracted text, compiled as plain Rust over operations that do what their assumed contracts say, against the crate: same answers, same values bit for bit, same callback calls',
                                     'verdict': conf['extraction'][0], 'cases' if conf['extraction'][0] == 'agrees' else 'detail': conf['extraction'][1]}
    cov['assumed_operations'] = {'what': 'every operation assumed in specs/prelude.rs and specs/norm.rs and every axiom of specs/bits.rs against nalgebra and f64 (bounded)',
                                 'verdict': conf['operations'][0], 'rounds' if conf['operations'][0] == 'agrees' else 'detail': conf['operations'][1]}
    if not proved:
        cov['bounded_stand_in'] = 'the proof did not complete on this source (%s); the verdict of this run is that of the bounded engine only' % (pr['why'] or pr['status'])
    for x in extra:
        cov['thorough: ' + x['name']] = x.get('info', '')
    ev = {'property': pid, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': 'proof' if proved else 'exploration',
          'coverage': cov, 'assumptions': p['assumptions'], 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)

    if fresh:
        rp = os.path.join(work, 'replay.json')
        json.dump({'property': pid, 'found': fresh,
                   'failed_obligations': [{'name': f['name'], 'verifier': f['msg'], 'text': f['text']} for f in pr['failures']],
                   'proof_status': pr['status'], 'why': pr['why'], 'engine': e, 'verifier_output': (v.raw[-20000:] if v is not None else ''),
                   'how': 'run replay_cmd (builds with: CARGO_TARGET_DIR=/verif/work/target cargo build --release --offline in /verif/harness)'},
                  open(rp, 'w'), indent=1)
        for x in fresh:
            print('%s: %s' % (pid, x['what'][:600]))
        for f in pr['failures'][:8]:
            print('%s: failed obligation: %s' % (pid, f['name']))
        tail = '' if any(x['case'] for x in fresh) else ' no-failing-input-found'
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, tail))
        return EXIT_VIOL
    if bad:
        print('%s: ERROR %s' % (pid, bad))
        return EXIT_ERR
    print('%s: %s; %s obligations, engine %d cases (%d non-trivial), %.1f s' % (
        pid, 'proved' if proved else 'BOUNDED ONLY: ' + (pr['why'] or pr['status']), getattr(v, 'obligations', '-') if v is not None else '-',
        cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0))
    return EXIT_OK


sys.exit(main())
