"""Translation validation: the extracted text, compiled as plain Rust, against the crate it came from."""
import os, re, subprocess
from core import *

PRIMS = re.compile(r'\b(dot|norm_squared|norm|sum)\s*\(')


def rust(fn):
    s = fn.sig().replace('(ret: %s)' % fn.d['ret'], fn.d['ret'])
    if re.search(r'\bNLP\b', s):
        s = s.replace('fn %s' % fn.name, 'fn %s<NLP: NLProblem>' % fn.name, 1)
    return s + ' ' + re.sub(r'__VX_\w+ ;', '', fn.d['body'])


def ext_text(kind, c):
    fs = [Fn(dict(d)) for d in c.j['fns']]
    out = []
    meth = {}
    for f in fs:
        if f.d['self'] and f.d['self'] in c.j['structs']:
            meth.setdefault(f.d['self'], []).append(f)
        else:
            out.append(rust(f))
    for s, d in c.j['structs'].items():
        out.append('pub struct %s { %s }' % (s, ', '.join('pub %s: %s' % (f, t) for f, t in d['fields'])))
        out.append('impl %s {\n%s\n}' % (s, '\n'.join(rust(f) for f in meth.get(s, []))))
    if kind == 'lin':
        out.append('pub enum Error { LUFactFail { col: usize } }')
    elif kind == 'newton':
        out += ['#[derive(Debug)] pub enum LinError { LUFactFail { col: usize } }', '#[derive(Debug)] ' + c.err]
    else:
        out.append('pub const EXACT: bool = %s;' % ('false' if any(PRIMS.search(f.d['body']) for f in fs) else 'true'))
    return '\n'.join(out) + '\n'


def build(binary, ext, target):
    src = os.path.join(VERIF, 'conform')
    if REPO != '/repo':
        dst = os.path.join(WORK, 'conform')
        subprocess.run(['rm', '-rf', dst])
        subprocess.run(['cp', '-a', src, dst], check=True)
        for f in ['Cargo.toml']:
            t = open(os.path.join(dst, f)).read().replace('/repo/', REPO + '/')
            open(os.path.join(dst, f), 'w').write(t)
        t = open(os.path.join(dst, 'src/contracts.rs')).read().replace('../../specs/', SPECS + '/')
        open(os.path.join(dst, 'src/contracts.rs'), 'w').write(t)
        src = dst
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', RUSTFLAGS='', VX_EXT=ext)
    r = subprocess.run(['cargo', 'build', '--release', '--offline', '--locked', '-q', '--bin', binary], cwd=src, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return None if r.returncode == 0 else '\n'.join(l for l in r.stdout.split('\n') if l.startswith('error'))[:600] or r.stdout[-600:]


def run(exe, seed, secs):
    """-> (verdict, text): agrees, differs, or a reason why it could not be told"""
    try:
        r = subprocess.run([exe, str(seed), str(secs)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=secs + 60)
    except subprocess.TimeoutExpired:
        return 'unknown', 'did not end'
    for ln in r.stdout.split('\n'):
        if ln.startswith('agrees '):
            return 'agrees', ln[7:]
        if ln.startswith('differs '):
            return 'differs', ln[8:][:1500]
        if ln.startswith('hang'):
            return 'unknown', 'a case did not end'
    return 'unknown', 'exit %d' % r.returncode


def check(kind, c, work, target, seed, secs):
    """kind names one crate or several; c holds the extracted text of each"""
    ks = kind.split()
    if len(ks) > 1:
        rs = [check(k, {'lin': getattr(c, 'lin', None), 'newton': getattr(c, 'nl', None)}[k], work, target, seed, secs) for k in ks]
        for v in ('differs', 'unknown'):
            for r in rs:
                if r[0] == v:
                    return r
        return 'agrees', ' and '.join(r[1] for r in rs)
    ext = os.path.join(work, 'ext.rs')
    open(ext, 'w').write(ext_text(kind, c))
    b = 'conform_' + kind
    err = build(b, ext, target)
    if err:
        return 'unknown', 'the extracted text does not compile as plain Rust: ' + err
    exe = os.path.join(work, b)
    subprocess.run(['cp', os.path.join(target, 'release', b), exe], check=True)
    return run(exe, seed, secs)


def contracts(work, target, seed, secs):
    err = build('contracts', os.path.join(work, 'ext.rs'), target)
    if err:
        return 'unknown', err
    return run(os.path.join(target, 'release', 'contracts'), seed, secs)
