"""Registry: what decides each property."""
import lin, nl, nm, comp
from core import *

RF, RS, NEW, SETUP, SOLVE = 'dense_get_rf', 'dense_get_rs', 'Dense::new', 'Dense::setup', 'Dense::solve'
NA = ('The nalgebra container operations the code calls (element access, column, copy_from, swap_rows, zeros, shape) behave as the '
      'assumed contracts in specs/prelude.rs say; each run compares every one of them with the real nalgebra on random and special values, which does not prove them.')
EX = 'Exact arithmetic: scalar operations are those of an ordered field (specs/exact.rs); rounding is not considered here (C06 covers floating point bit for bit).'
NB = 'N < 2^30 (memory bounds N far below that).'
EXT = 'The extraction (tools/vx) keeps the meaning of the Rust it rewrites: for-ranges and iterators become counting while loops, closures over Result become matches, helpers inside the crate are inlined; each run compares the extracted text, compiled, with the crate on random inputs.'
LI = ('cases: exhaustive small matrices over small value sets, then pseudo-random ones (rationals or f64) of growing size, through the public API '
      'of /repo/crates/linear and against an independent oracle; a case is non-trivial when setup or solve did real work on it '
      '(no skip by rational overflow, not the 1x1 identity); cases are generated without repetition within the exhaustive families')


NS, NN = 'Newton::solve', 'Newton::new'
GET = ['Newton::get_num_iters', 'Newton::get_cur_iter', 'Newton::get_num_conv_fails']
CB = ('The callbacks are an arbitrary implementation of NLProblem: every call may answer anything; all that is assumed is that a callback returns and keeps the length of the vectors it is '
      'lent (which their types force). A call is seen as the vectors and flags it was given and the answer it gave (specs/nl.rs).')
CN = 'The iteration limit and the statistics counters are below usize::MAX / 8 when a solve starts.'
BI = 'Floating point: addition commutes (specs/bits.rs); NaN payloads are not distinguished.'
NI = ('cases: every sequence of callback answers (depth-first over ok / recoverable / non-recoverable, updated / not updated, converged / not converged) for small iteration limits and one or two '
      'consecutive solves, then pseudo-random longer histories with larger limits, through the public API of /repo/crates/nonlinear with a recording problem; a case is non-trivial when more calls than one per solve were made; '
      'sequences are generated without repetition within the exhaustive families')

NO = ('cases: vectors and weights over a small value set for small N exhaustively, then pseudo-random ones of growing size and magnitude, for owned, borrowed and statically sized vectors against a compensated sum; a case is non-trivial when the norm is not 0; '
      'cases are generated without repetition within the exhaustive families')


CI = ('cases: affine residuals with small integer and rational Jacobians of size 1 to 4, solved by the real Newton with the real dense solver in exact rational arithmetic, several solves per solver, callbacks failing at random; '
      'a case is non-trivial when at least one convergence test was reached; pseudo-random, not repeated deliberately')
NOTE = 'Every obligation of the contracts is discharged for all sizes, values and iterations; the replay engine re-runs the real crates as a bounded cross-check and supplies failing inputs.'


def P(build, functions, panics, assumptions, load=lin.load, rule=LI, **kw):
    d = dict(build=build, functions=functions, panics=panics, assumptions=assumptions, load=load, rule=rule, note=NOTE)
    d.update(kw)
    d['kind'] = {'lin': 'lin', 'nl': 'newton', 'nm': 'norm', 'comp': 'lin newton'}[load.__module__]
    return d


PROPS = {
    'C01': P(lin.C01, [RF, SETUP], False, [NA, EX, NB, EXT]),
    'C02': P(lin.C02, [RF, SETUP], False, [NA, EX, NB, EXT]),
    'C03': P(lin.C03, [RF, SETUP], True, [NA, EX, NB, EXT]),
    'C04': P(lin.C04, [RF, RS, NEW, SETUP, SOLVE], True, [NA, EX, NB, EXT]),
    'C05': P(lin.C05, [RF, RS, NEW, SETUP, SOLVE], True, [NA, EX, NB, EXT]),
    'C06': P(lin.C06, [RF, RS, SETUP, SOLVE], True, [NA, NB, EXT, 'Floating point: multiplication and addition commute, comparison is asymmetric, recip(x) is 1/x (specs/bits.rs); NaN payloads and signs are not distinguished.']),
    'C08': P(nl.C08, [NS], False, [NA, CB, CN, BI, EXT], load=nl.load, rule=NI),
    'C09': P(nl.C09, [NS], False, [NA, CB, CN, BI, EXT], load=nl.load, rule=NI),
    'C10': P(nl.C10, [NS], True, [NA, CB, CN, EXT], load=nl.load, rule=NI),
    'C11': P(nl.C11, [NN, NS] + GET, False, [NA, CB, CN, EXT], load=nl.load, rule=NI),
    'C12': P(nl.C12, [NS], False, [NA, CB, CN, EXT], load=nl.load, rule=NI),
    'C13': P(nl.C13, [NN, NS] + GET, False, [NA, CB, CN, EXT], load=nl.load, rule=NI),
    'C14': P(nm.C14, ['Matrix::norm_wrms'], True, [NA + ' component_mul, iter, map, sum, zip, fold as in specs/prelude.rs, specs/norm.rs.',
             'Exact arithmetic with an exact square root (specs/exact.rs, specs/norm.rs); rounding, overflow and underflow are not considered.', '1 <= N < 2^32.', EXT], load=nm.load, rule=NO),
    'C15': P(comp.C15, [RF, RS, NEW, SETUP, SOLVE, NN, NS] + GET, False, [NA, EX, NB, CN, BI, EXT], load=comp.load, rule=CI),
    'C07': P(lin.C07, [RF, RS, NEW, SETUP, SOLVE], True, [NA, NB, EXT, 'No assumption on arithmetic.']),
}


def code_map(j, functions):
    """where the verified text comes from, and what was inlined into it"""
    out = []
    for d in j['fns']:
        n = (d['self'] + '::' if d.get('self') else '') + d['name']
        if n in functions:
            out.append({'function': n, 'file': os.path.relpath(d['file'], REPO), 'line': d['line'], 'helpers_inlined': d.get('inlined', []), 'loops': len(d['loops'])})
    return out
