"""Contract of the weighted root-mean-square norm."""
from core import *


class Ctx:
    pass


def load(work):
    c = Ctx()
    c.j = extract('nonlinear', ['crates/nonlinear/src'], [], [{'name': 'norm_wrms', 'self': 'Matrix', 'params': ['x', 'w']}], work)
    return c


def C14(c):
    def build(dropped):
        f = Fn(c.j['fns'][0])
        f.check_sig(None, ['&Vc', '&Vc'], 'Sc')
        f.requires = [('same length', '1 <= x@.len() < 0x1_0000_0000 && w@.len() == x@.len()')]
        f.ensures = [('the norm is not negative', 'ret@ >= 0real'),
                     ('the norm squared is the mean of the squared weighted components', 'ret@ * ret@ == ssum(x@, w@, 0, x@.len() as int) / (x@.len() as int) as real')]
        f.broadcast = '{exact, ex_sqrt, sqrt_quot}'
        F = 'Matrix::norm_wrms'
        for l in f.loops:
            if not l.canonical:
                continue
            for nme, ty in l.mutated:
                if ty in ('Sc', '?'):
                    for k, e in enumerate(['%s@ == ssum(x@, w@, 0, %s)', '%s@ == ssum(x@, w@, %s, x@.len() as int)']):
                        l.inv.append(('partial sum %s %d' % (nme, k), e % (nme, l.c), True))
                if ty == 'usize':
                    l.inv.append(('count %s' % nme, '%s == %s' % (nme, l.c), True))
                if ty == 'Vc':
                    for k, e in enumerate(['prods(%s@, x@, w@, %s)', 'squares(%s@, x@, w@, %s)']):
                        l.inv.append(('components of %s %d' % (nme, k), e % (nme, l.c), True))
                    l.inv.append(('length of %s' % nme, '%s@.len() == x@.len()' % nme, True))
            i = l.var if l.desc or l.var else l.ctr
            l.start = [('proof { let vx_i = %s as int; if 0 <= vx_i < x@.len() { sq_forms(x@[vx_i]@, w@[vx_i]@); ssum_front(x@, w@, vx_i, x@.len() as int); } }' % i,)]
        generic_loops(f, dropped)
        f.tail = [('proof { let vx_n = x@.len() as int;'
                   ' assert forall|p: Seq<Sc>, q: Seq<Sc>| prods(p, x@, w@, vx_n) && prods(q, x@, w@, vx_n) implies #[trigger] dsum(p, q, vx_n) == ssum(x@, w@, 0, vx_n) by { dsum_prods(p, q, x@, w@, vx_n); }'
                   ' assert forall|p: Seq<Sc>| squares(p, x@, w@, vx_n) implies #[trigger] vsum(p, vx_n) == ssum(x@, w@, 0, vx_n) by { vsum_squares(p, x@, w@, vx_n); } }',),
                  ('proof { ssum_nonneg(x@, w@, 0, x@.len() as int); div_nonneg(ssum(x@, w@, 0, x@.len() as int), (x@.len() as int) as real); }',)]
        out = []
        for s in ['prelude.rs', 'exact.rs', 'norm.rs']:
            out += spec(s)
        out.append(('verus! {', None))
        weave(f, out, dropped)
        out.append(('}', None))
        return out
    return build
