from collections import Counter

from hypothesis import strategies as st

import oracle as O
import strat as S
from pbt import Part, Violation

PROPERTY = 'C05'
RULE = ('random range lists (ragged, interlaced, empty, or built around polynomials with chosen roots) and flags; '
        'non-trivial: at least 2 pairs are enumerated and at least one combination is skipped or squeezed')


@st.composite
def case(draw):
    how = draw(st.integers(0, 11))
    if how == 0:
        rb = [draw(S.large_poly_ranges()) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    elif how < 5:
        rb = [draw(S.rooted_poly_ranges()) for _ in range(draw(st.sampled_from([1, 1, 2])))]
        rb = S.shrink_to(rb, 24)
    else:
        rb = draw(S.interlace(maxlen=4, limit=40))
        if draw(st.integers(0, 5)) == 0:
            # of high degrees
            rb = draw(S.interlace(minlen=5, maxlen=9, limit=20, widths=(1, 1, 1, 2)))
    ra = draw(S.interlace(maxlen=draw(st.sampled_from([4, 4, 6])), limit=12))
    if draw(st.integers(0, 19)) == 0:
        which = draw(st.sampled_from([ra, rb]))
        p = draw(st.sampled_from(which))
        r = draw(st.sampled_from(p))
        r[1] = r[0]
    return {'ra': ra, 'rb': rb, 'avoid': draw(st.booleans()), 'exp': draw(st.booleans())}


def expected(c, cls='normal', special=None):
    must, may = Counter(), Counter()
    skipped = squeezed = 0
    for pa, pb, status in O.enum_pairs(cls, c['ra'], c['rb'], special, c['avoid'], c['exp']):
        if status is False:
            skipped += 1
            continue
        may[(pa, pb)] += 1
        if status:
            must[(pa, pb)] += 1
        squeezed += len(pa) < len(c['ra']) or len(pb) < len(c['rb'])
    return must, may, skipped, squeezed


def compare(got, must, may, ctx):
    for k, n in must.items():
        if got.get(k, 0) < n:
            raise Violation('%s: the pair %r was enumerated %d times instead of %d' % (ctx, k, got.get(k, 0), n))
    for k, n in got.items():
        if n > may.get(k, 0):
            raise Violation('%s: the pair %r was enumerated %d times, %d allowed' % (ctx, k, n, may.get(k, 0)))


def check(c, env):
    must, may, skipped, squeezed = expected(c)
    r = env.ok('enum_polys', cls='normal', range_a=c['ra'], range_b=c['rb'],
               kw={'avoid_int_roots': c['avoid'], 'enum_only_exp_conv': c['exp'], 'should_gen_contfrac': False})
    got = Counter((O.tuplify(pa), O.tuplify(pb)) for pa, pb in r['items'])
    compare(got, must, may, 'normal')
    env.label('avoid=%s' % c['avoid'], 'exp=%s' % c['exp'], 'interlaced' if len(c['ra']) + len(c['rb']) > 2 else 'single')
    if skipped:
        env.label('skips')
    if squeezed:
        env.label('squeezes')
    if len(must) != len(may):
        env.label('has open pairs')
    env.nontrivial(len(got) >= 2 and (skipped or squeezed))


# -- with the continued fraction objects

@st.composite
def cf_case(draw):
    c = draw(case())
    c['ra'] = S.shrink_to(c['ra'], 6)
    c['rb'] = S.shrink_to(c['rb'], 10)
    c['n'] = draw(st.integers(1, 12))
    c['zero'] = draw(st.booleans())
    return c


def cf_check(c, env):
    must, may, skipped, squeezed = expected(c)
    zero = {}
    for k in may:
        _, bv = O.ab_values(k[0], k[1], c['n'])
        zero[k] = 0 in bv[1:]
    if c['zero']:
        skipped += sum(zero.values())
        must = Counter({k: n for k, n in must.items() if not zero[k]})
        may = Counter({k: n for k, n in may.items() if not zero[k]})
    r = env.ok('enum_polys', cls='normal', range_a=c['ra'], range_b=c['rb'],
               kw={'avoid_int_roots': c['avoid'], 'enum_only_exp_conv': c['exp'], 'should_gen_contfrac': True,
                   'avoid_zero_b': c['zero'], 'num_of_iterations': c['n'], 'prec': 50})
    got = Counter()
    for pa, pb, val in r['items']:
        k = (O.tuplify(pa), O.tuplify(pb))
        got[k] += 1
        av, bv = O.ab_values(pa, pb, c['n'])
        P, Q = O.convergents(av, bv)[-1]
        v = O.num(val)
        if Q == 0:
            if v != 'nan':
                raise Violation('%r has a zero denominator, but its continued fraction gave %s' % (k, v))
        elif not O.is_num(v) or not O.close(v, O.Fr(P, Q), O.Fr(1, 10 ** 47)):
            raise Violation('the continued fraction that came with %r is worth %s instead of %s after %d iterations'
                            % (k, O.mp_of(v) if O.is_num(v) else v, O.mp_of(O.Fr(P, Q)), c['n']))
    compare(got, must, may, 'with continued fractions')
    env.label('cf', 'zero b avoided' if c['zero'] else 'zero b allowed')
    if any(zero.values()):
        env.label('vanishing numerators')
    env.nontrivial(len(got) >= 2)


PARTS = [Part('pairs', case(), check, 1800), Part('with_contfracs', cf_case(), cf_check, 700)]
