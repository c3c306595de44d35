"""P01: categorical (2x2 contingency table) scores equal their definitions on pooled counts."""
from checks.common import *
from symx.libx import lambertw_any

M = 'metcalcpy.util.ctc_statistics'
N = 'metcalcpy.util.nbrctc_statistics'
NAMES = ['total', 'fy_oy', 'fy_on', 'fn_oy', 'fn_on']
ASSUMPTIONS = [REALS, 'log and the Lambert W function are uninterpreted (log with sign and product laws)',
               'row counts 1..3 with missing values and 17 without']


def a(C): return C['fy_oy']
def b(C): return C['fy_on']
def c(C): return C['fn_oy']
def d(C): return C['fn_on']
def t(C): return C['total']


def pody(C): return div(a(C), a(C) + c(C))
def pofd(C): return div(b(C), b(C) + d(C))
def podn(C): return div(d(C), b(C) + d(C))


def gss(C):
    r = div(a(C) + b(C), t(C)) * (a(C) + c(C))
    return div(a(C) - r, a(C) + b(C) + c(C) - r)


def hss(C):
    T = t(C)
    A, B, X, Y = a(C), b(C), c(C), d(C)
    e = div((A + B) * (A + X) + (X + Y) * (B + Y), T)
    return div(A + Y - e, T - e)


def odds(r):
    def f(C):
        h, q = r(pody(C)), r(pofd(C))
        return div(h * (1 - q), q * (1 - h))
    return f


def odds1(r):
    def f(C):
        h, q = r(pody(C)), r(pofd(C))
        return div(div(h, 1 - h), div(q, 1 - q))
    return f


def hk(r):
    return lambda C: r(pody(C)) - r(pofd(C))


ident = lambda x: x


def lodds(C):
    v = [a(C), d(C), b(C), c(C)]
    return log(v[0]) + log(v[1]) - log(v[2]) - log(v[3])


def orss(C):
    return div(a(C) * d(C) - b(C) * c(C), a(C) * d(C) + b(C) * c(C))


def sedi(r):
    def g(C):
        f = pofd(C)
        h = r(pody(C))
        lf, lh, l1f, l1h = log(f), log(h), log(1 - f), log(1 - h)
        return div(lf - lh - l1f + l1h, lf + lh + l1f + l1h)
    return g


def edi(r):
    def g(C):
        f = pofd(C)
        t(C)
        h = r(pody(C))
        return div(log(f) - log(h), log(f) + log(h))
    return g


def edi_nt(r):
    def g(C):
        f = pofd(C)
        h = r(pody(C))
        return div(log(f) - log(h), log(f) + log(h))
    return g


def eds(C):
    T = t(C)
    return div(2 * log(div(a(C) + c(C), T)), log(div(a(C), T))) - 1


def seds(C):
    T = t(C)
    return div(log(div(a(C) + b(C), T)) + log(div(a(C) + c(C), T)), log(div(a(C), T))) - 1


def bagss(C):
    A, X, T, B = a(C), c(C), t(C), b(C)
    if A == 0 or X == 0 or T == 0:
        raise Undefined()
    O = A + X
    lf = log(div(O, X))
    w = lambertw_any(div(O, B) * lf)
    ha = O - div(B, lf) * w
    return div(ha - O * O / T, 2 * O - ha - O * O / T)


def fbias(C): return div(a(C) + b(C), a(C) + c(C))


def baser_strict(C):
    return div(C.strict('fy_oy') + C.strict('fn_oy'), C.strict('total'))


SPECS = {
    'calculate_baser': (baser_strict, [lambda C: div(a(C) + c(C), t(C))]),
    'calculate_acc': (lambda C: div(a(C) + d(C), t(C)), None),
    'calculate_fbias': (fbias, None),
    'calculate_fmean': (lambda C: div(a(C) + b(C), t(C)), None),
    'calculate_pody': (pody, None),
    'calculate_pofd': (pofd, None),
    'calculate_podn': (podn, None),
    'calculate_far': (lambda C: div(b(C), a(C) + b(C)), None),
    'calculate_csi': (lambda C: div(a(C), a(C) + b(C) + c(C)), None),
    'calculate_gss': (gss, None),
    'calculate_hk': (hk(half_up), [hk(ident)]),
    'calculate_hss': (hss, None),
    'calculate_odds': (odds(half_up), [odds(ident)]),
    'calculate_odds1': (odds1(half_up), [odds1(ident)]),
    'calculate_lodds': (lodds, None),
    'calculate_orss': (orss, None),
    'calculate_sedi': (sedi(half_up), [sedi(ident)]),
    'calculate_edi': (edi(half_up), [edi(ident), edi_nt(half_up), edi_nt(ident)]),
    'calculate_eds': (eds, None),
    'calculate_seds': (seds, None),
    'calculate_bagss': (bagss, None),
    'calculate_ctc_total': (t, None),
    'calculate_cts_total': (t, None),
    'calculate_ctc_fn_on': (d, None),
    'calculate_ctc_fn_oy': (c, None),
    'calculate_ctc_fy_on': (b, None),
    'calculate_ctc_fy_oy': (a, None),
    'calculate_ctc_oy': (lambda C: a(C) + c(C), None),
    'calculate_ctc_on': (lambda C: b(C) + d(C), None),
    'calculate_ctc_fy': (lambda C: a(C) + b(C), None),
    'calculate_ctc_fn': (lambda C: c(C) + d(C), None),
    'pod_yes': (pody, None),
    'pod_no': (podn, None),
}


def tasks(tier):
    out = []
    sizes = [(1, True), (2, True), (6, 'mixed'), (17, False)] if tier == 'quick' else [(1, True), (2, True), (3, True), (4, True), (6, 'mixed'), (17, False), (60, False)]
    for f, (spec, alt) in SPECS.items():
        for n, nan in sizes:
            if f in ('calculate_baser',) and n > 2 and nan:
                continue
            out.append(stat_task(M, f, NAMES, spec, n, nan, lo=0, alt=alt, expect=['value', 'none'] if nan is True else ['value']))
    return out
