"""C21 dominant determinants"""
import initialComputations as iC
from common import *
from harness import Unit, Vec, Int, Seq, Choice


def state(vals, flat):
    return np.array(vals) if flat else np.array([[x] for x in vals])


def column(vect, n):
    return [vect[i, 0] for i in range(n)]


def verify(conf, dets, vals, coeffs, chosen, ndet):
    """coeffs / chosen: the answer; vals: the coefficient of every determinant"""
    n = min(ndet, len(dets))
    check(len(chosen) == n and len(coeffs) == n, 'number of determinants')
    ranks = [rank(conf, occupation(conf, d)) for d in chosen]
    for k in range(n):
        check(chosen[k] == from_occ(occupation(conf, chosen[k])), 'determinant is not well ordered')
        for j in range(k):
            check(ranks[j] != ranks[k], 'a determinant is listed twice')
        for r in range(len(dets)):
            if ranks[k] == r:
                check(close(coeffs[k], vals[r]), 'not its own coefficient')
        if k > 0:
            check(abs(coeffs[k - 1]) >= abs(coeffs[k]), 'not in decreasing order')
    if n > 0:
        for r in range(len(dets)):
            if r not in ranks:
                check(abs(vals[r]) <= abs(coeffs[n - 1]), 'a larger coefficient is omitted')


def dominant(vect, ndet, flat, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta)
    basis = bC.construct_basis(conf)
    d = len(basis.determinants)
    vals = column(vect, d)
    v = vect[:, 0] if flat else vect
    shape = v.shape
    coeffs, dets = bC.get_dominant_determinants(basis, v, ndet)
    verify(conf, basis.determinants, vals, coeffs, dets, ndet)
    check(v.shape == shape, 'state reshaped')
    for i in range(d):
        check(close(vect[i, 0], vals[i]), 'state changed')
    return False


def listed(vect, ndet, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta)
    basis = bC.construct_basis(conf)
    d = len(basis.determinants)
    vals = column(vect, d)
    got = iC.get_most_dominant_determinants(basis.determinants, vect[:, 0], ndet)
    keys = list(got.keys())
    verify(conf, basis.determinants, vals, [k[1] for k in keys], [got[k] for k in keys], ndet)
    for k in keys:
        check(rank(conf, occupation(conf, got[k])) == k[0], 'index of the determinant')
    return False


def dominant_values(vals, ndet, flat, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta)
    basis = bC.construct_basis(conf)
    coeffs, dets = bC.get_dominant_determinants(basis, state(vals, flat), ndet)
    verify(conf, basis.determinants, vals, coeffs, dets, ndet)
    return False


def listed_values(vals, ndet, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta)
    basis = bC.construct_basis(conf)
    got = iC.get_most_dominant_determinants(basis.determinants, state(vals, True), ndet)
    keys = list(got.keys())
    verify(conf, basis.determinants, vals, [k[1] for k in keys], [got[k] for k in keys], ndet)
    for k in keys:
        check(rank(conf, occupation(conf, got[k])) == k[0], 'index of the determinant')
    return False


def units():
    out = []
    rows = [('quick', 'periodic', 3, 1, 1, 1, 0, ''), ('quick', 'periodic', 2, 1, 1, 0, 1, ''),
            ('quick', 'clusters', 1, 2, 1, 3, 0, ''), ('thorough', 'periodic', 5, 1, 1, 4, 0, ''), ('thorough', 'periodic', 3, 1, 1, 1, 1, '')]
    for tier, lab, k, n, nd, res in shapes(rows):
        for nn in sorted({1, nd - 1, nd, nd + 2}):
            for flat in (False, True):
                out.append(Unit('dominant %d of' % nn + lab + (' flat' if flat else ''), dominant, dict(vect=Vec(nd, 1)),
                                dict(k, flat=flat, ndet=nn), tier=tier, bounds='every state of %d determinants' % nd))
            out.append(Unit('listed %d of' % nn + lab, listed, dict(vect=Vec(nd, 1)), dict(k, ndet=nn), tier=tier,
                            bounds='every state of %d determinants' % nd))
    few = [-2.0, -1.0, 0.0, 1.0, 2.0]
    rows = [('quick', 'periodic', 3, 1, 1, 1, 1, ''), ('quick', 'clusters', 1, 2, 1, 0, 1, ''),
            ('thorough', 'periodic', 2, 2, 1, 0, 2, '')]
    for tier, lab, k, n, nd, res in shapes(rows):
        for flat in (False, True):
            out.append(Unit('dominant with ties' + lab + (' flat' if flat else ''), dominant_values,
                            dict(vals=Seq(*[Choice(*few)] * nd), ndet=Choice(*sorted({1, 2, nd - 1, nd + 1}))), dict(k, flat=flat), tier=tier,
                            bounds='coefficients among -2..2'))
        out.append(Unit('listed with ties' + lab, listed_values,
                        dict(vals=Seq(*[Choice(*few)] * nd), ndet=Choice(*sorted({1, 2, nd - 1, nd + 1}))), k, tier=tier,
                        bounds='coefficients among -2..2'))
    return out
