"""C17 energy and couplings of a single determinant agree with the Hamiltonian"""
from common import *
from harness import Unit, Real, Bool, Det, Subset


def energy(det, a, b, kind, nbh, nbv, side, nholes, nbeta, J, Jhpar, Jhper, VNN, VNNNper):
    c = dict(J=J, Jhpar=Jhpar, Jhper=Jhper, VNN=VNN, VNNNper=VNNNper)
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, restriction(a, b))
    n = conf.nsites
    occ = occupation(conf, det)
    before = det[:]
    e = itr.compute_energy(conf, interactions(**c), det)
    check(det == before, 'determinant changed')
    A = allowed(a, n)
    B = A if b is None else b
    row = row_of(conf, pos, nb, A, B, occ, c, dict(bz=True, bV=True))
    check(close(e, row.get(tuple(occ), 0)), 'not the diagonal element')
    return e


def diagonal(sub, kind, nbh, nbv, side, nholes, nbeta, **kw):
    """against the Hamiltonian the package itself builds, all determinants of the basis"""
    c = {x: kw[x] for x in COUPLINGS}
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, sub)
    basis = bC.construct_basis(conf)
    h = full(conf, basis, c, dict(bz=True, bV=True))
    for i, det in enumerate(basis.determinants):
        check(close(itr.compute_energy(conf, interactions(**c), det), h[i, i]), 'energy is not the diagonal element')
    return False


def couplings(det, a, b, kind, nbh, nbv, side, nholes, nbeta, **kw):
    c = {x: kw[x] for x in COUPLINGS}
    s = {x: kw[x] for x in TERMS}
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, restriction(a, b))
    n = conf.nsites
    occ = occupation(conf, det)
    before = det[:]
    got = itr.compute_dynamic_interactions(conf, interactions(**c), switches(**s), det)
    check(det == before, 'determinant changed')
    A = allowed(a, n)
    B = A if b is None else b
    row = row_of(conf, pos, nb, A, B, occ, c, dict(s, bz=False, bV=False))
    want = {}
    for o in row:
        want[rank(conf, o)] = row[o]
    have = {}
    for k in got:
        o = occupation(conf, list(k))
        check(list(k) == from_occ(o), 'image is not well ordered')
        have[rank(conf, o)] = got[k]
    for r in have:
        check(close(have[r], want.get(r, 0)), 'coupling differs from the Hamiltonian')
    for r in want:
        check(close(have.get(r, 0), want[r]), 'coupling missing')
    return False


def rows_of(kind, nbh, nbv, side, nholes, nbeta, sub, **kw):
    """against the rows of the Hamiltonian the package itself builds"""
    c = {x: kw[x] for x in COUPLINGS}
    s = {x: kw[x] for x in TERMS}
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, sub)
    basis = bC.construct_basis(conf)
    h = full(conf, basis, c, dict(s, bz=False, bV=False))
    for i, det in enumerate(basis.determinants):
        got = itr.compute_dynamic_interactions(conf, interactions(**c), switches(**s), det)
        have = {}
        for k in got:
            r = rank(conf, occupation(conf, list(k)))
            have[r] = have.get(r, 0) + got[k]
        for j in range(len(basis.determinants)):
            check(close(have.get(j, 0), h[i, j]), 'couplings are not the row of the Hamiltonian')
    return False


def units():
    out = []
    rows = [('quick', 'periodic', 2, 2, 1, 1, 1, ''), ('quick', 'periodic', 3, 2, 1, 2, 2, ''),
            ('quick', 'peripheral', 1, 1, 2, 10, 1, ''), ('quick', 'peripheral', 2, 1, 1, 6, 1, ''),
            ('quick', 'clusters', 1, 3, 1, 2, 2, ''), ('quick', 'periodic', 2, 2, 1, 1, 1, 'list'),
            ('quick', 'periodic', 3, 2, 1, 1, 1, 'pair'), ('quick', 'peripheral', 1, 1, 1, 2, 1, 'list'),
            ('quick', 'clusters', 1, 2, 1, 1, 1, 'pair'),
            ('thorough', 'peripheral', 2, 1, 1, 3, 2, ''), ('thorough', 'periodic', 3, 3, 1, 6, 2, ''),
            ('thorough', 'clusters', 2, 2, 1, 3, 2, ''), ('thorough', 'periodic', 3, 2, 1, 2, 2, 'list')]
    for tier, lab, k, n, nd, res in shapes(rows):
        ins = dict(det=Det(n, k['nholes'], k['nbeta']), **{c: Real() for c in ('J', 'Jhpar', 'Jhper', 'VNN', 'VNNNper')})
        k['a'] = k['b'] = None
        if res:
            ins['a'] = Subset(n, nonempty=True)
            k.pop('a')
        if res == 'pair':
            ins['b'] = Subset(n, nonempty=True)
            k.pop('b')
        out.append(Unit('energy' + lab, energy, ins, k, tier=tier, bounds='all %d determinants, every coupling%s' % (
            nd, ', all restrictions' if res else '')))
    R = {c: Real() for c in COUPLINGS}
    S = {s: Bool() for s in ('bt', 'bij', 'bSD', 'btN')}
    rows = [('quick', 'periodic', 2, 2, 1, 1, 1, ''), ('quick', 'periodic', 3, 1, 1, 1, 1, ''),
            ('quick', 'peripheral', 1, 1, 1, 2, 1, ''), ('quick', 'clusters', 1, 2, 1, 1, 1, ''),
            ('quick', 'periodic', 2, 2, 1, 0, 2, ''), ('quick', 'clusters', 1, 2, 1, 2, 1, ''),
            ('thorough', 'periodic', 5, 1, 1, 3, 1, ''), ('thorough', 'periodic', 3, 2, 1, 4, 1, '')]
    for tier, lab, k, n, nd, res in shapes(rows):
        ins = dict(R, **S)
        ins['det'] = Det(n, k['nholes'], k['nbeta'])
        k['a'] = k['b'] = None
        k['bz'] = k['bV'] = False
        out.append(Unit('couplings' + lab, couplings, ins, k, tier=tier, bounds='all %d determinants, every coupling and switch' % nd))
    # one concrete determinant, all restrictions
    for tier, kind, w, h, det, nh, nbt, mode in (
            ('quick', 'periodic', 2, 2, [1, 0, 2, 3], 1, 1, 'pair'), ('quick', 'periodic', 3, 2, [0, 4, 1, 5, 2, 3], 2, 2, 'list'),
            ('quick', 'clusters', 1, 2, [2, 0, 1, 3], 1, 1, 'list'), ('thorough', 'peripheral', 1, 1, [2, 0, 1, 3, 4], 2, 1, 'pair')):
        n = len(det)
        ins = dict(R, **S)
        ins['a'] = Subset(n, nonempty=True)
        k = dict(kind=kind, nbh=w, nbv=h, side=1, nholes=nh, nbeta=nbt, det=det, b=None, bz=False, bV=False)
        if mode == 'pair':
            ins['b'] = Subset(n, nonempty=True)
            k.pop('b')
        out.append(Unit('couplings %s %dx%d determinant %s %s' % (kind, w, h, det, mode), couplings, ins, k, tier=tier,
                        bounds='every coupling, switch and restriction'))
    rows = [('quick', 'periodic', 2, 2, 1, 1, 1, ''), ('quick', 'periodic', 2, 2, 1, 0, 2, ''),
            ('quick', 'periodic', 3, 2, 1, 4, 1, ''), ('quick', 'peripheral', 1, 1, 1, 3, 1, ''),
            ('quick', 'clusters', 1, 2, 1, 2, 1, ''), ('quick', 'clusters', 1, 2, 1, 1, 1, 'list'),
            ('thorough', 'periodic', 3, 2, 1, 1, 2, ''), ('thorough', 'clusters', 1, 3, 1, 3, 1, '')]
    for tier, lab, k, n, nd, res in shapes(rows):
        k['bz'] = k['bV'] = False
        ins = dict(R, **S)
        if res:
            ins['sub'] = Subset(n, nonempty=True)
        else:
            k['sub'] = None
        out.append(Unit('rows' + lab, rows_of, ins, k, tier=tier, bounds='every coupling and switch, the whole %d x %d matrix' % (nd, nd)))
        ins = dict(R)
        k = {x: k[x] for x in k if x not in ('bz', 'bV')}
        if res:
            ins['sub'] = Subset(n, nonempty=True)
        out.append(Unit('diagonal' + lab, diagonal, ins, k, tier=tier, bounds='every coupling, %d determinants' % nd))
    return out
