"""C18 spin operators"""
from common import *
from harness import Unit, Real, Det, Subset, Vec, Int


def bodies(det, i, j, a, kind, nbh, nbv, side, nholes, nbeta):
    """the two determinant-level operators, every determinant, pair of sites and restriction"""
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, a)
    occ = occupation(conf, det)
    before = det[:]
    check(close(itr.compute_spins_z_two_bodies_det(conf, det, i, j), occ[i] * occ[j] / 4), 'product of z-components')
    got = itr.compute_S_plus_S_minus_det(conf, det, i, j)
    check(det == before, 'determinant changed')
    want = None
    if i == j:
        if occ[i] == 1:
            want = det
    elif occ[i] == -1 and occ[j] == 1:
        want = from_occ(swap(occ, i, j))
    if want is None:
        check(not got, 'raising and lowering must annihilate this determinant')
    else:
        check(got, 'raising and lowering must keep this determinant')
        check(got == want, 'wrong determinant')
    return occ[i] * occ[j]


def products(vect, i, j, sub, flat, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, sub)
    v = vect[:, 0] if flat else vect
    before = np.copy(v)
    occs = [occupation(conf, x) for x in bC.construct_basis(conf).determinants]
    zz = itr.compute_spins_z_two_bodies(conf, v, i, j)
    pm = itr.compute_S_plus_S_minus(conf, v, i, j)
    sz, z = itr.compute_spin_z(conf, v)
    check(zz.shape == v.shape and pm.shape == v.shape and z.shape == v.shape, 'shape')
    total = (conf.nsites - nholes - 2 * nbeta) / 2
    check(close(sz, total), 'total z-component')
    want = [0] * len(occs)
    for k, o in enumerate(occs):
        x = vect[k, 0]
        check(close(zz[k] if flat else zz[k, 0], o[i] * o[j] / 4 * x), 'product of z-components')
        check(close(z[k] if flat else z[k, 0], total * x), 'z-component')
        if i == j and o[i] == 1:
            want[k] = want[k] + x
        if o[i] == -1 and o[j] == 1:
            r = rank(conf, swap(o, i, j))
            want[r] = want[r] + x
    for k in range(len(occs)):
        check(close(pm[k] if flat else pm[k, 0], want[k]), 'raising and lowering')
        check(close(v[k] if flat else v[k, 0], before[k] if flat else before[k, 0]), 'state changed')
    return False


def square(vect, conf):
    """S^2 from the site operators"""
    occs = [occupation(conf, x) for x in bC.construct_basis(conf).determinants]
    out = [0] * len(occs)
    for k, o in enumerate(occs):
        x = vect[k, 0]
        d = 0
        for i in range(conf.nsites):
            if o[i] != 0:
                d = d + 3 / 4
            for j in range(conf.nsites):
                if i != j:
                    d = d + o[i] * o[j] / 4
                    if o[i] == -1 and o[j] == 1:
                        r = rank(conf, swap(o, i, j))
                        out[r] = out[r] + x
        out[k] = out[k] + d * x
    return out


def total(vect, sub, flat, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, sub)
    v = vect[:, 0] if flat else vect
    before = np.copy(v)
    out = itr.compute_S2(conf, v)
    check(out.shape == v.shape, 'shape')
    want = square(vect, conf)
    for k in range(len(want)):
        check(close(out[k] if flat else out[k, 0], want[k]), 'total spin squared')
        check(close(v[k] if flat else v[k, 0], before[k] if flat else before[k, 0]), 'state changed')
    return False


def expectation(vect, sub, flat, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, sub)
    v = vect[:, 0] if flat else vect
    e = itr.compute_S2_exp_val(conf, v)
    want = square(vect, conf)
    w = sum([vect[k, 0] * vect[k, 0] for k in range(len(want))])
    s = sum([vect[k, 0] * want[k] for k in range(len(want))])
    if nonzero(w):
        check(close(e * w, s), 'expectation value')
    else:
        check(close(e, 0), 'expectation value of the zero state')
    return False


def units():
    out = []
    rows = [('quick', 'periodic', 2, 2, 1, 1, 1, 'list'), ('quick', 'periodic', 3, 2, 1, 2, 2, ''),
            ('quick', 'peripheral', 1, 1, 1, 1, 2, 'list'), ('quick', 'clusters', 1, 3, 1, 0, 3, ''),
            ('quick', 'periodic', 3, 3, 1, 2, 2, ''), ('quick', 'periodic', 3, 2, 1, 4, 1, 'list'),
            ('thorough', 'periodic', 3, 3, 1, 3, 3, ''), ('thorough', 'periodic', 3, 2, 1, 1, 2, 'list'), ('thorough', 'periodic', 3, 2, 1, 3, 1, 'list')]
    for tier, lab, k, n, nd, res in shapes(rows):
        ins = dict(det=Det(n, k['nholes'], k['nbeta']), i=Int(0, n - 1), j=Int(0, n - 1))
        if res:
            ins['a'] = Subset(n, nonempty=True)
        else:
            k['a'] = None
        out.append(Unit('determinant' + lab, bodies, ins, k, tier=tier,
                        bounds='all %d determinants, all pairs of sites%s' % (nd, ', all restrictions' if res else '')))
    rows = [('quick', 'periodic', 2, 2, 1, 1, 1, ''), ('quick', 'periodic', 2, 2, 1, 0, 2, 'list'),
            ('quick', 'clusters', 1, 2, 1, 1, 2, ''), ('quick', 'periodic', 3, 2, 1, 4, 1, ''),
            ('quick', 'periodic', 3, 1, 1, 3, 0, ''), ('quick', 'periodic', 3, 1, 1, 1, 1, 'list'),
            ('thorough', 'periodic', 3, 2, 1, 2, 1, ''), ('thorough', 'periodic', 3, 2, 1, 2, 2, '')]
    for tier, lab, k, n, nd, res in shapes(rows):
        for flat in (False, True):
            ins = dict(vect=Vec(nd, 1), i=Int(0, n - 1), j=Int(0, n - 1))
            if res:
                ins['sub'] = Subset(n, nonempty=True)
            else:
                k['sub'] = None
            k = dict(k, flat=flat)
            out.append(Unit('products' + lab + (' flat' if flat else ''), products, ins, k, tier=tier,
                            bounds='every state of %d determinants, all pairs of sites' % nd))
    rows = [('quick', 'periodic', 2, 2, 1, 1, 1, ''), ('quick', 'periodic', 2, 2, 1, 0, 2, 'list'),
            ('quick', 'clusters', 1, 2, 1, 1, 2, ''), ('quick', 'periodic', 3, 2, 1, 4, 1, ''),
            ('quick', 'periodic', 3, 2, 1, 2, 1, ''), ('quick', 'periodic', 3, 1, 1, 3, 0, ''),
            ('quick', 'periodic', 5, 1, 1, 0, 2, ''), ('quick', 'periodic', 3, 2, 1, 0, 3, ''),
            ('thorough', 'periodic', 3, 2, 1, 2, 2, ''), ('thorough', 'periodic', 7, 1, 1, 1, 3, '')]
    for tier, lab, k, n, nd, res in shapes(rows):
        for flat in (False, True):
            ins = dict(vect=Vec(nd, 1))
            if res:
                ins['sub'] = Subset(n, nonempty=True)
            else:
                k['sub'] = None
            k = dict(k, flat=flat)
            out.append(Unit('square' + lab + (' flat' if flat else ''), total, ins, k, tier=tier,
                            bounds='every state of %d determinants' % nd))
            if nd <= 20:
                out.append(Unit('expectation' + lab + (' flat' if flat else ''), expectation, ins, k, tier=tier,
                                bounds='every state of %d determinants' % nd))
    for flat in (False, True):
        out.append(Unit('expectation of the zero state%s' % (' flat' if flat else ''), expectation, {},
                        dict(vect=np_zeros(12), sub=None, flat=flat, kind='periodic', nbh=2, nbv=2, side=1, nholes=1, nbeta=1),
                        bounds='the zero state'))
    return out


def np_zeros(n):
    return np.zeros((n, 1))
