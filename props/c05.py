"""C05 straight and bent paths, diagonal second neighbours"""
from common import *
from harness import Unit, Int, Subset


def classify(a, b, c, kind, nbh, nbv, side):
    conf, pos, nb = lattice(kind, nbh, nbv, side, 0, 0)
    before = np.copy(conf.bond_matrix)
    ab, bc, ac = b in nb[a], c in nb[b], c in nb[a]
    good = a != b and b != c and a != c and ((ab and bc) or (ab and ac) or (ac and bc))
    if good:
        r = bC.is_bond_linear(conf, a, b, c)
        want = False
        if ab and bc:
            want = straight(pos, a, b, c)
        elif ab and ac:
            want = straight(pos, b, a, c)
        else:
            want = straight(pos, a, c, b)
        check(r == want, 'straight or bent')
    else:
        r = 'none'
        try:
            bC.is_bond_linear(conf, a, b, c)
        except ValueError:
            r = 'rejected'
        check(r == 'rejected', 'three sites that are no path are accepted')
    check(np.array_equal(before, conf.bond_matrix) and conf.lattice_type == kind, 'configuration changed')
    return r


def diagonal(site, sub, kind, nbh, nbv, side):
    conf, pos, nb = lattice(kind, nbh, nbv, side, 0, 0, sub)
    ds = lF.get_diagonal_second_neighbors(conf, site)
    n = len(pos)
    check(len(set(ds)) == len(ds), 'repeated site')
    for j in range(n):
        want = False
        for k in range(n):
            if j != site and k in nb[site] and j in nb[k] and not straight(pos, site, k, j) and j in sub:
                want = True
        check((j in ds) == want, 'diagonal second neighbours')
    return set(ds)


def diagonal_pair(site, a, b, kind, nbh, nbv, side):
    conf, pos, nb = lattice(kind, nbh, nbv, side, 0, 0, (a, b))
    ds = lF.get_diagonal_second_neighbors(conf, site)
    n = len(pos)
    for j in range(n):
        want = False
        for k in range(n):
            if j != site and k in nb[site] and j in nb[k] and not straight(pos, site, k, j) and j in b:
                want = True
        check((j in ds) == want, 'diagonal second neighbours')
    return set(ds)


def units():
    out = []
    for tier, kind, nbh, nbv, side in [
            ('quick', 'periodic', 2, 2, 1), ('quick', 'periodic', 1, 1, 3), ('quick', 'periodic', 2, 3, 1),
            ('quick', 'periodic', 3, 2, 1), ('quick', 'periodic', 1, 4, 1), ('quick', 'periodic', 4, 1, 1),
            ('quick', 'peripheral', 1, 1, 2), ('quick', 'peripheral', 2, 1, 1), ('quick', 'peripheral', 3, 2, 1),
            ('quick', 'peripheral', 1, 2, 1), ('quick', 'peripheral', 1, 3, 1), ('quick', 'peripheral', 1, 1, 1),
            ('quick', 'clusters', 1, 1, 1), ('quick', 'clusters', 1, 1, 2), ('quick', 'clusters', 2, 1, 1),
            ('quick', 'clusters', 1, 2, 1), ('quick', 'clusters', 2, 3, 1), ('quick', 'clusters', 1, 1, 3),
            ('thorough', 'periodic', 2, 1, 3), ('thorough', 'periodic', 2, 2, 2), ('thorough', 'periodic', 1, 2, 3),
            ('thorough', 'peripheral', 1, 1, 3), ('thorough', 'peripheral', 2, 3, 1),
            ('thorough', 'peripheral', 4, 2, 1), ('thorough', 'peripheral', 2, 1, 2),
            ('thorough', 'clusters', 3, 2, 1), ('thorough', 'clusters', 3, 3, 1), ('thorough', 'clusters', 2, 1, 2),
            ('thorough', 'clusters', 1, 2, 2)]:
        W, H = nbh * side, nbv * side
        n = len(geometry(kind, W, H))
        lab = ' %s %dx%d side %d' % (kind, nbh, nbv, side)
        k = dict(kind=kind, nbh=nbh, nbv=nbv, side=side)
        out.append(Unit('classify' + lab, classify, dict(a=Int(0, n - 1), b=Int(0, n - 1), c=Int(0, n - 1)), k,
                        tier=tier, bounds='every triple of the %d sites' % n))
        if n <= 16:
            out.append(Unit('diagonal' + lab, diagonal, dict(site=Int(0, n - 1), sub=Subset(n, nonempty=True)), k,
                            tier=tier if n <= 12 else 'thorough', bounds='every site, every restriction of the %d sites' % n))
        if n <= 9:
            out.append(Unit('diagonal_pair' + lab, diagonal_pair, dict(
                site=Int(0, n - 1), a=Subset(n, nonempty=True), b=Subset(n, nonempty=True)), k,
                tier=tier if n <= 8 else 'thorough',
                bounds='every site and pair of restrictions of the %d sites' % n))
    return out
