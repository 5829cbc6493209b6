"""C22 textual displays"""
from common import *
from harness import Unit, Det, Subset, Vec

UP, DOWN = '\u2191', '\u2193'


def symbol(o):
    if o == 0:
        return '0'
    if o == 1:
        return UP
    return DOWN


def flat(o):
    if o == 0:
        return '0'
    if o == 1:
        return '+'
    return '-'


def picture(occ, pos, W, H):
    """rows from the top; bonds between neighbouring sites"""
    at = {pos[s]: occ[s] for s in range(len(occ))}
    lines = []
    for y in range(H - 1, -1, -1):
        lines.append('--'.join([symbol(at[(x, y)]) for x in range(W)]))
        if y > 0:
            lines.append('  '.join(['|' for x in range(W)]))
    return lines


def listing(det, a, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, a)
    occ = occupation(conf, det)
    before = det[:]
    check(bC.get_displayable_determinant(conf, det) == [flat(o) for o in occ], 'flat list')
    check(det == before, 'determinant changed')
    return False


def whole(sub, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, sub)
    basis = bC.construct_basis(conf)
    got = bC.get_displayable_basis(basis)
    check(len(got) == len(basis.determinants), 'one line per determinant')
    for i, d in enumerate(basis.determinants):
        check(got[i] == [flat(o) for o in occupation(conf, d)], 'basis listing')
    return False


def rectangle(det, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta)
    occ = occupation(conf, det)
    got = bC.get_displayable_rectangular_lattice(conf, det)
    check(got == '\n'.join(picture(occ, pos, nbh * side, nbv * side)), 'rectangular picture')
    return False


def surrounded(det, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice('peripheral', nbh, nbv, side, nholes, nbeta)
    occ = occupation(conf, det)
    W, H = nbh * side, nbv * side
    got = bC.get_displayable_outer_embedding_lattice(conf, det)
    at = {pos[s]: occ[s] for s in range(len(occ))}
    lines = ['   ' + '--'.join([symbol(at[(x, H)]) for x in range(W)]), '']
    for y in range(H - 1, -1, -1):
        lines.append(symbol(at[(-1, y)]) + '  ' + '--'.join([symbol(at[(x, y)]) for x in range(W)]) + '  ' + symbol(at[(W, y)]))
        if y > 0:
            lines.append('  '.join(['|' for x in range(W + 2)]))
    lines += ['', '   ' + '--'.join([symbol(at[(x, -1)]) for x in range(W)])]
    check(got == '\n'.join(lines), 'picture of the block and its ring')
    return False


def neighbours(one, two, nbh, nbv, side, nholes, nbeta, nholes2, nbeta2):
    A, pos, nb = lattice('periodic', nbh, nbv, side, nholes, nbeta)
    B, pos2, nb2 = lattice('periodic', nbh, nbv, side, nholes2, nbeta2)
    W, H = nbh * side, nbv * side
    left = picture(occupation(A, one), pos, W, H)
    right = picture(occupation(B, two), pos2, W, H)
    got = bC.get_displayable_neighbor(A, B, one, two)
    check(got == ''.join([left[i] + ' ' + right[i] + '\n' for i in range(len(left))]), 'picture of two blocks')
    return False


def dominants(vals, ndet, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta)
    basis = bC.construct_basis(conf)
    coeffs, dets = bC.get_dominant_determinants(basis, vals, ndet)
    c2, shown = bC.get_displayable_dominant_determinants(basis, vals, ndet)
    check(len(c2) == len(coeffs) and len(shown) == len(dets), 'number of determinants')
    for i in range(len(dets)):
        check(close(c2[i], coeffs[i]), 'coefficient')
        check(shown[i] == '\n'.join(picture(occupation(conf, dets[i]), pos, nbh * side, nbv * side)), 'picture')
    return False


def units():
    out = []
    rows = [('quick', 'periodic', 3, 2, 1, 2, 2, ''), ('quick', 'periodic', 2, 2, 1, 1, 1, 'list'),
            ('quick', 'peripheral', 2, 1, 1, 2, 3, ''), ('quick', 'clusters', 1, 2, 1, 2, 2, 'list'),
            ('quick', 'periodic', 3, 3, 1, 3, 3, ''), ('quick', 'periodic', 2, 2, 1, 4, 0, ''), ('quick', 'periodic', 2, 2, 1, 0, 4, ''),
            ('thorough', 'periodic', 5, 2, 1, 3, 3, '')]
    for tier, lab, k, n, nd, res in shapes(rows):
        ins = dict(det=Det(n, k['nholes'], k['nbeta']))
        if res:
            ins['a'] = Subset(n, nonempty=True)
        else:
            k['a'] = None
        out.append(Unit('list' + lab, listing, ins, k, tier=tier, bounds='all %d determinants' % nd))
    rows = [('quick', 'periodic', 2, 2, 1, 1, 1, 'list'), ('quick', 'clusters', 1, 2, 1, 2, 1, ''), ('quick', 'periodic', 3, 2, 1, 2, 1, ''),
            ('quick', 'peripheral', 1, 1, 1, 2, 2, '')]
    for tier, lab, k, n, nd, res in shapes(rows):
        ins = {}
        if res:
            ins['sub'] = Subset(n, nonempty=True)
        else:
            k['sub'] = None
        out.append(Unit('basis' + lab, whole, ins, k, tier=tier, bounds='the whole basis'))
    rows = [('quick', 'periodic', 2, 2, 1, 1, 1, ''), ('quick', 'periodic', 3, 2, 1, 2, 2, ''), ('quick', 'periodic', 2, 3, 1, 1, 2, ''),
            ('quick', 'periodic', 1, 1, 2, 2, 1, ''), ('quick', 'periodic', 1, 4, 1, 2, 1, ''), ('quick', 'periodic', 5, 1, 1, 2, 1, ''),
            ('quick', 'periodic', 1, 2, 2, 6, 1, ''), ('quick', 'periodic', 2, 1, 2, 6, 1, ''), ('quick', 'periodic', 1, 1, 3, 7, 1, ''),
            ('thorough', 'periodic', 1, 1, 3, 2, 2, ''), ('thorough', 'periodic', 2, 1, 2, 3, 2, '')]
    for tier, lab, k, n, nd, res in shapes(rows):
        out.append(Unit('rectangle' + lab, rectangle, dict(det=Det(n, k['nholes'], k['nbeta'])), k, tier=tier, bounds='all %d determinants' % nd))
    rows = [('quick', 'peripheral', 1, 1, 1, 1, 2, ''), ('quick', 'peripheral', 2, 1, 1, 6, 1, ''), ('quick', 'peripheral', 1, 2, 1, 2, 1, ''),
            ('quick', 'peripheral', 1, 1, 2, 10, 1, ''), ('quick', 'peripheral', 2, 2, 1, 1, 1, ''), ('quick', 'peripheral', 1, 3, 1, 1, 1, ''),
            ('quick', 'peripheral', 2, 1, 2, 1, 1, ''), ('thorough', 'peripheral', 2, 1, 1, 2, 3, ''), ('thorough', 'peripheral', 1, 1, 3, 1, 1, '')]
    for tier, lab, k, n, nd, res in shapes(rows):
        k = {x: k[x] for x in k if x != 'kind'}
        out.append(Unit('ring' + lab, surrounded, dict(det=Det(n, k['nholes'], k['nbeta'])), k, tier=tier, bounds='all %d determinants' % nd))
    for tier, w, h, s, h1, b1, h2, b2 in (('quick', 2, 2, 1, 1, 1, 1, 2), ('quick', 1, 1, 2, 3, 0, 0, 1), ('quick', 1, 3, 1, 1, 1, 2, 0),
                                          ('quick', 3, 1, 1, 1, 0, 0, 2), ('thorough', 3, 2, 1, 5, 0, 4, 1)):
        n = w * h * s * s
        out.append(Unit('two blocks %dx%d side %d' % (w, h, s), neighbours, dict(one=Det(n, h1, b1), two=Det(n, h2, b2)),
                        dict(nbh=w, nbv=h, side=s, nholes=h1, nbeta=b1, nholes2=h2, nbeta2=b2), tier=tier, bounds='all pairs of determinants'))
    rows = [('quick', 'periodic', 2, 2, 1, 3, 1, ''), ('quick', 'periodic', 3, 1, 1, 2, 0, ''), ('quick', 'periodic', 2, 1, 1, 1, 0, '')]
    for tier, lab, k, n, nd, res in shapes(rows):
        for nn in sorted({1, 2, nd}):
            out.append(Unit('dominant %d' % nn + lab, dominants, dict(vals=Vec(nd, 1)), dict(k, ndet=nn), tier=tier, bounds='every state of %d determinants' % nd))
    return out
