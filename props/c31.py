"""C31 the dynamic embedding dresses the block by electrons of the neighbour visiting it"""
from c28 import *

FIXED = dict(J=0.5, Jhpar=0.25, Jhper=-0.75, VNN=1.5, VNNNper=0.625)
MOVES = ('t', 'hSDpar', 'hSDper', 'tNNN', 'tnNNN')
ENERGY = -1.0


def numbers(values, scale=1):
    c = dict(FIXED)
    for x, v in zip(MOVES, values):
        c[x] = v * scale
    return c


def embed(c, m, vects, dyn, neigh, rev, threshold, nbh, nbv, side, nholes, nbeta, out=None, steps=1):
    """the matrix given to the solver in the last iteration, and the determinants of the block"""
    n = m.shape[0]
    if out is None:
        out = vects
    conf, pos, dets, data = start([c[x] for x in COUPLINGS], m, vects, out, ON, nbh, nbv, side, nholes, nbeta)
    res = emb.embedding_blocks(data, -1, steps, dyn, False, neigh, threshold, rev)
    g = res.eigenstates.eigvals
    stored(conf, ON, m)
    return conf, [occupation(conf, d) for d in dets], [[g[i * n + j] for j in range(n)] for i in range(n)]


def dressing(c, m, vects, neigh, rev, shape):
    """what the dynamic embedding adds to the static one"""
    conf, occs, one = embed(c, m, vects, True, neigh, rev, 0, *shape)
    conf, occs, two = embed(c, m, vects, False, neigh, rev, 0, *shape)
    n = len(occs)
    return occs, [[one[i][j] - two[i][j] for j in range(n)] for i in range(n)]


def borders(pos, nb, sites):
    """sites of the two blocks next to a site that faces the other block"""
    edge = [i for i in range(2 * sites) if True in [(i < sites) != (j < sites) for j in nb[i]]]
    near = [i for i in range(2 * sites) if True in [j in edge for j in nb[i]]]
    return [i for i in near if i < sites], [i for i in near if i >= sites]


def visits(c, occs, vects, rev, energy, W, H, threshold=None):
    """second-order dressing of the block by one neighbour: pairs (row, column) -> value"""
    sites = W * H
    conf, pos, nb = lattice('clusters', W, H, 1, 0, 0)
    mine, other = borders(pos, nb, sites)
    f = -1 if rev else 1
    there = [[f * x for x in o] for o in occs]
    everything = list(range(2 * sites))
    d = {}
    for o in occs:
        seen = []
        for a in mine:
            if o[a] != 0:
                continue
            for p in there:
                for b in other:
                    if p[b - sites] == 0 or not (b in nb[a] or two_bonds(pos, nb, a, b)[0]):
                        continue
                    full_ = o + p
                    full_[a], full_[b] = full_[b], 0
                    if full_ in seen:
                        continue
                    seen.append(full_)
                    e = row_of(conf, pos, nb, everything, everything, full_, c, dict(bz=True, bV=True)).get(tuple(full_), 0)
                    back = row_of(conf, pos, nb, [x for x in other if full_[x] == 0], [x for x in mine if full_[x] == full_[a]],
                                  full_, c, dict(bt=True, bSD=True, btN=True))
                    images = list(back.items())
                    for k in range(len(images)):
                        for l in range(k + 1, len(images)):
                            (x, u), (y, v) = images[k], images[l]
                            i, j = occs.index(list(x[:sites])), occs.index(list(y[:sites]))
                            value = vects[there.index(list(x[sites:])), 0] * vects[there.index(list(y[sites:])), 0] * u * v / (2 * energy - e)
                            if threshold is not None and abs(value) < threshold:
                                continue
                            d[(i, j)] = d.get((i, j), 0) + value
                            d[(j, i)] = d.get((j, i), 0) + value
    return d


def images_of(occs, W, turns):
    return [occs.index(turned(o, W, turns)) for o in occs]


def formula(v, m, vects, neigh, rev, nbh, nbv, side, nholes, nbeta):
    c = numbers(v)
    n = m.shape[0]
    assume(nonzero(sum([vects[k, 0] * vects[k, 0] for k in range(n)])))
    occs, d = dressing(c, m, vects, neigh, rev, (nbh, nbv, side, nholes, nbeta))
    W, H = nbh * side, nbv * side
    one = visits(c, occs, vects, rev, ENERGY, W, H)
    compare(occs, d, one, neigh, W)
    return False


def compare(occs, d, one, neigh, W):
    n = len(occs)
    want = [[0] * n for _ in range(n)]
    for turns in range(1 if neigh else 4):
        im = images_of(occs, W, turns) if turns else list(range(n))
        for i, j in one:
            want[im[i]][im[j]] = want[im[i]][im[j]] + one[(i, j)]
    for i in range(n):
        for j in range(n):
            check(close(d[i][j], d[j][i]), 'dressing is not symmetric')
    if not neigh:
        im = images_of(occs, W, 1)
        for i in range(n):
            for j in range(n):
                check(close(d[im[i]][im[j]], d[i][j]), 'dressing changes under a quarter turn')
    for i in range(n):
        for j in range(n):
            check(close(d[i][j], want[i][j]), 'dressing is not the second-order sum over visiting electrons')


def second(out, neigh, rev, nbh, nbv, side, nholes, nbeta):
    """the second iteration uses the state and the energy of the first"""
    c = numbers((0.5, 0.125, -0.25, 0.375, -0.75))
    n = out.shape[0]
    assume(nonzero(sum([out[k, 0] * out[k, 0] for k in range(n)])))
    m, vects = np.zeros((n, n)), np.zeros((n, 1))
    for i in range(n):
        vects[i, 0] = (i + 2) / 4
        for j in range(n):
            m[i, j] = (i * j - i - j) / 8 - 3 * (i == j)
    shape = (nbh, nbv, side, nholes, nbeta)
    conf, occs, one = embed(c, m, vects, True, neigh, rev, 0, *shape)
    energy = one[0][0]
    conf, occs, two = embed(c, m, vects, True, neigh, rev, 0, *shape, out=out, steps=2)
    conf, occs, static = embed(c, m, vects, False, neigh, rev, 0, *shape, out=out, steps=2)
    d = [[two[i][j] - static[i][j] for j in range(n)] for i in range(n)]
    W, H = nbh * side, nbv * side
    compare(occs, d, visits(c, occs, out, rev, energy, W, H), neigh, W)
    return False


def mirrored(v, m, vects, neigh, rev, nbh, nbv, side, nholes, nbeta):
    """all spins of the block and of its surroundings reversed"""
    c = numbers(v)
    n = m.shape[0]
    assume(nonzero(sum([vects[k, 0] * vects[k, 0] for k in range(n)])))
    shape = (nbh, nbv, side, nholes, nbeta)
    conf, occs, one = embed(c, m, vects, True, neigh, rev, 0, *shape)
    shape = (nbh, nbv, side, nholes, conf.nsites - nholes - nbeta)
    im = [rank(bC.reverse_spins(conf, from_occ(o))[0], [-x for x in o]) for o in occs]
    m2, v2 = np.zeros((n, n)), np.zeros((n, 1))
    for i in range(n):
        v2[im[i], 0] = vects[i, 0]
        for j in range(n):
            m2[im[i], im[j]] = m[i, j]
    conf2, occs2, two = embed(c, m2, v2, True, neigh, rev, 0, *shape)
    for i in range(n):
        for j in range(n):
            check(close(two[im[i]][im[j]], one[i][j]), 'the reversed problem is dressed differently')
    return False


def cut(th, low, high, neigh, rev, nbh, nbv, side, nholes, nbeta):
    """contributions below the threshold are neglected, the others kept"""
    c = numbers((0.5, 0.125, -0.25, 0.375, -0.75))
    n = choose(nbh * nbv * side * side, nholes) * choose(nbh * nbv * side * side - nholes, nbeta)
    m, vects = np.zeros((n, n)), np.zeros((n, 1))
    for i in range(n):
        vects[i, 0] = (i + 2) / 4
    assume(low <= th)
    assume(th <= high)
    shape = (nbh, nbv, side, nholes, nbeta)
    conf, occs, one = embed(c, m, vects, True, neigh, rev, th, *shape)
    conf, occs, two = embed(c, m, vects, False, neigh, rev, 0, *shape)
    d = [[one[i][j] - two[i][j] for j in range(n)] for i in range(n)]
    W, H = nbh * side, nbv * side
    compare(occs, d, visits(c, occs, vects, rev, ENERGY, W, H, th), neigh, W)
    return False


HISTORY = 1     # history units per function


def units():
    out = []
    rows = [('quick', 'periodic', 2, 1, 1, 1, 0, ''), ('quick', 'periodic', 2, 1, 1, 1, 1, ''), ('quick', 'periodic', 3, 1, 1, 1, 0, ''),
            ('quick', 'periodic', 1, 1, 2, 1, 0, ''), ('quick', 'periodic', 1, 1, 2, 3, 1, '')]
    for tier, lab, k, n, nd, res in shapes(rows):
        del k['kind']
        ins = dict(v=Seq(*[Real()] * 5), m=Vec(nd, nd), vects=Vec(nd, 1))
        for neigh in (True, False):
            if not neigh and k['nbh'] != k['nbv']:
                continue
            for rev in (False, True):
                b = 'every t, tN, hSD, block Hamiltonian and state of %d determinants' % nd
                w = lab + ' one neighbour' * neigh + ' reversed' * rev
                out.append(Unit('formula' + w, formula, ins, dict(k, neigh=neigh, rev=rev), stubs=STUB, tier=tier, bounds=b))
                out.append(Unit('second iteration' + w, second, dict(out=Vec(nd, 1)), dict(k, neigh=neigh, rev=rev), stubs=STUB,
                                tier=tier, bounds='every state of the first iteration'))
                out.append(Unit('mirrored' + w, mirrored, ins, dict(k, neigh=neigh, rev=rev), stubs=STUB, tier=tier, bounds=b))
                for low, high in ((0, 1e-9), (0.0123, 0.0124), (1000, 1e9)):
                    out.append(Unit('threshold %g to %g' % (low, high) + w, cut, dict(th=Real()), dict(k, neigh=neigh, rev=rev, low=low, high=high),
                                    stubs=STUB, tier=tier, bounds='every threshold in the range'))
    return out

