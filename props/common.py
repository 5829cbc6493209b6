"""Independent reference geometry and small helpers used by the property units."""
import numpy as np
import baseConstruction as bC
import latticeFunctions as lF
import interactions as itr
from hlib import check, assume, reach, close, nonzero, workdir, nfiles, reads


# ---------------------------------------------------------------- reference geometry
def geometry(kind, W, H):
    """positions of the sites: W x H block, optional ring or second block"""
    pos = [(x, y) for y in range(H) for x in range(W)]
    if kind == 'peripheral':
        pos += [(x, -1) for x in range(W)]
        pos += [(W, y) for y in range(H)]
        pos += [(x, H) for x in range(W - 1, -1, -1)]
        pos += [(-1, y) for y in range(H - 1, -1, -1)]
    elif kind == 'clusters':
        pos += [(x + W, y) for y in range(H) for x in range(W)]
    return pos


def adjacency(pos):
    n = len(pos)
    m = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if abs(pos[i][0] - pos[j][0]) + abs(pos[i][1] - pos[j][1]) == 1:
                m[i, j] = 1
    return m


def lattice(kind, nbh, nbv, side, nholes, nbeta, restriction=None):
    """(configuration of the code under test, positions, adjacency list)"""
    W, H = nbh * side, nbv * side
    pos = geometry(kind, W, H)
    m = adjacency(pos)
    h = 2 * nbh if kind == 'clusters' else nbh
    conf = bC.Configuration(m, nholes, nbeta, [] if restriction is None else restriction, kind, h, nbv, side)
    n = len(pos)
    nb = [[j for j in range(n) if m[i, j] == 1] for i in range(n)]
    return conf, pos, nb


def straight(pos, a, b, c):
    """b is the middle site of the path a-b-c"""
    return pos[a][0] + pos[c][0] == 2 * pos[b][0] and pos[a][1] + pos[c][1] == 2 * pos[b][1]


def occupation(conf, det):
    """per site symbol: 0 hole, -1 down, 1 up"""
    n, h, b = conf.nsites, conf.nholes, conf.nbeta
    occ = [0] * n
    for k in range(n):
        if k >= h + b:
            occ[det[k]] = 1
        elif k >= h:
            occ[det[k]] = -1
    return occ


def from_occ(occ):
    n = len(occ)
    return ([s for s in range(n) if occ[s] == 0] + [s for s in range(n) if occ[s] == -1]
            + [s for s in range(n) if occ[s] == 1])


def choose(n, k):
    if k < 0 or k > n:
        return 0
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def rank(conf, occ):
    """rank of an occupation in the order of the numbering: holes first, then downs among electrons"""
    n, h, b = conf.nsites, conf.nholes, conf.nbeta
    a = n - h - b
    holes = [1 if occ[s] == 0 else 0 for s in range(n)]
    downs = [1 if occ[s] == -1 else 0 for s in range(n)]
    # lexicographic rank of a k-subset of n positions: sum over elements not taken before the last one
    rh = 0
    left = h
    for s in range(n):
        if left > 0:
            if holes[s] == 1:
                left = left - 1
            else:
                rh = rh + choose(n - s - 1, left - 1)
    rb = 0
    left = b
    rest = a + b
    for s in range(n):
        if holes[s] == 0:
            rest = rest - 1
            if left > 0:
                if downs[s] == 1:
                    left = left - 1
                else:
                    rb = rb + choose(rest, left - 1)
    return rh * choose(a + b, b) + rb


# ---------------------------------------------------------------- operators
def restriction(a, b):
    if a is None:
        return None
    if b is None:
        return a
    return (a, b)


def allowed(a, n):
    return list(range(n)) if a is None else a


def swap(occ, i, j):
    o = list(occ)
    o[i], o[j] = occ[j], occ[i]
    return o


def compare_row(ham, want):
    """ham: triplets, all on row 0; want: column -> value"""
    check(len(ham.data) == len(ham.row) and len(ham.data) == len(ham.col), 'triplets of unequal length')
    got = {}
    for v, r, c in zip(ham.data, ham.row, ham.col):
        check(r == 0, 'entry on another row')
        got[c] = got.get(c, 0) + v
    for c in got:
        check(close(got[c], want.get(c, 0)), 'unexpected matrix element')
    for c in want:
        check(close(got.get(c, 0), want[c]), 'missing matrix element')


def interactions(**kw):
    """couplings by name, the others zero"""
    names = ('t', 'J', 'Jhpar', 'Jhper', 'hSDpar', 'hSDper', 'tNNN', 'tnNNN', 'VNN', 'VNNNper')
    return itr.Interactions(*[kw.get(x, 0) for x in names])


def environment(occ, pos, nb, i, j):
    """'par', 'per' or 'free': holes around the bond i-j"""
    par, per = False, False
    for h in nb[i]:
        if h != j and occ[h] == 0:
            per = True
            if straight(pos, h, i, j):
                par = True
    for h in nb[j]:
        if h != i and occ[h] == 0:
            per = True
            if straight(pos, i, j, h):
                par = True
    if par:
        return 'par'
    if per:
        return 'per'
    return 'free'


def two_bonds(pos, nb, i, j):
    """(reachable by two bonds, by a straight path)"""
    paths = [m for m in nb[i] if j in nb[m]]
    return i != j and len(paths) > 0, True in [straight(pos, i, m, j) for m in paths]


def shapes(rows):
    """(tier, label, lattice arguments, number of sites, number of determinants, restriction mode)"""
    out = []
    for tier, kind, nbh, nbv, side, nh, nb, res in rows:
        n = len(geometry(kind, nbh * side, nbv * side))
        nd = choose(n, nh) * choose(n - nh, nb)
        lab = ' %s %dx%d side %d, %d holes %d down %s' % (kind, nbh, nbv, side, nh, nb, res)
        k = dict(kind=kind, nbh=nbh, nbv=nbv, side=side, nholes=nh, nbeta=nb)
        out.append((tier, lab, k, n, nd, res))
    return out


# ---------------------------------------------------------------- whole matrices
COUPLINGS = ('t', 'J', 'Jhpar', 'Jhper', 'hSDpar', 'hSDper', 'tNNN', 'tnNNN', 'VNN', 'VNNNper')
TERMS = {'bt': ('t',), 'bz': ('J', 'Jhpar', 'Jhper'), 'bij': ('J', 'Jhpar', 'Jhper'), 'bSD': ('hSDpar', 'hSDper'),
         'btN': ('tNNN', 'tnNNN'), 'bV': ('VNN', 'VNNNper')}


def switches(**kw):
    import initialComputations as iC
    return iC.BoolInteractions(*[kw.get(x, False) for x in TERMS])


def full(conf, basis, c, s):
    """dense Hamiltonian for a dictionary of couplings and one of switches"""
    import hamiltonianConstruction as hC
    return hC.build_hamiltonian(conf, interactions(**c), basis, switches(**s)).toarray()


def row_of(conf, pos, nb, A, B, occ, c, s):
    """reference row of the Hamiltonian: occupation tuple -> value"""
    n = len(pos)
    row = {}

    def put(o, v):
        o = tuple(o)
        row[o] = row.get(o, 0) + v
    for i in range(n):
        for j in range(n):
            link = j in nb[i]
            two, line = two_bonds(pos, nb, i, j)
            if s.get('bt') and link and occ[i] == 0 and occ[j] != 0 and i in A and j in B:
                put(swap(occ, i, j), c['t'])
            if s.get('btN') and two and occ[i] == 0 and occ[j] != 0 and i in A and j in B:
                put(swap(occ, i, j), c['tnNNN'] if line else c['tNNN'])
            if i < j and link and ((i in A and j in B) or (j in A and i in B)) and occ[i] * occ[j] == -1:
                e = environment(occ, pos, nb, i, j)
                x = c['Jhpar'] if e == 'par' else c['Jhper'] if e == 'per' else c['J']
                if s.get('bz'):
                    put(occ, -x / 2)
                if s.get('bij'):
                    put(swap(occ, i, j), x / 2)
            if s.get('bV') and i < j and i in A and j in A and occ[i] == 0 and occ[j] == 0:
                if link:
                    put(occ, c['VNN'])
                if two and not line:
                    put(occ, c['VNNNper'])
            if s.get('bSD') and link:
                for k in nb[j]:
                    if k != i and occ[i] == 0 and occ[j] * occ[k] == -1 and i in A and j in B and k in B:
                        x = c['hSDpar'] if straight(pos, i, j, k) else c['hSDper']
                        one, two_ = list(occ), list(occ)
                        one[i], one[j], one[k] = occ[j], occ[k], 0
                        two_[i], two_[j], two_[k] = occ[k], occ[j], 0
                        put(one, x)
                        put(two_, -x)
    return row


def reference(conf, pos, nb, dets, c, s):
    """reference Hamiltonian without restriction, in the order of dets"""
    n = len(pos)
    everything = list(range(n))
    occs = [tuple(occupation(conf, d)) for d in dets]
    where = {o: k for k, o in enumerate(occs)}
    m = [[0] * len(dets) for _ in dets]
    for k, o in enumerate(occs):
        for o2, v in row_of(conf, pos, nb, everything, everything, list(o), c, s).items():
            m[k][where[o2]] = m[k][where[o2]] + v
    return m


# ---------------------------------------------------------------- shapes of the terms of the Hamiltonian
def term_rows(most, more, pairs=True):
    """particle numbers on small lattices of each kind: up to `most` determinants quick, up to `more` thorough;
    the restrictions of sites are symbolic on the smaller lattices"""
    out = []
    for kind, nbh, nbv, side, quick in (
            ('periodic', 3, 1, 1, 1), ('periodic', 1, 4, 1, 1), ('periodic', 2, 2, 1, 1), ('periodic', 1, 1, 2, 1),
            ('periodic', 5, 1, 1, .3), ('periodic', 2, 3, 1, .7), ('periodic', 3, 2, 1, 1), ('periodic', 4, 2, 1, .6),
            ('periodic', 2, 1, 2, .3), ('periodic', 1, 1, 3, .8), ('periodic', 3, 3, 1, .3), ('periodic', 5, 2, 1, .5),
            ('periodic', 3, 4, 1, .75), ('periodic', 4, 4, 1, 1.35), ('periodic', 2, 2, 2, 1.35),
            ('peripheral', 1, 1, 1, 1), ('peripheral', 2, 1, 1, .8), ('peripheral', 1, 2, 1, .6),
            ('peripheral', 3, 1, 1, 0), ('peripheral', 2, 2, 1, .6), ('peripheral', 1, 1, 2, .3),
            ('clusters', 1, 1, 1, 1), ('clusters', 1, 2, 1, 1), ('clusters', 2, 1, 1, 1), ('clusters', 1, 3, 1, .6),
            ('clusters', 2, 2, 1, .8), ('clusters', 1, 1, 2, .3), ('clusters', 3, 2, 1, .2)):
        n = len(geometry(kind, nbh * side, nbv * side))
        for nh in range(n + 1):
            for nb in range(n - nh + 1):
                nd = choose(n, nh) * choose(n - nh, nb)
                tier = 'quick' if nd <= quick * most else 'thorough' if nd <= more else None
                if tier == 'quick' and n > 5 and (nh == 0 or nh == n or nb == 0 and nb + nh < n and nh < n - 2):
                    tier = 'thorough'
                if tier and not (nd == 1 and 0 < nh < n):
                    out.append((tier, kind, nbh, nbv, side, nh, nb, ''))
                for mode, top, size in (('list', 4, 2 ** n), ('pair', 4, 4 ** n)):
                    if n <= top + 2 and nd * size <= 70000 and nd > 1 and side == 1 and (mode == 'list' or pairs):
                        t = n < 4 or n == 4 and (nh, nb) in ((1, 1), (2, 1), (1, 2), (0, 2)) or mode == 'list' and n <= 6 and nd in (60, 90)
                        out.append(('quick' if t and quick > .5 else 'thorough', kind, nbh, nbv, side, nh, nb, mode))
    return out


def sweep(most, more, *lattices):
    """every particle number on the given lattices"""
    out = []
    for kind, nbh, nbv, side in lattices:
        n = len(geometry(kind, nbh * side, nbv * side))
        for nh in range(n + 1):
            for nb in range(n - nh + 1):
                nd = choose(n, nh) * choose(n - nh, nb)
                if nd <= more:
                    out.append(('quick' if nd <= most else 'thorough', kind, nbh, nbv, side, nh, nb, ''))
    return out


def merge(rows, more):
    """rows of `more` that are not already in `rows`, after them"""
    seen = set(r[1:] for r in rows)
    return rows + [r for r in more if r[1:] not in seen]
