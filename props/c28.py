"""C28 the static embedding dresses the diagonal with the mean field of the environment"""
import initialComputations as iC
import hamiltonianConstruction as hC
import embedding as emb
import davidson as dav
import scipy.sparse as sp
from common import *
from harness import Unit, Real, Vec, Bool, Seq

PLACE = ('initialComputations', 'initialComputations/Peripheral_embedding', 'initialComputations/Embedding_blocks')


def recorder(A, nb_val, initial_guess=None, stp=100, tol=1e-3, dim_max=0, verbose=False):
    """stands for the solver: the state is the list given as tolerance, the values show the matrix it was given"""
    n = A.shape[0]
    m = A.toarray()
    v = np.zeros((n, 1))
    for i in range(n):
        v[i, 0] = tol[i]
    vals = []
    for i in range(n):
        for j in range(n):
            vals.append(m[i, j])
    return dav.Eigenstates(vals, [], v)


def start(c, m, vects, out, s, nbh, nbv, side, nholes, nbeta):
    """a saved computation of the block with Hamiltonian m and ground state vects"""
    workdir(*PLACE)
    conf, pos, nb = lattice('periodic', nbh, nbv, side, nholes, nbeta)
    dets = bC.construct_basis(conf).determinants
    n = len(dets)
    data = iC.Data(conf, itr.Interactions(*c), dav.Diagonalization(1, 10, [out[i, 0] for i in range(n)], 0),
                   iC.BoolInteractions(s[0], s[1], s[2], s[3], s[4], s[5], True, False))
    iC.save_data(iC.DataComputations(data, dets, sp.csr_matrix(m), dav.Eigenstates([-1.0], [], vects),
                                     iC.Times(0.0, 0.0, 0.0)))
    return conf, pos, dets, data


def weights(vect, occs, site, s):
    w = 0
    for k in range(len(occs)):
        if occs[k][site] == s:
            w = w + vect[k, 0] * vect[k, 0]
    return w


def faces(pos, n, other):
    """(border site, facing site), (border site, site reached by a bent two-bond path) towards the environment"""
    place = {}
    for i in range(n, len(pos)):
        place[pos[i]] = i
    inside = [pos[i] for i in range(n)]
    near, diag = [], []
    for a in range(n):
        x, y = pos[a]
        for dx, dy in ((1, 0), (-1, 0), (0, 1), (0, -1)):
            if (x + dx, y + dy) in place:
                near.append((a, place[(x + dx, y + dy)]))
        for dx in (1, -1):
            for dy in (1, -1):
                if (x + dx, y + dy) in place and ((x + dx, y) in inside or (x + dx, y) in place or
                                                  (x, y + dy) in inside or (x, y + dy) in place):
                    diag.append((a, place[(x + dx, y + dy)]))
    return near, diag


def field(occ, near, diag, J, V, VD, up, down, hole, total):
    """total weight times the mean-field energy of one determinant"""
    e = 0
    for a, r in near:
        if occ[a] == 1:
            e = e - J / 2 * down[r]
        elif occ[a] == -1:
            e = e - J / 2 * up[r]
        else:
            e = e + V * hole[r]
    for a, r in diag:
        if occ[a] == 0:
            e = e + VD * hole[r]
    return e


def same_matrix(got, m, shift, w, n):
    for i in range(n):
        for j in range(n):
            if i == j:
                check(close(got[i * n + j] * w, m[i, j] * w + shift[i]), 'dressing of the diagonal')
            else:
                check(close(got[i * n + j], m[i, j]), 'off-diagonal element')


def stored(conf, s, m):
    """the saved block Hamiltonian is left alone"""
    base = iC.load_data(file_of(conf, s))
    h = base.hamiltonian.toarray()
    for i in range(conf.nb_conf):
        for j in range(conf.nb_conf):
            check(close(h[i, j], m[i, j]), 'stored Hamiltonian')


def file_of(conf, s):
    base = 'tJHam-%d%d%d' % (conf.nsites, conf.nalpha, conf.nbeta)
    if s[0] and s[1] and s[2] and s[3] and s[4] and s[5]:
        return base + 'Full.json'
    for on, w in ((s[3], 'SD'), (s[5], 'V'), (s[2], 'J'), (s[0], 't'), (s[4], 'tN')):
        if on:
            base = base + w
    return base + '.json'


def rounds(steps, tol, vects, out, n):
    """the iteration that ends the loop"""
    if tol < 0:
        return steps
    change = sum([(out[k, 0] - vects[k, 0]) * (out[k, 0] - vects[k, 0]) for k in range(n)])
    size = sum([vects[k, 0] * vects[k, 0] for k in range(n)])
    assume(nonzero(change - tol * tol * size))
    if steps == 1:
        assume(change < tol * tol * size)
    else:
        assume(change > tol * tol * size)
    return steps


def kept(name, conf, res):
    """the result has been saved, and can be read back"""
    again = iC.load_data(name)
    n = conf.nb_conf
    h, h2 = res.hamiltonian.toarray(), again.hamiltonian.toarray()
    for i in range(n):
        check(close(again.eigenstates.eigvects[i, 0], res.eigenstates.eigvects[i, 0]), 'saved state')
        for j in range(n):
            check(close(h2[i, j], h[i, j]), 'saved Hamiltonian')
    check(len(again.eigenstates.eigvals) == len(res.eigenstates.eigvals), 'saved energies')
    for x, y in zip(again.eigenstates.eigvals, res.eigenstates.eigvals):
        check(close(x, y), 'saved energies')


def ring(c, m, vects, out, s, steps, tol, nbh, nbv, side, nholes, nbeta):
    conf, pos, dets, data = start(c, m, vects, out, s, nbh, nbv, side, nholes, nbeta)
    n = len(dets)
    W, H = nbh * side, nbv * side
    full = geometry('peripheral', W, H)
    sites = W * H
    occs = [occupation(conf, d) for d in dets]
    near, diag = faces(full, sites, None)
    up, down, hole = {}, {}, {}
    w = 1
    g = sum([vects[k, 0] * vects[k, 0] for k in range(n)])
    assume(nonzero(g))
    steps = rounds(steps, tol, vects, out, n)
    if steps > 1:
        w = sum([out[k, 0] * out[k, 0] for k in range(n)])
        assume(nonzero(w))
    for r in range(sites, len(full)):
        hole[r] = 0
        down[r] = 1 if (full[r][0] + full[r][1]) % 2 == 1 else 0
        up[r] = 1 - down[r]
    if steps > 1:
        for a, r in near:
            up[r] = weights(out, occs, a, -1)
            down[r] = weights(out, occs, a, 1)
            hole[r] = weights(out, occs, a, 0)
    res = emb.embedding_neel(data, tol, steps if tol < 0 else 3, 1)
    J, V, VD = data.interactions.J, data.interactions.VNN, data.interactions.VNNNper
    shift = [field(occs[k], near, diag, J, V, VD, up, down, hole, w) for k in range(n)]
    same_matrix(res.eigenstates.eigvals, m, shift, w, n)
    h = res.hamiltonian.toarray()
    for i in range(n):
        for j in range(n):
            check(close(h[i, j], m[i, j]), 'block Hamiltonian')
        check(close(res.eigenstates.eigvects[i, 0], out[i, 0]), 'state')
    stored(conf, s, m)
    kept('Peripheral_embedding/' + file_of(conf, s), conf, res)
    return False


def turned(occ, W, turns):
    """occupation after clockwise quarter turns of a W x W block"""
    for _ in range(turns):
        o = [0] * len(occ)
        for y in range(W):
            for x in range(W):
                o[(W - 1 - x) * W + y] = occ[y * W + x]
        occ = o
    return occ


def blocks(c, m, vects, out, s, steps, tol, neigh, rev, nbh, nbv, side, nholes, nbeta):
    conf, pos, dets, data = start(c, m, vects, out, s, nbh, nbv, side, nholes, nbeta)
    n = len(dets)
    W, H = nbh * side, nbv * side
    sites = W * H
    full = geometry('clusters', W, H)
    occs = [occupation(conf, d) for d in dets]
    near, diag = faces(full, sites, None)
    g = sum([vects[k, 0] * vects[k, 0] for k in range(n)])
    assume(nonzero(g))
    steps = rounds(steps, tol, vects, out, n)
    env = vects if steps == 1 else out
    w = sum([env[k, 0] * env[k, 0] for k in range(n)])
    assume(nonzero(w))
    f = -1 if rev else 1
    up, down, hole = {}, {}, {}
    for b in range(sites):
        up[sites + b] = weights(env, occs, b, f)
        down[sites + b] = weights(env, occs, b, -f)
        hole[sites + b] = weights(env, occs, b, 0)
    res = emb.embedding_blocks(data, tol, steps if tol < 0 else 3, False, False, neigh, reverse_spins=rev)
    J, V, VD = data.interactions.J, data.interactions.VNN, data.interactions.VNNNper
    one = [field(occs[k], near, diag, J, V, VD, up, down, hole, w) for k in range(n)]
    shift = [0] * n
    if neigh:
        shift = one
    else:
        for k in range(n):
            for turns in range(4):
                shift[occs.index(turned(occs[k], W, turns))] += one[k]
    same_matrix(res.eigenstates.eigvals, m, shift, w, n)
    h = res.hamiltonian.toarray()
    for i in range(n):
        for j in range(n):
            check(close(h[i, j], res.eigenstates.eigvals[i * n + j]), 'Hamiltonian of the result')
        check(close(res.eigenstates.eigvects[i, 0], out[i, 0]), 'state')
    stored(conf, s, m)
    kept('Embedding_blocks/tJHam' + ('-neigh' if neigh else '') + file_of(conf, s)[5:], conf, res)
    return False


ON = [True] * 6


HISTORY = 4     # history units per function


def units():
    out = []
    ten = Seq(*[Real()] * 10)
    rows = [('quick', 'periodic', 1, 1, 1, 0, 0, ''), ('quick', 'periodic', 2, 1, 1, 0, 1, ''),
            ('quick', 'periodic', 2, 1, 1, 1, 0, ''), ('quick', 'periodic', 1, 3, 1, 2, 0, ''),
            ('quick', 'periodic', 3, 1, 1, 1, 1, ''), ('quick', 'periodic', 1, 2, 1, 2, 0, ''),
            ('quick', 'periodic', 1, 1, 2, 2, 1, ''), ('quick', 'periodic', 2, 2, 1, 3, 0, ''),
            ('quick', 'periodic', 3, 2, 1, 5, 1, ''), ('quick', 'periodic', 2, 3, 1, 5, 0, '')]
    for tier, lab, k, n, nd, res in shapes(rows):
        k = dict(k, s=ON)
        del k['kind']
        ins = dict(c=ten, m=Vec(nd, nd), vects=Vec(nd, 1), out=Vec(nd, 1))
        for steps, tol in ((1, -1), (2, -1), (1, .5), (2, .5)):
            if tol > 0 and nd > 2:
                continue
            when = ' step %d' % steps + ' converged' * (tol > 0)
            b = 'every coupling, block Hamiltonian and state of %d determinants%s' % (nd, when)
            kw = dict(k, steps=steps, tol=tol)
            out.append(Unit('ring' + lab + when, ring, ins, kw, stubs=STUB, tier=tier, bounds=b))
            for neigh in (False, True):
                if not neigh and k['nbh'] != k['nbv']:
                    continue
                for rev in (False, True):
                    out.append(Unit('blocks' + lab + when + ' one neighbour' * neigh + ' reversed' * rev, blocks, ins,
                                    dict(kw, neigh=neigh, rev=rev), stubs=STUB, tier=tier, bounds=b))
    return out


STUB = {'davidson:modified_davidson_algorithm': recorder}
