"""C03 lattice adjacency matrices"""
from common import *
from harness import Unit, Int


def ring_pos(W, H):
    return geometry('peripheral', W, H)[W * H:]


def rectangular(i, j, nbh, nbv, side):
    W, H = nbh * side, nbv * side
    m = lF.build_rectangular_bond_matrix(nbh, nbv, side)
    compare(m, i, j, geometry('periodic', W, H))


def ring(i, j, nbh, nbv, side):
    W, H = nbh * side, nbv * side
    m = lF.build_bond_matrix_neel_outer_lattice(nbh, nbv, side)
    compare(m, i, j, ring_pos(W, H))


def block_and_ring(i, j, nbh, nbv, side):
    W, H = nbh * side, nbv * side
    m = lF.build_bond_matrix_neel_embedding(nbh, nbv, side)
    compare(m, i, j, geometry('peripheral', W, H))


def two_blocks(i, j, nbh, nbv, side):
    W, H = nbh * side, nbv * side
    m = lF.build_bond_matrix_block_embedding(nbh, nbv, side)
    compare(m, i, j, geometry('clusters', W, H))


def compare(m, i, j, pos):
    n = len(pos)
    check(m.shape == (n, n), 'size of the matrix')
    d = abs(pos[i][0] - pos[j][0]) + abs(pos[i][1] - pos[j][1])
    check(m[i, j] == (1 if d == 1 else 0), 'bond between sites')


FUNCS = ('build_rectangular_bond_matrix', 'build_bond_matrix_neel_outer_lattice', 'build_bond_matrix_neel_embedding',
         'build_bond_matrix_block_embedding', 'build_J_matrix', 'build_T_matrix', 'build_U_matrix')


def units():
    out = []
    quick = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (3, 1, 1), (1, 3, 1), (2, 3, 1), (3, 2, 1), (2, 1, 2),
             (1, 2, 2), (1, 1, 3), (4, 2, 1)]
    deep = [(a, b, c) for c in (1, 2, 3) for a in range(1, 7) for b in range(1, 7) if a * b * c * c <= 40]
    for f, count in [(rectangular, lambda w, h: w * h), (ring, lambda w, h: 2 * (w + h)),
                     (block_and_ring, lambda w, h: w * h + 2 * (w + h)), (two_blocks, lambda w, h: 2 * w * h)]:
        for nbh, nbv, side in deep:
            n = count(nbh * side, nbv * side)
            out.append(Unit('%s %dx%d side %d' % (f.__name__, nbh, nbv, side), f,
                            dict(i=Int(0, n - 1), j=Int(0, n - 1)), dict(nbh=nbh, nbv=nbv, side=side), retval=False,
                            tier='quick' if (nbh, nbv, side) in quick else 'thorough', native_never=FUNCS,
                            bounds='%d x %d blocks of side %d, every pair of sites' % (nbh, nbv, side)))
    return out
