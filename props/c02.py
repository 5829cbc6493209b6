"""C02 the constructed basis"""
from common import *
from harness import Unit, Det, Int, Choice


def complete_and_ordered(det, n, h, b):
    conf = bC.Configuration(np.zeros((n, n)), h, b)
    dim = choose(n, h) * choose(n - h, b)
    check(conf.nb_conf == dim, 'advertised dimension')
    check(conf.nalpha == n - h - b and conf.nsites == n, 'particle numbers')
    check(close(conf.spin_number, (n - h - 2 * b) / 2), 'spin projection')
    check(close(conf.doping * n, h), 'doping')
    basis = bC.construct_basis(conf)
    check(basis.configuration is conf, 'configuration of the basis')
    check(len(basis.determinants) == dim, 'number of determinants')
    r = rank(conf, occupation(conf, det))
    check(basis.determinants[r] == det, 'determinant missing, out of order or badly sorted')
    check(bC.get_index_in_basis(conf, basis.determinants[r]) == r, 'position differs from the number')
    return r


def every_position(k, n, h, b):
    conf = bC.Configuration(np.zeros((n, n)), h, b)
    basis = bC.construct_basis(conf)
    det = basis.determinants[k]
    check(len(det) == n, 'length of a determinant')
    check(sorted(det) == list(range(n)), 'every site exactly once')
    check(det == from_occ(occupation(conf, det)), 'groups sorted')
    check(rank(conf, occupation(conf, det)) == k, 'rank order')
    return det


def advertised(h, b, n):
    assume(h + b <= n)
    conf = bC.Configuration(np.zeros((n, n)), h, b)
    check(conf.nb_conf == choose(n, h) * choose(n - h, b), 'advertised dimension')
    check(conf.nalpha + b + h == n, 'number of spins up')
    check(close(conf.spin_number, (conf.nalpha - b) / 2), 'spin projection')
    check(close(conf.doping * n, h), 'doping')
    check(lF.compute_dimension(n, n - h - b, b) == conf.nb_conf, 'dimension')
    check(conf.get_id() == (h, b), 'identifier')
    return conf.nb_conf


def units():
    out = []
    for tier, n, h, b in [('quick', 1, 0, 1), ('quick', 2, 1, 1), ('quick', 3, 0, 0), ('quick', 4, 1, 1),
                          ('quick', 4, 4, 0), ('quick', 5, 2, 1), ('quick', 6, 1, 3), ('quick', 6, 2, 2),
                          ('quick', 7, 2, 0), ('quick', 9, 1, 1), ('quick', 9, 7, 1),
                          ('thorough', 8, 1, 3), ('thorough', 8, 2, 2), ('thorough', 9, 1, 2),
                          ('thorough', 7, 3, 2), ('thorough', 10, 0, 5), ('thorough', 12, 1, 1),
                          ('thorough', 9, 2, 2)]:
        lab = ' n=%d holes=%d down=%d' % (n, h, b)
        dim = choose(n, h) * choose(n - h, b)
        k = dict(n=n, h=h, b=b)
        bd = '%d sites, %d holes, %d down, every determinant' % (n, h, b)
        out.append(Unit('complete_and_ordered' + lab, complete_and_ordered, dict(det=Det(n, h, b)), k, bounds=bd,
                        tier=tier, native_never=('construct_basis',)))
        out.append(Unit('every_position' + lab, every_position, dict(k=Int(0, dim - 1)), k, bounds=bd, tier=tier,
                        native_never=('construct_basis',)))
    for tier, n in [('quick', 4), ('quick', 7), ('thorough', 9)]:
        out.append(Unit('advertised n=%d' % n, advertised, dict(h=Int(0, n), b=Int(0, n)), dict(n=n), tier=tier,
                        bounds='%d sites, every number of holes and downs' % n))
    return out
