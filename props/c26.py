"""C26 result files are found again and never confused"""
import initialComputations as iC
import embedding as emb
import postProcessing as pP
import davidson as dav
import scipy.sparse as sp
from common import *
from harness import Unit, Bool, Choice, Seq, Int

PLACE = ('initialComputations', 'initialComputations/Peripheral_embedding', 'initialComputations/Embedding_blocks')
SIX = ('bt', 'bz', 'bij', 'bSD', 'btN', 'bV')


def fake_solver(A, nb_val, initial_guess=None, stp=100, tol=1e-3, dim_max=0, verbose=False):
    n = A.shape[0]
    k = min(n, nb_val)
    v = np.zeros((n, k))
    for i in range(k):
        v[i, i] = 1
    return dav.Eigenstates([float(i) for i in range(k)], [], v)


def nothing(*a):
    return None


def bools(s):
    return iC.BoolInteractions(s[0], s[1], s[2], s[3], s[4], s[5], False, False)


def computed(conf, s, mark):
    n = conf.nb_conf
    data = iC.Data(conf, interactions(J=mark, VNN=2), dav.Diagonalization(1, 10, 0.5, 0), bools(s))
    dets = bC.construct_basis(conf).determinants
    return iC.DataComputations(data, dets, sp.csr_matrix(np.eye(n)), dav.Eigenstates([1.0], [], np.ones((n, 1))),
                               iC.Times(0.0, 0.0, 0.0))


def steps(s, dyn, neigh, neel, kind, nbh, nbv, side, nholes, nbeta):
    """computation, embedding in the ring, embedding in blocks, plots: each step reads the file of the previous one"""
    workdir(*PLACE)
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta)
    comp = computed(conf, s, 3)
    data = comp.data
    iC.save_data(comp)
    reads()
    emb.embedding_neel(data, 0.5, 2, 1)
    check(nfiles() == 2, 'one file of the ring embedding')
    first = reads()
    check(len(first) == 1, 'ring embedding reads one file')
    check(saved_switches('initialComputations/', first[0]) == s, 'ring embedding reads other switches')
    emb.embedding_blocks(data, 4.0, 2, dyn, neel, neigh)
    check(nfiles() == 3, 'one file of the block embedding')
    second = [f for f in reads() if f != first[0]]
    check(len(second) == (1 if neel else 0), 'files read by the block embedding')
    for f in second:
        check(f == 'initialComputations/Peripheral_embedding' + first[0][len('initialComputations'):], 'ring result read')
    pP.generate_plots_configuration(data, pP.InputPlotting(1, 1, bool_neel_embedding=neel, bool_static_embedding=not dyn,
                                                           bool_dynamic_embedding=dyn, bool_neighbor_embedding=neigh))
    third = reads()
    check(len(third) == 2, 'plots read the computation and its embedding')
    check(third[0] == first[0], 'plots read another computation')
    check(third[1].startswith('initialComputations/Embedding_blocks/'), 'plots read another embedding')
    check(nfiles() == 3, 'plots write files')
    return False


def saved_switches(folder, path):
    y = iC.load_data(path[len(folder):])
    reads()
    b = y.data.bool_interactions
    return [b.bt, b.bz, b.bij, b.bSD, b.btN, b.bV]


def separate(s, r, how):
    """two computations of one lattice differing in the switches"""
    assume(s != r)
    # the name of the file does not tell bz: known finding, shown by the units 'static switch'
    assume([s[0]] + s[2:] != [r[0]] + r[2:] or False not in s or False not in r)
    return two_saves(s, r, how)


def two_saves(s, r, how):
    workdir(*PLACE)
    conf, pos, nb = lattice('periodic', 2, 1, 1, 0, 1)
    x, y = computed(conf, s, 3), computed(conf, r, 5)
    save(x, how)
    check(nfiles() == 1, 'first file')
    save(y, how)
    check(nfiles() == 2, 'two computations share a file')
    save(x, how)
    check(nfiles() == 2, 'another file for the same computation')
    return False


def save(comp, how):
    if how == 'data':
        iC.save_data(comp)
    elif how == 'ring':
        emb.save_data_peripheral_embedding(comp)
    else:
        emb.save_data_embedding_blocks(comp, how[0], how[1], how[2])


def sorts(s, a, b):
    """the embeddings of one computation are told apart"""
    workdir(*PLACE)
    conf, pos, nb = lattice('periodic', 2, 1, 1, 0, 1)
    assume(a != b)
    x = computed(conf, s, 3)
    save(x, a)
    save(x, b)
    save(x, 'data')
    save(x, 'ring')
    check(nfiles() == 4, 'two embeddings share a file')
    return False


def small(n, holes, downs):
    return bC.Configuration(np.zeros((n, n)), holes, downs, [], 'periodic', n, 1, 1)


def brief(conf):
    data = iC.Data(conf, interactions(J=1), dav.Diagonalization(1, 10, 0.5, 0), bools([True] * 6))
    return iC.DataComputations(data, [], sp.csr_matrix(np.eye(1)), dav.Eigenstates([1.0], [], np.ones((1, 1))),
                               iC.Times(0.0, 0.0, 0.0))


def particles(h1, b1, h2, b2, n1, n2, how):
    assume(h1 + b1 <= n1 and h2 + b2 <= n2 and (n1 != n2 or h1 != h2 or b1 != b2))
    if n1 == n2:
        # known finding, shown by the units 'ambiguous numbers'
        pair = sorted([(n1, n1 - h1 - b1, b1), (n2, n2 - h2 - b2, b2)])
        assume(pair not in ([(11, 1, 10), (11, 11, 0)], [(12, 1, 10), (12, 11, 0)], [(12, 1, 11), (12, 11, 1)]))
    workdir(*PLACE)
    save(brief(small(n1, h1, b1)), how)
    save(brief(small(n2, h2, b2)), how)
    check(nfiles() == 2, 'two particle numbers share a file')
    return False


def ambiguous(p, q):
    workdir(*PLACE)
    for n, up, down in (p, q):
        iC.save_data(brief(small(n, n - up - down, down)))
    check(nfiles() == 2, 'two particle numbers share a file')
    return False


HISTORY = 2     # history units per function


def units():
    out = []
    stub = {'davidson:modified_davidson_algorithm': fake_solver, 'postProcessing:plot_embedding_effect_on_determinants': nothing}
    six = Seq(*[Bool()] * 6)
    for tier, kind, nbh, nbv, side, nh, nb in [
            ('quick', 'periodic', 1, 1, 1, 0, 0), ('quick', 'periodic', 1, 1, 2, 0, 2), ('thorough', 'periodic', 1, 1, 2, 1, 1)]:
        for neel in (False, True):
            for dyn in (False, True):
                out.append(Unit('steps %d sites %d holes %d down neel %d dynamic %d' % (nbh * nbv * side ** 2, nh, nb, neel, dyn), steps,
                                dict(s=six, neigh=Bool()),
                                dict(kind=kind, nbh=nbh, nbv=nbv, side=side, nholes=nh, nbeta=nb, neel=neel, dyn=dyn), stubs=stub,
                                tier=tier, bounds='every switch setting'))
    for how in ('data', 'ring', (False, False, False), (True, False, True)):
        out.append(Unit('separate %s' % (how,), separate, dict(s=six, r=six), dict(how=how), bounds='every pair of switch settings'))
    for dy in (False, True):
        out.append(Unit('sorts %d' % dy, sorts, dict(s=six, a=Seq(Bool(), Bool(), Bool(), tup=True),
                                                     b=Seq(dy, Bool(), Bool(), tup=True)),
                        bounds='every switch setting and pair of embeddings'))
    on, off = [True, True, True, False, False, False], [True, False, True, False, False, False]
    out.append(Unit('static switch', two_saves, {}, dict(s=on, r=off, how='data'), bounds='one pair'))
    out.append(Unit('static switch ring', two_saves, {}, dict(s=on, r=off, how='ring'), bounds='one pair'))
    out.append(Unit('static switch blocks', two_saves, {}, dict(s=on, r=off, how=(False, False, False)), bounds='one pair'))
    for p, q in (((11, 1, 10), (11, 11, 0)), ((12, 1, 10), (12, 11, 0)), ((12, 1, 11), (12, 11, 1))):
        out.append(Unit('ambiguous numbers %s %s' % (p, q), ambiguous, {}, dict(p=p, q=q), bounds='one pair'))
    for n1 in range(1, 13):
        for n2 in range(n1, 13):
            for how in ('data', 'ring', (False, True, False)):
                out.append(Unit('particles %d %d sites %s' % (n1, n2, how), particles,
                                dict(h1=Int(0, n1), b1=Int(0, n1), h2=Int(0, n2), b2=Int(0, n2)),
                                dict(n1=n1, n2=n2, how=how), tier='quick' if how == 'data' and (n1 == n2 or n1 == 1 and n2 > 9) else 'thorough',
                                bounds='every pair of particle numbers'))
    return out
