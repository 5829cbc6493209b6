"""C25 saved computations are restored unchanged"""
import initialComputations as iC
import hamiltonianConstruction as hC
import embedding as emb
import davidson as dav
import scipy.sparse as sp
from common import *
from harness import Unit, Subset, Real, Vec, Bool, Choice, Seq, Int

PLACE = ('initialComputations', 'initialComputations/Peripheral_embedding', 'initialComputations/Embedding_blocks')


def close(a, b):
    return a == b             # a saved number is restored exactly


def same_configuration(c, d):
    check(d.lattice_type == c.lattice_type, 'lattice type')
    check((d.nbh, d.nbv, d.nblocs_side) == (c.nbh, c.nbv, c.nblocs_side), 'lattice size')
    check((d.nsites, d.nholes, d.nbeta, d.nalpha, d.nb_conf) == (c.nsites, c.nholes, c.nbeta, c.nalpha, c.nb_conf),
          'particle numbers')
    check(d.spin_number == c.spin_number and d.doping == c.doping, 'derived numbers')
    check(d.sites_restriction == c.sites_restriction, 'restriction of the sites')
    check(d.bond_matrix.shape == c.bond_matrix.shape, 'shape of the bond matrix')
    for i in range(c.nsites):
        for j in range(c.nsites):
            check(d.bond_matrix[i, j] == c.bond_matrix[i, j], 'bond matrix')


def same_data(x, y):
    """x: what was saved, y: what was loaded"""
    same_configuration(x.configuration, y.configuration)
    for name in COUPLINGS:
        check(close(getattr(y.interactions, name), getattr(x.interactions, name)), 'coupling ' + name)
    for name in ('nb_val', 'stp', 'dim_max', 'tol'):
        check(getattr(y.diagonalization, name) == getattr(x.diagonalization, name), 'solver parameter ' + name)
    for name in TERMS:
        check(getattr(y.bool_interactions, name) == getattr(x.bool_interactions, name), 'switch ' + name)
    check(y.bool_interactions.b_spin_multipicities == x.bool_interactions.b_spin_multipicities, 'spin switch')


def same_results(dets, ham, vals, spins, vects, y):
    n = len(dets)
    check(y.determinants == dets, 'determinants')
    check(y.hamiltonian.shape == (n, n), 'shape of the Hamiltonian')
    h = y.hamiltonian.toarray()
    for i in range(n):
        for j in range(n):
            check(close(h[i, j], ham[i, j]), 'Hamiltonian')
    check(len(y.eigenstates.eigvals) == len(vals), 'number of eigenvalues')
    for a, b in zip(y.eigenstates.eigvals, vals):
        check(close(a, b), 'eigenvalue')
    check(y.eigenstates.spins == spins, 'spin numbers')
    check(y.eigenstates.eigvects.shape == vects.shape, 'shape of the eigenvectors')
    for i in range(vects.shape[0]):
        for j in range(vects.shape[1]):
            check(close(y.eigenstates.eigvects[i, j], vects[i, j]), 'eigenvector')


def bools(s, emb_):
    return iC.BoolInteractions(s[0], s[1], s[2], s[3], s[4], s[5], emb_, s[6])


def saved(c, s, x, sv, spins, m, vects, vals, times, kind, nbh, nbv, side, nholes, nbeta, rest, given, plain=False):
    """a symbolic content written by save_data and read by load_data"""
    workdir(*PLACE)
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, rest)
    if plain:
        conf = bC.Configuration(conf.bond_matrix, nholes, nbeta, lattice_type=kind)
    n = conf.nb_conf
    dets = bC.construct_basis(conf).determinants
    keep = [d[:] for d in dets]
    ham = sp.csr_matrix(m)
    guess = np.ones((n, 1)) if given else None
    data = iC.Data(conf, itr.Interactions(*c), dav.Diagonalization(sv[0], sv[1], x, sv[2], guess), bools(s, False))
    comp = iC.DataComputations(data, dets, ham, dav.Eigenstates(vals, spins, vects), iC.Times(*times))
    iC.save_data(comp)
    name = file_of(conf, s)
    y = iC.load_data(name)
    same_data(data, y.data)
    same_results(keep, m, vals, spins, vects, y)
    check(close(y.times.tbasis, times[0]) and close(y.times.thamiltonian, times[1])
          and close(y.times.teigenstates, times[2]), 'computation times')
    iC.save_data(y)                                  # a second round
    z = iC.load_data(name)
    same_data(data, z.data)
    same_results(keep, m, vals, spins, vects, z)
    check(nfiles() == 1, 'number of files')
    return False


def file_of(conf, s):
    """documented name: sites, ups, downs and the initials of the terms"""
    base = 'tJHam-%d%d%d' % (conf.nsites, conf.nalpha, conf.nbeta)
    if s[0] and s[1] and s[2] and s[3] and s[4] and s[5]:
        return base + 'Full.json'
    for on, w in ((s[3], 'SD'), (s[5], 'V'), (s[2], 'J'), (s[0], 't'), (s[4], 'tN')):
        if on:
            base = base + w
    return base + '.json'


def dressed(c, s, m, vects, vals, dyn, neel, neigh, given, kind, nbh, nbv, side, nholes, nbeta, rest):
    """results of the embeddings: written by the embedding module and read by load_data"""
    workdir(*PLACE)
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, rest)
    n = conf.nb_conf
    dets = bC.construct_basis(conf).determinants
    data = iC.Data(conf, itr.Interactions(*c), dav.Diagonalization(2, 10, 0.5, 0, np.ones((n, 1)) if given else None), bools(s, False))
    comp = iC.DataComputations(data, dets, sp.csr_matrix(m), dav.Eigenstates(vals, [], vects))
    if dyn is None:
        emb.save_data_peripheral_embedding(comp)
        name = 'Peripheral_embedding/' + file_of(conf, s)
    else:
        emb.save_data_embedding_blocks(comp, dyn, neel, neigh)
        name = 'tJHam' + ('-dyn' if dyn else '') + ('-neel' if neel else '') + ('-neigh' if neigh else '')
        name = 'Embedding_blocks/' + name + file_of(conf, s)[5:]
    y = iC.load_data(name)
    same_data(data, y.data)
    same_results(dets, m, vals, [], vects, y)
    return False


def first_run(dyn):
    """the folder of the results does not exist yet"""
    workdir('initialComputations')
    conf, pos, nb = lattice('periodic', 1, 2, 1, 0, 1)
    data = iC.Data(conf, interactions(J=2), dav.Diagonalization(2, 10, 0.5, 0), switches(bz=True, bij=True))
    comp = iC.DataComputations(data, [[0, 1], [1, 0]], sp.csr_matrix(np.array([[1.0, 2.0], [2.0, 3.0]])),
                               dav.Eigenstates([1.0], [], np.array([[1.0], [0.0]])))
    for _ in range(2):
        if dyn is None:
            emb.save_data_peripheral_embedding(comp)
        else:
            emb.save_data_embedding_blocks(comp, dyn, False, False)
        y = iC.load_data('Peripheral_embedding/tJHam-211J.json' if dyn is None else
                         'Embedding_blocks/tJHam-dyn-211J.json' if dyn else 'Embedding_blocks/tJHam-211J.json')
        same_data(data, y.data)
    return False


def fake_solver(A, nb_val, initial_guess=None, stp=100, tol=1e-3, dim_max=0, verbose=False):
    n = A.shape[0]
    k = min(n, nb_val)
    v = np.zeros((n, k))
    for i in range(k):
        v[i, i] = 1
    return dav.Eigenstates([float(i) for i in range(k)], [], v)


def campaign(c, s, kind, nbh, nbv, side, nholes, rest):
    """every spin projection computed, saved and loaded back"""
    workdir(*PLACE)
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, 0, rest)
    n = conf.nsites
    data = iC.Data(conf, itr.Interactions(*c), dav.Diagonalization(2, 10, 0.5, 0), bools(s, False))
    iC.perform_configurations_computations(data)
    check(nfiles() == n - nholes + 1, 'one file per spin projection')
    for na in range(n - nholes + 1):
        want, pos, nb = lattice(kind, nbh, nbv, side, nholes, n - nholes - na, rest)
        y = iC.load_data(file_of(want, s))
        same_configuration(want, y.data.configuration)
        basis = bC.construct_basis(want)
        h = hC.build_hamiltonian(want, itr.Interactions(*c), basis, data.bool_interactions).toarray()
        check(y.determinants == basis.determinants, 'determinants')
        got = y.hamiltonian.toarray()
        for i in range(want.nb_conf):
            for j in range(want.nb_conf):
                check(close(got[i, j], h[i, j]), 'Hamiltonian')
        for name in COUPLINGS:
            check(close(getattr(y.data.interactions, name), getattr(data.interactions, name)), 'coupling ' + name)
        check(len(y.eigenstates.eigvals) == min(2, want.nb_conf), 'eigenvalues')
        check(len(y.eigenstates.spins) == (min(2, want.nb_conf) if s[6] else 0), 'one spin number per state')
    return False


def restored_switch(s, e):
    """the embedding switch of the terms is restored too"""
    workdir(*PLACE)
    conf, pos, nb = lattice('periodic', 1, 2, 1, 0, 1)
    data = iC.Data(conf, interactions(J=2), dav.Diagonalization(2, 10, 0.5, 0), bools(s, e))
    comp = iC.DataComputations(data, [[0, 1], [1, 0]], sp.csr_matrix(np.array([[1.0, 2.0], [2.0, 3.0]])),
                               dav.Eigenstates([1.0], [], np.array([[1.0], [0.0]])), iC.Times(0.0, 0.0, 0.0))
    iC.save_data(comp)
    y = iC.load_data(file_of(conf, s))
    check(y.data.bool_interactions.bV_embedding == e, 'embedding switch')
    return False


ON = [True] * 7


def units():
    out = []
    seven = Seq(*[Bool()] * 7)
    ten = Seq(*[Real()] * 10)
    rows = [('quick', 'periodic', 1, 3, 1, 1, 1, None), ('quick', 'clusters', 1, 2, 1, 0, 2, None),
            ('quick', 'peripheral', 1, 1, 1, 4, 0, None), ('quick', 'periodic', 2, 1, 2, 7, 1, None),
            ('quick', 'clusters', 1, 1, 2, 8, 0, ([0, 1], [4, 5, 6])), ('quick', 'periodic', 3, 1, 1, 1, 0, [0, 2]),
            ('thorough', 'peripheral', 2, 1, 1, 1, 0, None), ('thorough', 'clusters', 1, 2, 1, 1, 1, ([2], [1, 0]))]
    for tier, lab, k, n, nd, rest in shapes(rows):
        real = dict(c=ten, x=Real(), m=Vec(nd, nd), vects=Vec(nd, min(nd, 2)), vals=Seq(*[Real()] * min(nd, 2)),
                    times=Seq(Real(), Real(), Real()))
        for given in (False, True):
            out.append(Unit('content' + lab + (' guess' if given else ''), saved, real,
                            dict(k, rest=rest, s=ON, sv=[2, 100, 0], spins=[0.5, '-'], given=given),
                            tier=tier, bounds='every coupling, matrix, eigenvalue, vector, tolerance, time; %d determinants' % nd))
    rows = [('quick', 'periodic', 1, 3, 1, 1, 1, None), ('quick', 'clusters', 1, 2, 1, 0, 2, None),
            ('quick', 'peripheral', 1, 1, 1, 4, 0, None)]
    for tier, lab, k, n, nd, rest in shapes(rows):     # a lattice given by its bond matrix alone
        real = dict(c=ten, x=Real(), m=Vec(nd, nd), vects=Vec(nd, min(nd, 2)), vals=Seq(*[Real()] * min(nd, 2)),
                    times=Seq(Real(), Real(), Real()))
        out.append(Unit('bonds only' + lab, saved, real,
                        dict(k, rest=rest, s=ON, sv=[2, 100, 0], spins=[0.5, '-'], given=False, plain=True),
                        tier=tier, bounds='every coupling, matrix, eigenvalue, vector, tolerance, time; %d determinants' % nd))
    rows = [('quick', 'periodic', 1, 2, 1, 0, 1, None), ('quick', 'clusters', 1, 1, 1, 1, 1, None)]
    for tier, lab, k, n, nd, rest in shapes(rows):
        fixed = dict(k, rest=rest, c=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10.5], x=0.125, m=np.array([[1.0, 2.0], [2.0, -3.0]]),
                     vects=np.array([[0.5], [1.0]]), vals=[0.25], times=[1.0, 2.0, 3.0], given=False)
        out.append(Unit('switches' + lab, saved, dict(s=seven, sv=Seq(Int(0, 3), Int(1, 4), Int(0, 2)),
                                                     spins=Seq(Choice(0.0, 0.5, 1.0, '-'))), fixed, tier=tier,
                        bounds='every switch setting, solver sizes, spin numbers'))
    fixed = dict(s=[True, False, True, False, True, False, True], x=0.125, c=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10.5],
                 sv=[1, 10, 0], spins=[0.0], times=[0.0, 1.0, 2.0], given=False)
    for tier, kind, nbh, nbv, side, nh, nb, n, nd in [
            ('quick', 'periodic', 3, 1, 1, 1, 1, 3, 6), ('quick', 'clusters', 1, 2, 1, 3, 1, 4, 4),
            ('quick', 'peripheral', 1, 1, 1, 4, 1, 5, 5)]:
        k = dict(kind=kind, nbh=nbh, nbv=nbv, side=side, nholes=nh, nbeta=nb)
        k.update(fixed, m=np.eye(nd), vects=np.ones((nd, 1)), vals=[1.0])
        out.append(Unit('list restriction %s %d' % (kind, n), saved, dict(rest=Subset(n)), dict(k), tier=tier,
                        bounds='every list of allowed sites of %d' % n))
        out.append(Unit('pair restriction %s %d' % (kind, n), pair_saved, dict(a=Subset(n), b=Subset(n)), dict(k), tier=tier,
                        bounds='every pair of lists of allowed sites of %d' % n))
    real = dict(c=ten, m=Vec(2, 2), vects=Vec(2, 1), vals=Seq(Real()))
    for given in (False, True):
        k = dict(kind='periodic', nbh=2, nbv=1, side=1, nholes=0, nbeta=1, rest=None, given=given)
        out.append(Unit('ring embedding' + ' guess' * given, dressed, real, dict(k, s=ON, dyn=None, neel=False, neigh=False),
                        bounds='every coupling, matrix, eigenvalue and vector'))
        for d, n_, g in ((False, False, False), (True, True, True), (True, False, True), (False, True, False)):
            out.append(Unit('block embedding %d%d%d' % (d, n_, g) + ' guess' * given, dressed, real,
                            dict(k, s=ON, dyn=d, neel=n_, neigh=g), bounds='every coupling, matrix, eigenvalue and vector'))
    k.update(given=False, c=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10.5], m=np.array([[1.0, 2.0], [2.0, -3.0]]),
             vects=np.array([[0.5], [1.0]]), vals=[0.25])
    out.append(Unit('ring embedding switches', dressed, dict(s=seven), dict(k, dyn=None, neel=False, neigh=False),
                    bounds='every switch setting'))
    out.append(Unit('block embedding switches', dressed, dict(s=seven, dyn=Bool(), neel=Bool(), neigh=Bool()), k,
                    bounds='every switch setting'))
    for d in (None, False, True):
        out.append(Unit('folder is created %s' % d, first_run, {}, dict(dyn=d), bounds='first save'))
    out.append(Unit('embedding switch', restored_switch, dict(s=seven, e=Bool()), bounds='every switch setting'))
    stub = {'davidson:modified_davidson_algorithm': fake_solver}
    for tier, kind, nbh, nbv, side, nh, rest, s in [
            ('quick', 'periodic', 1, 3, 1, 1, None, ON), ('quick', 'clusters', 1, 1, 1, 0, None, ON),
            ('quick', 'clusters', 1, 2, 1, 3, ([0, 1], [2, 3]), [True, True, True, False, True, True, False]),
            ('quick', 'peripheral', 1, 1, 1, 4, [0, 1, 2], ON),
            ('thorough', 'clusters', 1, 2, 1, 1, None, ON)]:
        out.append(Unit('campaign %s %dx%d side %d %d holes %s' % (kind, nbh, nbv, side, nh, rest), campaign, dict(c=ten),
                        dict(kind=kind, nbh=nbh, nbv=nbv, side=side, nholes=nh, rest=rest, s=s), stubs=stub, tier=tier,
                        bounds='every coupling, every spin projection'))
    return out


def pair_saved(a, b, **k):
    return saved(rest=(a, b), **k)
