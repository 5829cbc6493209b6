"""C32 the figures show the saved results"""
import initialComputations as iC
import davidson as dav
import embedding as emb
import postProcessing as pP
import scipy.sparse as sp
from common import *
from harness import Unit, Real, Vec, Bool, Choice, Seq, Int

DRAWN = []           # what the plotting library was asked to draw: (kind, panel, arguments)
SURFACES = []        # the surfaces given to the interpolation
FIGURES = []         # the panels of each figure
FOLDERS = ('Spectrum', 'HolePresenceProbability', 'SpinDistribution', 'DeterminantsAmplitude', 'AmplitudesStaticEmbeddingNeel')


class Panel:
    def __init__(self, number):
        self.number = number

    def plot(self, x, y, *form, **options):
        DRAWN.append(('line', self.number, x, y))

    def pcolormesh(self, x, y, z, **options):
        DRAWN.append(('map', self.number, x, y, z))
        return self

    def scatter(self, x, y, *form, **options):
        DRAWN.append(('points', self.number, x, y))

    def bar(self, x, height, *form, **options):
        DRAWN.append(('bars', self.number, x, height, options['label']))

    def set_title(self, text, **options):
        DRAWN.append(('title', self.number, text))

    def look(self, *args, **options):
        """nothing that shows results"""
        return None

    set_xlabel = set_ylabel = legend = set_xticks = set_yticks = set_xlim = set_ylim = set_xticklabels = set_yticklabels = look
    set_aspect = set_axis_off = axis = grid = tick_params = margins = invert_yaxis = set = look


class Grid:
    """two-dimensional array of panels"""
    def __init__(self, rows):
        self.rows = rows

        self.shape = (len(rows), len(rows[0]))
        self.size = len(rows) * len(rows[0])
        self.flat = [panel for row in rows for panel in row]

    def __getitem__(self, place):
        return self.rows[place[0]][place[1]] if isinstance(place, tuple) else self.rows[place]

    def __len__(self):
        return len(self.rows)

    def __iter__(self):
        return iter(self.rows)

    def ravel(self):
        return self.flat

    def flatten(self):
        return self.flat

    def reshape(self, *shape):
        return self.flat


class Surface:
    def __init__(self, x, y, z):
        self.x, self.y, self.z = x, y, z
        SURFACES.append(self)

    def __call__(self, x, y):
        return self


class Figure:
    def suptitle(self, *args, **options):
        return None

    colorbar = tight_layout = subplots_adjust = set_size_inches = legend = suptitle

    def subplots(self, *args, **options):
        return subplots(*args, **options)[1]

    def savefig(self, path, **options):
        DRAWN.append(('file', path))


def figure(*args, **options):
    return Figure()


def subplots(nrows=1, ncols=1, squeeze=True, **options):
    """as matplotlib: a bare panel, a list or a two-dimensional array"""
    rows = [[Panel(r * ncols + c) for c in range(ncols)] for r in range(nrows)]
    FIGURES.append((nrows, ncols))
    if not squeeze:
        return Figure(), Grid(rows)
    if nrows == 1 and ncols == 1:
        return Figure(), rows[0][0]
    if ncols == 1:
        return Figure(), [row[0] for row in rows]
    if nrows == 1:
        return Figure(), rows[0]
    return Figure(), Grid(rows)


def plot(x, y, *form, **options):
    DRAWN.append(('line', 0, x, y))


def savefig(path, **options):
    DRAWN.append(('file', path))


def nothing(*args, **options):
    pass


STUBS = {'matplotlib.pyplot:figure': figure, 'matplotlib.pyplot:subplots': subplots, 'matplotlib.pyplot:plot': plot,
         'matplotlib.pyplot:savefig': savefig, 'matplotlib.pyplot:close': nothing, 'matplotlib.pyplot:ylabel': nothing,
         'matplotlib.pyplot:tight_layout': nothing, 'matplotlib.pyplot:xlabel': nothing, 'matplotlib.pyplot:title': nothing,
         'matplotlib.pyplot:suptitle': nothing, 'matplotlib.pyplot:legend': nothing, 'matplotlib.pyplot:colorbar': nothing,
         'matplotlib.pyplot:clf': nothing, 'matplotlib.pyplot:cla': nothing, 'matplotlib.pyplot:xlim': nothing,
         'matplotlib.pyplot:ylim': nothing, 'matplotlib.pyplot:xticks': nothing, 'matplotlib.pyplot:yticks': nothing,
         'scipy.interpolate:interp2d': Surface}


def fresh():
    DRAWN.clear()
    SURFACES.clear()
    FIGURES.clear()


def drawn(kind):
    return [d for d in DRAWN if d[0] == kind]


def computed(conf, vals, vects, s=(True, True, True, True, True, True), e=False):
    data = iC.Data(conf, interactions(J=1), dav.Diagonalization(1, 10, 0.5, 0),
                   iC.BoolInteractions(s[0], s[1], s[2], s[3], s[4], s[5], e, False))
    n = conf.nb_conf
    return iC.DataComputations(data, bC.construct_basis(conf).determinants, sp.csr_matrix(np.eye(n)),
                               dav.Eigenstates(vals, [], vects), iC.Times(0.0, 0.0, 0.0))


def saved_once(folder, conf, extension='.png'):
    files = [d[1] for d in drawn('file') if d[1].endswith(extension)]
    check(len(files) == 1, 'one file')
    check(('/%s/' % folder) in files[0] and ('tJ-H%d/' % conf.nsites) in files[0], 'folder of the figure')
    last = files[0].split('/')[-1]
    check(last.startswith('tJ-H%d%d%d' % (conf.nsites, conf.nalpha, conf.nbeta)), 'name of the figure')
    return last


def spectrum(vals, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta)
    before = vals[:]
    fresh()
    pP.save_spectrum(computed(conf, vals, np.ones((conf.nb_conf, 1))))
    check(vals == before, 'stored energies changed')
    lines = drawn('line')
    check(len(lines) == len(vals), 'one level per stored energy')
    for v in vals:
        x = sorted([d[2][0] for d in lines if d[3][0] == v])
        check(len(x) == len([w for w in vals if w == v]), 'as many levels as stored energies')
        check(x == [k + 1 for k in range(len(x))], 'equal energies side by side')
    for d in lines:
        check(d[3][0] == d[3][1], 'a level is horizontal')
        check(d[2][1] == d[2][0] + 0.5, 'a level is half a unit long')
        check(d[3][0] in vals, 'a level that is not stored')
    saved_once('Spectrum', conf)
    return False


def weights(vect, k, occs, site, spin):
    w = 0
    for i in range(len(occs)):
        if occs[i][site] == spin:
            w = w + vect[i, k] * vect[i, k]
    return w


def norm(vect, k):
    w = 0
    for i in range(vect.shape[0]):
        w = w + vect[i, k] * vect[i, k]
    return w


def surface(f, vect, k, occs, pos, W, H, signs):
    """the surface f shows the sum of sign * probability of the spin"""
    check(list(f.x) == [i for i in range(W)] and list(f.y) == [i for i in range(H)], 'sites of the surface')
    check(len(f.z) == H, 'rows of the surface')
    w = norm(vect, k)
    for y in range(H):
        check(len(f.z[y]) == W, 'columns of the surface')
    for site in range(len(pos)):
        x, y = pos[site]
        total = 0
        for spin in signs:
            total = total + signs[spin] * weights(vect, k, occs, site, spin)
        check(close(f.z[H - 1 - y][x] * w, total), 'the surface differs from the probabilities')


def sites(d, W, H):
    got = sorted([(d[2][i], d[3][i]) for i in range(len(d[2]))])
    check(got == sorted([(x, y) for x in range(W) for y in range(H)]), 'marked sites')


def holes(vect, wanted, s, e, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta)
    W, H = nbh * side, nbv * side
    have = vect.shape[1]
    for k in range(have):
        assume(nonzero(norm(vect, k)))
    comp = computed(conf, [float(k) for k in range(have)], vect, s, e)
    occs = [occupation(conf, d) for d in comp.determinants]
    fresh()
    pP.save_hole_probability_lattice(comp, wanted)
    rows = 1
    while (rows + 1) ** 2 <= wanted:
        rows = rows + 1
    shown = min(rows ** 2, have)
    check(FIGURES == [(rows, rows)], 'panels of the figure')
    maps = drawn('map')
    check(len(maps) == shown, 'one panel per state')
    for k in range(shown):
        check(maps[k][1] == k, 'panel of the state')
        surface(maps[k][4], vect, k, occs, pos, W, H, {0: 1})
        sites(drawn('points')[k], W, H)
        check(drawn('points')[k][1] == k and drawn('title')[k][1] == k, 'panel of the marks')
        check(str(k) in drawn('title')[k][2], 'title of the panel')
    last = saved_once('HolePresenceProbability', conf)
    text = last[len('tJ-H%d%d%d' % (conf.nsites, conf.nalpha, conf.nbeta)):-4]
    if False not in s and e:
        check(text == 'Full', 'complete model in the name')
    else:
        for name, on in (('SD', s[3]), ('tN', s[4]), ('V', s[5]), ('J', s[2]), ('emb', e)):
            check((name in text) == on, 'switch in the name')
        check(('t' in text.replace('tN', '')) == s[0], 'switch in the name')
    return False


def spins(vect, state, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta)
    W, H = nbh * side, nbv * side
    have = vect.shape[1]
    for k in range(have):
        assume(nonzero(norm(vect, k)))
    comp = computed(conf, [float(k) for k in range(have)], vect)
    occs = [occupation(conf, d) for d in comp.determinants]
    fresh()
    pP.save_electron_probability_lattice(comp, state)
    maps = drawn('map')
    if state >= have:
        check(maps == [] and drawn('file') == [], 'a state that is not stored is not shown')
        return False
    check(len(maps) == 3, 'three maps')
    check([m[1] for m in maps] == [0, 1, 2], 'panels of the maps')
    for m, signs in zip(maps, ({1: 1}, {-1: 1}, {1: 1, -1: -1})):
        surface(m[4], vect, state, occs, pos, W, H, signs)
    for d in drawn('points'):
        sites(d, W, H)
    saved_once('SpinDistribution', conf)
    file = drawn('file')[0][1]
    check(('GroundState/' in file) == (state == 0), 'folder of the state')
    check(state == 0 or ('Excited%d/' % state) in file, 'folder of the state')
    return False


def bars(a, b, count, kind, nbh, nbv, side, nholes, nbeta):
    """the largest weights of the two ground states in decreasing order"""
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta)
    n = conf.nb_conf
    both = []
    for vect in (a, b):
        v = np.zeros((n, 2))
        for i in range(n):
            v[i, 0] = vect[i] if isinstance(vect, list) else vect[i, 0]
            v[i, 1] = i + 1
        both.append(computed(conf, [0.0, 1.0], v))
    fresh()
    pP.plot_embedding_effect_on_determinants(both[0], both[1], count)
    got = drawn('bars')
    check(len(got) == 2 and [d[4] for d in got] == ['cluster', 'embedding'], 'two series of bars')
    for d, vect in zip(got, (a, b)):
        want = sorted([c * c for c in (vect if isinstance(vect, list) else vect[:, 0].tolist())])
        want.reverse()
        check(list(d[2]) == [i for i in range(count)], 'places of the bars')
        check(len(d[3]) == count, 'number of bars')
        for i in range(count):
            check(close(d[3][i], want[i]), 'height of a bar')
    saved_once('AmplitudesStaticEmbeddingNeel', conf)
    saved_once('AmplitudesStaticEmbeddingNeel', conf, '.pdf')
    return False


def amplitudes(c, wanted, kind, nbh, nbv, side, nholes, nbeta):
    """number of coefficients at least as large as the abscissa"""
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta)
    n = conf.nb_conf
    v = np.zeros((n, len(c)))
    for k in range(len(c)):
        for i in range(n):
            v[i, k] = c[k][i]
    fresh()
    pP.plot_determinants_amplitude_repartition(computed(conf, [0.0] * len(c), v), wanted)
    rows = 1
    while (rows + 1) ** 2 <= wanted:
        rows = rows + 1
    lines = drawn('line')
    check(FIGURES == [(rows, rows)], 'panels of the figure')
    check(len(lines) == min(rows ** 2, len(c)), 'one panel per state')
    for k in range(len(lines)):
        check(lines[k][1] == k, 'panel of the state')
        x, y = lines[k][2], lines[k][3]
        check(len(x) == len(y), 'points of the curve')
        top = max([abs(z) for z in c[k]])
        check(x[0] < 1e-9 and x[len(x) - 1] > top - 2e-4, 'range of the curve')
        for i in range(len(x)):
            check(y[i] == len([z for z in c[k] if abs(z) >= x[i]]), 'number of coefficients')
    saved_once('DeterminantsAmplitude', conf)
    return False


def asked_spectrum(comp):
    DRAWN.append(('spectrum', comp.eigenstates.eigvals))


def asked_holes(comp, n):
    DRAWN.append(('holes', comp.eigenstates.eigvals, n))


def asked_electrons(comp, k):
    DRAWN.append(('electrons', comp.eigenstates.eigvals, k))


def asked_amplitudes(comp, n):
    DRAWN.append(('amplitudes', comp.eigenstates.eigvals, n))


def asked_effect(a, b, n):
    DRAWN.append(('effect', a.eigenstates.eigvals, b.eigenstates.eigvals, n))


ASKED = {'postProcessing:save_spectrum': asked_spectrum, 'postProcessing:save_hole_probability_lattice': asked_holes,
         'postProcessing:save_electron_probability_lattice': asked_electrons,
         'postProcessing:plot_determinants_amplitude_repartition': asked_amplitudes,
         'postProcessing:plot_embedding_effect_on_determinants': asked_effect}
PLACE = ('initialComputations', 'initialComputations/Peripheral_embedding', 'initialComputations/Embedding_blocks')


def solver(A, nb_val, initial_guess=None, stp=100, tol=1e-3, dim_max=0, verbose=False):
    """stands for the solver in the embeddings"""
    return dav.Eigenstates([2.0], [], np.ones((A.shape[0], 1)))


def selection(s, want, excited, plots, kind, nbh, nbv, side, nholes, nbeta):
    """the selected figures of the stored results of this configuration, and no others"""
    workdir(*PLACE)
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta)
    comp = computed(conf, [1.0], np.ones((conf.nb_conf, 1)), s)
    iC.save_data(comp)
    fresh()
    pP.generate_plots_configuration(comp.data, pP.InputPlotting(excited, plots, want[0], want[1], want[2], want[3]))
    check(DRAWN == chosen(conf, want, excited, plots), 'figures drawn')
    return False


def chosen(conf, want, excited, plots):
    expected = []
    if want[0]:
        expected.append(('spectrum', [1.0]))
    if want[1] and conf.nholes > 0:
        expected.append(('holes', [1.0], plots))
    if want[2] and conf.nalpha > 0 and conf.nbeta > 0:
        for k in range(excited):
            expected.append(('electrons', [1.0], k))
    if want[3]:
        expected.append(('amplitudes', [1.0], plots))
    return expected


def compared(want, marks, kind, nbh, nbv, side, nholes, nbeta):
    """with an embedding, its result is compared with the isolated cluster"""
    dyn, neel, neigh = marks
    workdir(*PLACE)
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta)
    comp = computed(conf, [1.0], np.ones((conf.nb_conf, 1)))
    iC.save_data(comp)
    emb.embedding_neel(comp.data, 0.5, 2, 1)
    emb.embedding_blocks(comp.data, 4.0, 2, dyn, neel, neigh)
    fresh()
    pP.generate_plots_configuration(comp.data, pP.InputPlotting(2, 1, want[0], False, want[1], False, neel, not dyn, dyn, neigh))
    first = chosen(conf, [want[0], False, want[1], False], 2, 1)
    check(DRAWN[:len(first)] == first, 'figures drawn')
    rest = DRAWN[len(first):]
    check(len(rest) == 1 + neel, 'comparisons drawn')
    for d in rest:
        check(d == ('effect', [1.0], [2.0], min(conf.nb_conf, 30)), 'what is compared')
    return False


def sequence(want, kind, nbh, nbv, side, nholes):
    """generate_plots: every spin projection once, from its own results"""
    workdir(*PLACE)
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, 0)
    expected = []
    for up in range(conf.nsites - nholes + 1):
        c = bC.Configuration(conf.bond_matrix, nholes, conf.nsites - nholes - up, nbh=nbh, nbv=nbv, nblocs_side=side)
        comp = computed(c, [float(up)], np.ones((c.nb_conf, 1)))
        iC.save_data(comp)
        if want:
            expected.append(('spectrum', [float(up)]))
    data = comp.data
    fresh()
    pP.generate_plots(data, pP.InputPlotting(1, 1, bool_spectrum=want))
    check(DRAWN == expected, 'one figure per spin projection')
    return False


HISTORY = 6     # history units per function


def units():
    out = []
    some = Choice(-1.5, -1.4999, 0.0, 0.25)
    for tier, m in [('quick', 1), ('quick', 2), ('quick', 3), ('quick', 5), ('thorough', 7)]:
        out.append(Unit('spectrum %d' % m, spectrum, dict(vals=Seq(*[some] * m)),
                        dict(kind='periodic', nbh=3, nbv=1, side=1, nholes=1, nbeta=1), stubs=STUBS, tier=tier,
                        bounds='every list of %d of four energies' % m))
    ON = (True,) * 6
    for tier, kind, nbh, nbv, side, nh, nb in [
            ('quick', 'periodic', 2, 2, 1, 3, 0), ('quick', 'periodic', 2, 2, 1, 3, 1), ('quick', 'periodic', 3, 2, 1, 5, 0),
            ('quick', 'periodic', 2, 3, 1, 5, 1), ('quick', 'periodic', 2, 2, 1, 0, 1), ('quick', 'periodic', 2, 2, 1, 2, 1),
            ('thorough', 'periodic', 1, 1, 2, 1, 1), ('thorough', 'periodic', 2, 1, 2, 7, 1), ('thorough', 'periodic', 2, 3, 1, 4, 1),
            ('thorough', 'periodic', 2, 2, 1, 0, 2)]:
        k = dict(kind=kind, nbh=nbh, nbv=nbv, side=side, nholes=nh, nbeta=nb)
        lab = ' %s %dx%d side %d %d holes %d downs' % (kind, nbh, nbv, side, nh, nb)
        d = ways(nbh * nbv * side ** 2, nh, nb)
        for have in (1, 2):
            for wanted in (1, 3, 4) if d < 8 else (3,):
                out.append(Unit('holes%s %d of %d' % (lab, wanted, have), holes, dict(vect=Vec(d, have)),
                                dict(k, wanted=wanted, s=ON, e=True), stubs=STUBS, tier=tier, bounds='every state'))
            for state in (0, 1):
                out.append(Unit('spins%s %d of %d' % (lab, state, have), spins, dict(vect=Vec(d, have)), dict(k, state=state),
                                stubs=STUBS, tier=tier, bounds='every state'))
    k = dict(kind='periodic', nbh=2, nbv=2, side=1, nholes=3, nbeta=0)
    out.append(Unit('holes name', holes, dict(s=Seq(*[Bool()] * 6), e=Bool()), dict(k, vect=np.array([[0.5], [1.0], [0.0], [-2.0]]), wanted=4),
                    stubs=STUBS, bounds='every switch setting'))
    small = Choice(-0.5, 0.0, 0.4999, 0.5)
    for tier, count in [('quick', 1), ('quick', 2), ('quick', 3)]:
        out.append(Unit('bars %d' % count, bars, dict(a=Seq(*[small] * 3), b=Seq(*[small] * 3)),
                        dict(kind='periodic', nbh=3, nbv=1, side=1, nholes=2, nbeta=0, count=count), stubs=STUBS, tier=tier,
                        bounds='every pair of states with four values of the coefficients'))
    for m, count in ((2, 1), (2, 2)):
        for k, known in enumerate(([1.0, -2.0], [0.5, 0.5])):
            for first in (False, True):
                x = dict(a=known, b=Vec(m, 1)) if first else dict(a=Vec(m, 1), b=known)
                out.append(Unit('bars of any state %d of %d %d%d' % (count, m, k, first), bars,
                                {n: x[n] for n in x if x[n] is not known}, dict({n: x[n] for n in x if x[n] is known},
                                kind='periodic', nbh=2, nbv=1, side=1, nholes=1, nbeta=0, count=count), stubs=STUBS,
                                bounds='every state of two determinants'))
    tiny = Choice(-7e-4, -3.5e-4, 0.0, 3.5e-4)
    top = [Seq(tiny, 7e-4, tiny), Seq(-6e-4, Choice(-4.5e-4, 1e-4, 6e-4), Choice(0.0, 4.5e-4, -1e-4))]
    for have, wanted in ((1, 1), (1, 4), (2, 2), (2, 4)):
        out.append(Unit('amplitudes %d of %d' % (wanted, have), amplitudes, dict(c=Seq(*top[:have])),
                        dict(kind='periodic', nbh=3, nbv=1, side=1, nholes=2, nbeta=0, wanted=wanted), stubs=STUBS,
                        bounds='every state with a given largest coefficient and four values of the others'))
    four = Seq(*[Bool()] * 4)
    for nh, nb, ex in ((0, 1, 1), (1, 1, 2), (1, 0, 1), (1, 2, 3), (0, 0, 1)):
        out.append(Unit('selection %d holes %d downs' % (nh, nb), selection, dict(s=Seq(*[Bool()] * 6, tup=True), want=four),
                        dict(excited=ex, plots=4, kind='periodic', nbh=3, nbv=1, side=1, nholes=nh, nbeta=nb), stubs=ASKED,
                        bounds='every switch setting and selection'))
    for neel in (False, True):
        for dyn in (False, True):
            out.append(Unit('compared neel %d dynamic %d' % (neel, dyn), compared,
                            dict(want=Seq(Bool(), Bool()), marks=Seq(dyn, neel, Bool())),
                            dict(kind='periodic', nbh=1, nbv=1, side=2, nholes=0, nbeta=2),
                            stubs=dict(ASKED, **{'davidson:modified_davidson_algorithm': solver}), bounds='every selection'))
    for nh in (0, 1):
        out.append(Unit('sequence %d holes' % nh, sequence, dict(want=Bool()), dict(kind='periodic', nbh=1, nbv=1, side=2, nholes=nh),
                        stubs=ASKED, bounds='every spin projection'))
    return out


def ways(n, nh, nb):
    r = 1
    for i in range(nh):
        r = r * (n - i) // (i + 1)
    for i in range(nb):
        r = r * (n - nh - i) // (i + 1)
    return r
