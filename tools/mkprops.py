"""Regenerates /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


BC, LF, IT, HC, DA, IC, EM, PP = ('baseConstruction.py', 'latticeFunctions.py', 'interactions.py',
                                  'hamiltonianConstruction.py', 'davidson.py', 'initialComputations.py',
                                  'embedding.py', 'postProcessing.py')

p('C01', 'Determinant numbering is an order-preserving bijection',
  'For every number of sites, holes, spins down and spins up, numbering a Slater determinant and rebuilding a determinant from its number are inverse to each other and the numbers are exactly 0..dimension-1. The number of a determinant is its rank when determinants are ordered by their sorted hole sites first and their sorted spin-down sites second, and it does not depend on the order in which sites are listed inside a group.',
  ['inputs', 'configurations'], 'all determinants of all (sites, holes, spins down) up to 9 sites, every in-group listing order',
  'Existing tests look at one or two configurations and a handful of indices; a wrong rank for one pattern of holes shifts matrix elements silently.',
  [BC], [('ranking', 'get_index_in_basis, compute_hash_table, get_distance_hash, project_hash'),
         ('unranking', 'get_hash_basis, get_target_hash, fusion_hash'), ('ordering of groups', 'reorder_basis_element')])
p('C02', 'The constructed basis is complete, duplicate free and in rank order',
  'The basis built for a configuration lists every placement of the holes, spins down and spins up on the sites exactly once, each group sorted, in the order of the numbering; its length equals the advertised dimension of the Hilbert space and the advertised doping and spin projection follow from the particle numbers.',
  ['configurations', 'inputs'], 'every (sites, holes, spins down) up to 8 sites; membership and position of an arbitrary determinant',
  'Tests compare single small bases with literal lists.',
  [BC, LF], [('basis enumeration', 'construct_basis'), ('dimension', 'compute_dimension'), ('derived numbers', 'Configuration.__init__, compute_ms')])
p('C03', 'Lattice adjacency matrices describe the intended geometry',
  'For every block size the adjacency matrix of the rectangular lattice links exactly the sites at distance one when sites are numbered row by row; the surrounding ring, the block-plus-ring lattice (ring numbered counter-clockwise from the bottom left, each ring site facing one border site) and the two-blocks-side-by-side lattice (right edge of the left block facing the left edge of the right block) link exactly the facing or adjacent sites. All of them are symmetric 0/1 matrices with an empty diagonal.',
  ['configurations', 'inputs'], 'every number of sub-blocks horizontally and vertically and every side up to 12 sites per direction; every pair of sites',
  'Tests compare a few literal matrices, mostly square ones, where swapped horizontal/vertical sizes go unnoticed.',
  [LF], [('rectangular lattice', 'build_rectangular_bond_matrix, build_J_matrix'), ('ring', 'build_bond_matrix_neel_outer_lattice'),
         ('block plus ring', 'build_bond_matrix_neel_embedding, build_T_matrix'), ('two blocks', 'build_bond_matrix_block_embedding, build_U_matrix')])
p('C04', 'Neighbour, second-neighbour and bond queries are exact on every graph',
  'On every symmetric adjacency matrix and every restriction of sites, the neighbours of a site are exactly the allowed adjacent sites, the second neighbours exactly the allowed sites two bonds away that are neither the site nor adjacent to it, and the bond list contains every allowed adjacent pair exactly once. With a (first sites, second sites) restriction the bond list pairs a site of the first set with a site of the second set.',
  ['inputs', 'configurations'], 'all graphs on up to 7 sites, all sites, all restrictions given as list or pair of lists',
  'Tests use three fixed lattices and never a restriction pair.',
  [LF], [('neighbours', 'get_neighbors'), ('second neighbours', 'get_second_neighbors'), ('bonds', 'build_bond_list')])
p('C05', 'Straight and bent three-site paths are told apart on every lattice type',
  'For three sites forming a two-bond path the straight/bent classification agrees with the geometric positions of the sites, whatever the order in which the three sites are given, for row-by-row, block-plus-ring and two-block numbering and for non-square blocks; triples that are not such a path are rejected. The diagonal second neighbours of a site are exactly the allowed sites reached by a bent path.',
  ['inputs', 'configurations'], 'all triples of sites of every listed lattice shape',
  'Tests check a few triples on one lattice of each type.',
  [BC, LF], [('classification', 'is_bond_linear'), ('diagonal neighbours', 'get_diagonal_second_neighbors')])
p('C06', 'Hole hopping moves exactly one hole to an allowed adjacent electron site',
  'Acting with the hopping term on any determinant yields, once each, exactly the determinants in which one hole (on an allowed starting site) has exchanged places with the electron of an allowed adjacent site, everything else unchanged; each contributes the hopping amplitude to the matrix row of the starting determinant, and the starting determinant is not modified.',
  ['inputs', 'configurations'], 'all determinants, restrictions and amplitudes on the listed lattices up to 9 sites, hopping checked against an arbitrary target determinant',
  'Tests check two or three determinants on 2x2 and 3x3 lattices.',
  [IT], [('images', 'compute_hopping_integral'), ('matrix elements', 'add_hopping_integral')])
p('C07', 'Next-neighbour hopping reaches each two-bond target once, right amplitude',
  'Acting with the next-neighbour hopping term on any determinant yields, once per (hole, electron two bonds away) pair, the determinant with the two exchanged; pairs joined by a straight path get the straight amplitude and pairs joined only by bent paths the bent amplitude.',
  ['inputs', 'configurations'], 'all determinants, restrictions and amplitudes on the listed lattices up to 9 sites',
  'Tests check a few determinants on square lattices.',
  [IT], [('images', 'compute_next_hopping_integral'), ('matrix elements', 'add_next_hopping_integral')])
p('C08', 'Static spin energy sums J(SzSz-1/4) over bonds, J depending on nearby holes',
  'For every determinant the static spin energy is the sum, over allowed bonds carrying two electrons, of coupling times (product of the two spin projections minus 1/4), where the coupling is the parallel-hole one if some hole next to the bond continues it in a straight line, otherwise the perpendicular-hole one if some hole is next to the bond, otherwise the plain one. It is added on the diagonal.',
  ['inputs', 'configurations'], 'all determinants, couplings and restrictions on the listed lattices up to 9 sites',
  'Tests evaluate a few determinants with a few couplings.',
  [IT], [('energy', 'compute_static_spin_interaction'), ('matrix elements', 'add_static_spin_interaction')])
p('C09', 'Spin flips exchange antiparallel neighbours with the coupling of that bond',
  'For every determinant, each allowed bond with opposite spins yields exactly one determinant with the two spins exchanged, sorted into the straight-hole, perpendicular-hole or undoped group by the same rule as the static coupling of that bond, and contributes half of that coupling to the matrix; nothing else is coupled.',
  ['inputs', 'configurations'], 'all determinants, couplings and restrictions on the listed lattices up to 9 sites, including block-plus-ring and two-block lattices',
  'Tests use square row-by-row lattices where a difference of site numbers happens to detect straight lines.',
  [IT], [('images', 'compute_spin_flip'), ('matrix elements', 'add_spin_flip')])
p('C10', 'Singlet displacement moves a neighbouring opposite-spin pair onto the hole',
  'For every determinant, each hole, adjacent electron and electron of opposite spin adjacent to the latter (all allowed) yields exactly one pair of determinants: one with the two electrons shifted towards the hole, one with them shifted and exchanged, with coupling plus and minus the straight or bent amplitude according to the shape of the three sites.',
  ['inputs', 'configurations'], 'all determinants, amplitudes and restrictions on the listed lattices up to 9 sites',
  'Tests check two determinants.',
  [IT], [('images', 'compute_singlet_displacement'), ('matrix elements', 'add_singlet_displacement')])
p('C11', 'Hole repulsion counts each adjacent and each diagonal hole pair once',
  'For every determinant the hole repulsion is the nearest-neighbour repulsion times the number of adjacent hole pairs plus the diagonal repulsion times the number of hole pairs joined by a bent two-bond path, within the allowed sites, each pair counted once; it is added on the diagonal.',
  ['inputs', 'configurations'], 'all determinants and couplings on the listed lattices up to 9 sites with up to 4 holes',
  'Tests use two or three holes on one lattice.',
  [IT], [('energy', 'compute_hole_repulsion'), ('matrix elements', 'add_hole_repulsion')])
p('C12', 'The Hamiltonian is Hermitian for every choice of couplings and terms',
  'For every lattice, particle numbers, values of the ten couplings, choice of included terms and list of allowed sites, the matrix built is square of the Hilbert-space dimension, real and symmetric; with different starting and target sites it is still square and real.',
  ['inputs', 'configurations'], 'symbolic couplings and term switches on whole small lattices, and arbitrary pairs of determinants on lattices up to 9 sites',
  'Tests check symmetry of no or one matrix with fixed couplings.',
  [HC, IT], [('assembly', 'build_hamiltonian, add_ham_coo'), ('terms', 'add_* functions')])
p('C13', 'Each switch adds exactly its own term; the Hamiltonian is linear in couplings',
  'For every choice of included terms the Hamiltonian equals the sum of the Hamiltonians of the single terms, excluded terms contribute nothing, each term depends linearly on its own couplings and on no other, and building it leaves couplings, configuration and basis unchanged. Adding one matrix element to an existing matrix adds exactly that value at that place.',
  ['inputs', 'configurations'], 'all switch settings and symbolic couplings on small lattices; all positions and values for single additions',
  'Tests use a few switch settings with fixed couplings.',
  [HC, IT], [('switches', 'build_hamiltonian'), ('single element', 'add_ham_coo'), ('terms', 'add_* functions')])
p('C14', 'The Hamiltonian conserves the total spin',
  'With static and flip spin coupling switched on together, the Hamiltonian commutes with the total-spin operator for every lattice type, particle numbers and values of the couplings, so that eigenstates have a definite spin.',
  ['inputs', 'configurations'], 'symbolic couplings, every determinant pair on whole small row-by-row, block-plus-ring and two-block lattices',
  'Tests look at the spin of a few numerically computed eigenvectors on square lattices.',
  [IT, HC], [('spin couplings', 'add_static_spin_interaction, add_spin_flip'), ('S^2', 'compute_S2')])
p('C15', 'Rotating determinants is the geometric rotation; the Hamiltonian is invariant',
  'On square blocks, rotating a determinant by a number of quarter turns moves every site to its clockwise-rotated position, rotations compose (four quarter turns are the identity, negative counts included), and every matrix element of the Hamiltonian between two determinants equals the one between their rotated images. The input determinant is not modified.',
  ['inputs', 'configurations'], 'all determinants of square blocks up to 4x4 and all rotation counts in -5..8; all pairs of determinants on 2x2 and 3x3 blocks for invariance',
  'Tests rotate two determinants.',
  [BC, IT], [('rotation', 'rotate_determinant'), ('Hamiltonian terms', 'compute_* functions')])
p('C16', 'Spin reversal is an involution that leaves the Hamiltonian invariant',
  'Reversing all spins of a determinant exchanges up and down groups, keeps the holes and every site of the lattice, whatever the restriction of sites; it applied twice is the identity, acts on a state vector by moving amplitudes to the reversed determinants of the reversed configuration, and matrix elements between reversed determinants are unchanged.',
  ['inputs', 'configurations'], 'all determinants and restrictions up to 9 sites; all symbolic state vectors on small configurations',
  'Tests reverse one or two determinants with no restriction.',
  [BC], [('reversal', 'reverse_spins, reverse_spins_basis, reverse_spins_vect')])
p('C17', 'Energies and couplings of a single determinant agree with the Hamiltonian',
  'For every determinant, couplings, switches and list of allowed sites, the energy reported for a single determinant equals the diagonal matrix element of the static and repulsion terms, and the couplings reported for it equal, determinant by determinant, the row of the Hamiltonian built from the same dynamic terms.',
  ['inputs', 'configurations'], 'all determinants, couplings and dynamic switches on the listed lattices',
  'Tests compare one dictionary for one determinant.',
  [IT], [('energy', 'compute_energy'), ('couplings', 'compute_dynamic_interactions')])
p('C18', 'Spin operators satisfy the spin algebra on every state',
  'For every state vector the z-component, the products of site z-components, the raising-lowering products and the total-spin-squared operator act as the quantum-mechanical operators: the raising-lowering product exchanges an up spin and a down spin and annihilates everything else (on one site it keeps an up spin and annihilates the rest), the total spin squared is the sum of the site products, and its expectation value is normalised by the norm of the state and zero for the zero state.',
  ['inputs', 'configurations'], 'all symbolic state vectors on small configurations; all determinants and site pairs up to 10 sites',
  'Tests apply the operators to a few basis vectors of 2x2 lattices.',
  [IT], [('S+S-', 'compute_S_plus_S_minus_det, compute_S_plus_S_minus'), ('SzSz', 'compute_spins_z_two_bodies'), ('S^2', 'compute_S2, compute_S2_exp_val')])
p('C19', 'The spin label of a state follows from its total spin',
  'For every state whose squared total spin is s(s+1), the reported spin number is s, rounding is to the nearest half-integer, and the multiplicity name is the one of 2s+1 (singlet, doublet, triplet, quartet, quintet, multiplet above).',
  ['inputs'], 'all expectation values of total spin squared from 0 to 30, all half-integer spins up to 10',
  'The existing spin-number test fails on the installed libraries and is not stable.',
  [IT], [('spin number', 'compute_spin_number'), ('multiplicity', 'compute_spin_multiplicity')])
p('C20', 'Occupation probabilities are a probability distribution matching the state',
  'For every non-zero state, normalised or not, the probability of a hole, up or down spin on a site is the weight of the determinants having it there divided by the total weight; the three add up to one on every site and to the particle numbers over the lattice, the reversed-spin option exchanges up and down, and the two-dimensional map shows the same numbers with the first site at the bottom left.',
  ['inputs', 'configurations'], 'all symbolic state vectors on small configurations including non-square lattices',
  'Tests use normalised basis vectors only.',
  [BC], [('per site', 'get_probability_spin_lattice, get_spins_probabilitites_lattice'), ('map', 'get_probability_spin_rectangular_lattice')])
p('C21', 'Dominant determinants are the distinct ones with the largest weights',
  'For every state, including states with equal or opposite coefficients, the list of the n dominant determinants contains n distinct determinants (all of them if fewer), in decreasing order of absolute coefficient, each with its own coefficient, and no omitted determinant has a larger one.',
  ['inputs'], 'all symbolic real state vectors on configurations up to dimension 6, every requested count',
  'Tests use vectors without ties.',
  [BC, IC], [('dominant list', 'get_dominant_determinants'), ('dominant dictionary', 'get_most_dominant_determinants'), ('displayed list', 'get_displayable_dominant_determinants')])
p('C22', 'Text displays show every site with its true occupation at its true place',
  'Every textual representation of a determinant (flat list, basis listing, rectangular lattice, block with surrounding ring, two neighbouring blocks) shows for each site the symbol of its occupation, at the row and column of that site with the first row at the bottom.',
  ['inputs', 'configurations'], 'all determinants on the listed lattices',
  'Tests compare a few literal strings on square lattices, and some displays are not tested at all.',
  [BC], [('flat', 'get_displayable_determinant, get_displayable_basis'), ('rectangle', 'get_displayable_rectangular_lattice'),
         ('ring', 'get_displayable_outer_embedding_lattice'), ('two blocks', 'get_displayable_neighbor')])
p('C23', 'Selecting the lowest eigenpairs keeps values and vectors matched',
  'For every list of eigenvalues, sorted or not and with repetitions, selecting the n lowest returns the n smallest values in increasing order, and as many distinct eigenvectors, each being the one belonging to the value at the same position; the inputs are unchanged.',
  ['inputs'], 'all symbolic eigenvalue lists up to length 5 and every requested count',
  'Tests use sorted lists without repetition.',
  [DA], [('selection', 'get_lowests_eig')])
p('C24', 'A converged eigensolver result is an orthonormal eigenpair set within tolerance',
  'When the iterative eigensolver used for the computations and embeddings stops because it converged, each returned (value, vector) pair has a residual norm within the requested tolerance for the matrix given, vectors are normalised and mutually orthogonal for any starting guess (also a single unnormalised one), values are returned in increasing order and their number is the number requested (at most the dimension of the matrix and of the search space); the input matrix is unchanged.',
  ['inputs'], 'all symmetric matrices of dimension 1 to 3, tolerances and starting guesses, 1 to 3 states, with the dense eigen-decomposition and QR replaced by their contracts; one and two iterations',
  'Tests run two or three random matrices with a loose tolerance.',
  [DA], [('solver', 'modified_davidson_algorithm')])
p('C25', 'Saved computations are restored unchanged',
  'Saving a computation and loading it back gives the same lattice type and size, particle numbers, site restriction, couplings, term switches, solver parameters, determinants, Hamiltonian, eigenvalues, spins and eigenvectors, and times, for every configuration and content.',
  ['inputs', 'configurations', 'histories'], 'all couplings, switches, lattice types, restrictions (plain or pair) and symbolic matrices on small configurations',
  'There is no test of saving or loading.',
  [IC, BC], [('save', 'save_data, Configuration.__to_json__'), ('load', 'load_data, recover_results')])
p('C26', 'Result files are found again and never confused',
  'For every choice of switches and particle numbers, the embedding and plotting steps read exactly the file the computation wrote for these switches and particle numbers, and two computations that differ in switches that change the file contents or in particle numbers never share a file.',
  ['configurations', 'histories'], 'all switch settings; all pairs of particle numbers up to 12 sites',
  'There is no test of file naming.',
  [IC, EM, PP], [('writer', 'save_data'), ('readers', 'embedding_neel, embedding_blocks'), ('embedding writers', 'save_data_peripheral_embedding, save_data_embedding_blocks')])
p('C27', 'Joining two lattices keeps both determinants',
  'The determinant of the joined lattice carries, on the sites of the first lattice, exactly the particles of the first determinant and, on the shifted sites of the second, exactly those of the second, with the groups in holes, downs, ups order, for every pair of configurations and site restrictions.',
  ['inputs', 'configurations'], 'all pairs of determinants with up to 6 sites each and all restrictions',
  'Tests join one pair.',
  [BC], [('join', 'extend_determinant')])
p('C28', 'Static embedding dresses the diagonal with the mean field of the environment',
  'In the embedding of a block in its surrounding ring and in neighbouring blocks, each block determinant receives on its diagonal exactly the antiferromagnetic and repulsion energy of its border particles with the particle probabilities of the facing environment sites (first a Néel pattern for the ring, then the exchanged probabilities of the block itself), rotated copies included for the four-neighbour case; off-diagonal elements and the stored block Hamiltonian are unchanged by the static dressing. Iterations end with the first state that changes by less than the tolerance (or with the last one allowed), and what is returned is also saved where it can be loaded again.',
  ['inputs', 'configurations'], 'symbolic couplings, block Hamiltonian and environment states on square and rectangular blocks up to 6 sites, the eigensolver replaced by a recorder, one and two self-consistency iterations',
  'There is no test of the embedding module.',
  [EM], [('ring', 'embedding_neel'), ('neighbouring blocks', 'embedding_blocks'), ('element update', 'add_ham_coo')])
p('C29', 'Restricting sites confines every dynamic term to the allowed sites',
  'With a restriction of sites given, no dynamic term moves a hole from a forbidden starting site or to a forbidden target site, no flip touches a forbidden bond, and particles elsewhere are never lost, duplicated or changed; every image is a well-formed determinant with unchanged particle numbers.',
  ['inputs', 'configurations'], 'all determinants and all restrictions (single list or start/target pair) on the listed lattices',
  'Tests use restrictions in one or two cases.',
  [IT, BC], [('images', 'compute_hopping_integral, compute_next_hopping_integral, compute_spin_flip, compute_singlet_displacement'), ('particles by group', 'get_indexes_of')])
p('C30', 'Orthonormalisation spans the same space with orthonormal vectors',
  'Applied to linearly independent vectors, the explicit orthonormalisation returns vectors of unit norm, pairwise orthogonal, as many as the inputs, the first k of which combine to the first k inputs, and the inputs are unchanged.',
  ['inputs'], 'all sets of one vector up to dimension 5, two vectors up to dimension 4, and three vectors of dimension 3 one of which is arbitrary',
  'There is no test of it with general input.',
  [DA], [('explicit procedure', 'gramSchmidt')])
p('C31', 'Dynamic embedding dresses the block with electrons of the neighbour visiting it',
  "The dynamic embedding in neighbouring blocks adds to the statically dressed block matrix a symmetric second-order term. For every block determinant and every intermediate state in which an electron of the neighbouring block has moved to one of its holes near the border, one or two bonds away, every pair of distinct determinants (A1,B1), (A2,B2) reached when an electron of that spin goes back (hopping, next-neighbour hopping or singlet displacement across the border) adds c(B1) c(B2) v1 v2 / (2 E - Ep) to the elements (A1,A2) and (A2,A1): v1 and v2 are the couplings, c the amplitudes of the neighbour (the block's current state, with all spins reversed when asked), E the current ground-state energy of the block and Ep the diagonal energy of the intermediate state. Contributions below the threshold in absolute value are left out. With four neighbours the term is the sum over the quarter turns of the block and is invariant under them. Reversing all spins of the problem reverses the result, for every number of up and down electrons, and the stored block Hamiltonian is unchanged.",
  ['inputs', 'configurations'], 'symbolic t, tNNN, tnNNN, hSD, block Hamiltonian and state (J, V and the energy fixed) on blocks of 2 x 1, 3 x 1 and 2 x 2 sites, the eigensolver replaced by a recorder; second iteration with every state of the first; thresholds as intervals',
  'There is no test of the embedding module.',
  [EM], [('neighbouring blocks', 'embedding_blocks'), ('element update', 'add_ham_coo'), ('reversed neighbour', 'reverse_spins_vect')])
p('C32', 'The figures show the stored results',
  "The figures of a computation show exactly what was computed, without changing it. The spectrum figure has one horizontal level per stored energy, equal energies side by side at the same height, whatever their order and number. The hole figure has one panel for each of the lowest states, as many as fill a square not larger than the number asked for and not more than are stored, also when only one panel is asked for; each panel interpolates the hole probability of every lattice site (row and column as in the two-dimensional probability map) and marks every site. The spin figure shows the up, down and up-minus-down maps of the state asked for, and nothing when this state is not stored. The amplitude figure counts for each state the coefficients not smaller in absolute value than the abscissa. The embedding figure shows the largest squared coefficients of the two ground states in decreasing order, those of the isolated cluster first. Each figure is saved once, under the numbers of sites, up and down electrons. Generating the plots of a configuration loads its stored results (and those of the selected embedding) and draws the selected figures only, hole figures only with holes and spin figures only with both spins present; generating all plots does so for every spin projection once.",
  ['inputs', 'configurations'], 'symbolic state vectors, energies, switches and selections, with the plotting library replaced by a recorder of what it is asked to draw; periodic lattices of 4 to 8 sites, at least two wide and two high',
  'There is no test of the plots.',
  ['postProcessing.py'], [('spectrum', 'save_spectrum'), ('holes', 'save_hole_probability_lattice'), ('spins', 'save_electron_probability_lattice'), ('amplitudes', 'plot_determinants_amplitude_repartition'), ('embedding', 'plot_embedding_effect_on_determinants'), ('selection', 'generate_plots_configuration'), ('all projections', 'generate_plots')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
