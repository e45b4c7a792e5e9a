"""Single table of the properties; writes properties.jsonl and MANIFEST.json.

    python3 tools/props.py
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/permaviss/'
G = S + 'gauss_mod_p/'
P = S + 'persistence_algebra/'
K = S + 'simplicial_complexes/'
Q = S + 'spectral_sequence/'
C = S + 'covers/'
X = S + 'sample_point_clouds/'

# id: title, statement, over, quantifier text, why tests cannot, files,
#     mechanism [(name, where)], technique, note
T = []


def prop(*a):
    T.append(a)


prop('C01', 'Arithmetic modulo p is exact for every prime and representative',
     'For every prime p, sums of numbers and of arrays modulo p and products '
     'of matrices modulo p agree with exact integer arithmetic reduced to '
     '0..p-1. The inverse of an integer that is not divisible by p, whatever '
     'representative is given (negative or larger than p), is the unique x '
     'in 1..p-1 with a*x = 1 modulo p, and asking for the inverse of a '
     'multiple of p is an error, never a number.',
     ['inputs'], 'all primes p, all integer representatives, all matrix '
     'shapes and entries whose exact product fits the number type',
     'The tests call the functions on a handful of numbers and two small '
     'matrices; all primes and all (also negative) representatives cannot '
     'be sampled by hand.',
     [G + 'arithmetic_mod_p.py', G + 'functions.py'],
     [('extended Euclid', G + 'arithmetic_mod_p.py:inv_mod_p'),
      ('matrix product', G + 'functions.py:multiply_mod_p')],
     'TLA+: Euclid.tla model checked and replayed; every recorded call '
     'judged by TLC (TraceGauss.tla)')

prop('C02', 'Column elimination yields an echelon form and its base change',
     'Eliminating the columns of a matrix modulo p returns a matrix R and an '
     'invertible matrix T with A*T = R modulo p in which no two non-zero '
     'columns have the same pivot (last non-zero entry), using left to right '
     'additions only: a column only receives multiples of columns before it. '
     'The rank of the result is the rank of A, all entries are reduced to '
     '0..p-1, and A is left unchanged.',
     ['inputs'], 'all matrices over Z/p with at least one row, for all '
     'primes p',
     'The tests run three fixed matrices; whether pivots can collide depends '
     'on coincidences of entries modulo p that fixed examples do not reach.',
     [G + 'gauss_mod_p.py'],
     [('left to right elimination', G + 'gauss_mod_p.py:gauss_col')],
     'TLA+: GaussCol.tla model checked and replayed; recorded calls judged '
     'by TLC (TraceGauss.tla)')

prop('C03', 'Solvers modulo p find a solution exactly when there is one',
     'Solving a linear system modulo p returns a vector that satisfies the '
     'system whenever the system is solvable, for one right hand side and '
     'for a matrix of right hand sides. When there is no solution an error '
     'is raised; a wrong vector is never returned.',
     ['inputs'], 'all matrices and right hand sides over Z/p, solvable or '
     'not, for all primes p',
     'The tests solve a few regular systems; rank deficient, over- and '
     'under-determined and unsolvable systems over different primes form an '
     'infinite family.',
     [G + 'functions.py', G + 'gauss_mod_p.py'],
     [('solve by elimination', G + 'functions.py:solve_mod_p, solve_matrix_mod_p')],
     'TLA+: inputs of GaussCol.tla replayed; recorded calls judged by TLC '
     'against rank conditions (TraceGauss.tla)')

prop('C04', 'Radius and barcode restricted eliminations use only live columns',
     'Reducing columns against given generators, when columns carry radii, '
     'only ever uses generators born no later than the column that is '
     'reduced, records the exact coefficients, and raises an error instead '
     'of returning a column that is not reduced to zero. In the barcode '
     'version the returned coefficients express the column, on the rows '
     'alive when it is born, through generators alive at that radius, and '
     'an error is raised exactly when that is impossible. Given columns and '
     'inputs are left as they are.',
     ['inputs'], 'all matrices over Z/p, all assignments of radii and '
     'barcodes, all primes p',
     'The tests use one matrix with increasing radii; ties, generators born '
     'late and rows that are dead or unborn need to be combined in all ways.',
     [G + 'gauss_mod_p.py'],
     [('restricted elimination', G + 'gauss_mod_p.py:gauss_col_rad, gauss_barcodes')],
     'TLA+: Lift.tla model checked and replayed; recorded calls judged by '
     'TLC (TraceGauss.tla)')

prop('C05', 'The Vietoris-Rips complex has exactly the simplices it should',
     'For every symmetric distance matrix and maximum radius, the complex '
     'contains exactly the vertex sets of size up to the dimension plus one '
     'whose diameter is below the maximum radius, each once with increasing '
     'vertices. The radius reported for a simplex is its diameter, and in '
     'each dimension simplices are listed by non-decreasing radius.',
     ['inputs'], 'all symmetric non-negative matrices with zero diagonal, '
     'metric or not, with ties; all maximum radii and dimensions',
     'The tests compare against two stored complexes; ties, radii equal to '
     'the maximum and non-metric matrices are not reached.',
     [K + 'vietoris_rips.py'],
     [('clique expansion', K + 'vietoris_rips.py:vietoris_rips, _lower_neighbours')],
     'TLA+: Flag.tla model checked and replayed; recorded complexes judged '
     'by TLC (TraceSimp.tla)')

prop('C06', 'The flag complex contains exactly the cliques of the graph',
     'The flag complex of a simple graph has in dimension k exactly the '
     'cliques with k+1 vertices, each once, up to the given dimension, in '
     'whatever order and orientation the edges are listed. A negative '
     'dimension is an error, and inputs are not modified.',
     ['inputs'], 'all simple graphs, edge orders and orientations, all '
     'dimensions',
     'The tests check one graph; isolated vertices, missing dimensions and '
     'edge orders vary without bound.',
     [K + 'flag_complex.py'],
     [('clique expansion', K + 'flag_complex.py:flag_complex, lower_nbrs')],
     'TLA+: Flag.tla model checked and replayed; recorded complexes judged '
     'by TLC (TraceSimp.tla)')

prop('C07', 'Boundary operators are simplicial and compose to zero',
     'For every simplicial complex the boundary matrices have in the column '
     'of a simplex exactly its faces with alternating signs modulo p (up to '
     'one sign per degree). Consecutive boundary operators compose to zero '
     'modulo p, and entries are reduced to 0..p-1.',
     ['inputs'], 'all finite simplicial complexes of dimension at least one '
     'and all primes p',
     'The tests look at one complex for a few primes; signs and face order '
     'depend on the listing of simplices in each dimension.',
     [K + 'differentials.py'],
     [('face signs', K + 'differentials.py:complex_differentials')],
     'TLA+: complexes of Flag.tla replayed; recorded operators judged by '
     'TLC (TraceSimp.tla)')

prop('C08', 'Persistent homology is correct: bars, cycles, bounding chains',
     'For every filtered simplicial complex the bars count, at every radius '
     'and in every degree, the Betti number modulo p; bars still alive end '
     'at the maximum radius. The cycle given with a bar is a cycle born with '
     'the bar which becomes a boundary when the bar ends, and the cycles '
     'alive at a radius are independent modulo boundaries. The boundaries '
     'returned form a basis of all boundaries, each with a chain that it is '
     'the boundary of.',
     ['inputs'], 'all filtered complexes with simplices sorted by radius, '
     'with ties, vertices born at radius 0, all maximum radii and all '
     'primes p',
     'The tests compare barcodes of a few stored complexes; ties between '
     'radii, torsion, and representatives are not checked on arbitrary '
     'filtrations.',
     [P + 'PH_classic.py'],
     [('reduction with clearing', P + 'PH_classic.py:persistent_homology')],
     'TLA+: PHClassic.tla (reduction as a state machine) model checked and '
     'replayed; recorded results judged by TLC (TraceSimp.tla)')

prop('C09', 'Barcode bases stay well formed and consistent',
     'A barcode basis keeps bars, coordinates and dimension consistent; '
     'sorting lists bars by birth and, for equal births, by decreasing death '
     'and carries coordinates and relations along by the reported '
     'permutation. Asking which generators are alive, dead or dying at a '
     'radius answers by half open intervals, and inconsistent input is '
     'rejected. Bars of length zero are removed together with their '
     'coordinates, and transformed vectors only keep generators alive at '
     'their radius.',
     ['inputs', 'histories'], 'all barcodes (unsorted, tied, empty bars), '
     'coordinates and relations, and all sequences of operations on a basis',
     'The tests sort two barcodes; ties, trivial bars, and relations carried '
     'through several operations are not sampled.',
     [P + 'barcode_bases.py'],
     [('order and activity', P + 'barcode_bases.py:barcode_basis')],
     'TLA+: BarcodeBasis.tla model checked and replayed; recorded objects '
     'judged by TLC (TracePersist.tla)')

prop('C10', 'Image, kernel and preimages of a map of persistence modules',
     'For every well defined map between persistence modules given on '
     'barcode bases, the computed image and kernel bars have the right '
     'number alive between any two radii, and their coordinates are '
     'independent elements of image and kernel, born with their bar and '
     'vanishing when it ends. The preimage returned for an image bar maps to '
     'it, uses generators that are born, and results come in the standard '
     'order.',
     ['inputs'], 'all pairs of barcodes, all maps compatible with them, all '
     'primes p (also large ones)',
     'The tests fix three examples; six defects of this function found while '
     'building this check concern coincidences of births, deaths and pivots '
     'that those examples do not contain.',
     [P + 'image_kernel.py'],
     [('elimination at every radius', P + 'image_kernel.py:image_kernel, pivot_check_reduce')],
     'TLA+: ImageKernel.tla (elimination as a state machine) model checked '
     'and replayed; recorded results judged by TLC (TracePersist.tla)')

prop('C11', 'Homology of complexes of persistence modules',
     'For every complex of persistence modules given on barcode bases, the '
     'homology returned at each position has, between any two radii, the '
     'rank of cycles modulo boundaries. Its representatives are cycles born '
     'with their bar, independent modulo boundaries while alive and '
     'boundaries afterwards; images and preimages returned are those of the '
     'incoming map.',
     ['inputs'], 'all complexes of any length, trivial modules included, '
     'all primes p',
     'The tests check one sequence of three modules; empty modules in the '
     'middle, and bars that die inside the quotient need many combinations.',
     [P + 'module_persistence_homology.py', P + 'image_kernel.py'],
     [('quotient of kernel by image', P + 'module_persistence_homology.py:module_persistence_homology, quotient')],
     'TLA+: ModuleHomology.tla model checked and replayed; recorded results '
     'judged by TLC (TracePersist.tla)')

prop('C12', 'The cubical cover covers, and its nerve and cells are exact',
     'Every region of the cubical cover consists of exactly the points in '
     'its closed box enlarged by half the overlap on each side; boxes tile '
     'the bounding box of the cloud, and regions are enumerated without gaps '
     'or repetition. Hence every point is covered and every set of points of '
     'diameter below the overlap lies in one region. For every simplex of '
     'the nerve, the listed points and coordinates are those of the '
     'intersection of its regions, and the nerve contains all sets of '
     'mutually adjacent boxes.',
     ['inputs', 'configurations'], 'all point clouds of any dimension (flat, '
     'tied or degenerate ones included), all numbers of divisions and all '
     'positive overlaps',
     'The tests look at one circle with two divisions; rectangular '
     'subdivisions, points on faces of boxes and flat clouds are not '
     'reached.',
     [C + 'cubical_cover.py', K + 'flag_complex.py'],
     [('odometer over boxes', C + 'cubical_cover.py:next_hypercube, generate_cover'),
      ('nerve and intersections', C + 'cubical_cover.py:nerve_hypercube_cover, intersection_covers')],
     'TLA+: Cover.tla (odometer and adjacency) model checked and replayed; '
     'recorded covers judged by TLC (TraceCover.tla)')

prop('C13', 'Collections of local chains behave like sparse matrices',
     'A collection of local chains denotes, region by region, a matrix whose '
     'rows are addressed by references; adding entries, adding two '
     'collections, negating and taking linear combinations give the '
     'collection that denotes the corresponding matrix operation modulo p, '
     'for every sequence of operations. Mismatched references and '
     'coordinates are rejected, and no operation changes a collection other '
     'than the one it is applied to.',
     ['histories', 'inputs'], 'all sequences of operations on all '
     'collections (empty regions, partial and different references)',
     'The tests perform each operation once on full collections; partial '
     'references and aliasing between copies only show in longer histories.',
     [Q + 'local_chains_class.py'],
     [('sparse sums', Q + 'local_chains_class.py:__add__, sums, minus, copy_seq, add_entry')],
     'TLA+: LocalChains.tla (object histories) model checked and replayed; '
     'recorded histories judged by TLC (TraceChains.tla)')

prop('C14', 'Mayer-Vietoris persistent homology equals the direct one',
     'For every point cloud and cover in which every simplex below the '
     'maximum radius lies in a region, persistent homology computed through '
     'the Mayer-Vietoris spectral sequence has in every degree exactly the '
     'bars of the Vietoris-Rips filtration of the whole cloud, and degrees '
     'are reported at their own index. The computation always finishes '
     'without an internal error.',
     ['inputs', 'configurations'], 'all point clouds, maximum radii and '
     'dimensions, divisions, overlaps at least the maximum radius, all '
     'covers, and all primes p whose products are exact in double '
     'precision',
     'The tests compare a few clouds in small dimension; higher '
     'differentials and extension problems only occur for special '
     'configurations, where nine defects were found while building this '
     'check.',
     [Q + 'MV_spectral_seq.py', Q + 'spectral_sequence_class.py',
      P + 'image_kernel.py', P + 'module_persistence_homology.py'],
     [('pages and extensions', Q + 'MV_spectral_seq.py:create_MV_ss'),
      ('differentials', Q + 'spectral_sequence_class.py:first_differential, high_differential'),
      ('extension problem', Q + 'spectral_sequence_class.py:extension')],
     'TLA+: pages as a state machine (MVPages.tla) model checked and '
     'replayed; recorded runs judged by TLC against the column reduction of '
     'the whole filtration (DoubleComplex.tla, TraceMV.tla)')

prop('C15', 'Every page of the spectral sequence has the right dimensions',
     'At every radius, in every position whose total degree is at most the '
     'maximum dimension, the number of bars alive on page r equals the '
     'dimension of page r of the spectral sequence of the double complex of '
     'the cover at that radius. The last page is the limit page there: no '
     'differential is left out. The table of dimensions of a page agrees '
     'with its bars, whose ends are proper and do not exceed the maximum '
     'radius, and the images kept with a page have at every radius the rank '
     'of the differential arriving there.',
     ['inputs', 'configurations'], 'all clouds, covers, radii, primes '
     '(products exact in double precision), pages and positions',
     'The tests compare the final barcodes only; an error on an '
     'intermediate page can cancel or be hidden by the sampled data.',
     [Q + 'MV_spectral_seq.py', Q + 'spectral_sequence_class.py',
      P + 'module_persistence_homology.py'],
     [('pages', Q + 'MV_spectral_seq.py:create_MV_ss'),
      ('lifting', Q + 'spectral_sequence_class.py:cech_diff_and_lift, lift_to_page')],
     'TLA+: pages as a state machine (MVPages.tla) model checked and '
     'replayed; recorded pages judged by TLC against the reduction of the '
     'filtered total complex (DoubleComplex.tla, TraceMV.tla)')

prop('C16', 'Classes have total-complex representatives; extensions hold',
     'Every class on page two or later comes with a chain of the double '
     'complex made of simplices born with the class, whose total boundary '
     'vanishes as far as the page demands. On the last page, the '
     'representatives of the classes alive at a radius form a basis of the '
     'homology of the total complex there, and when a class ends before the '
     'maximum radius its representative is homologous to the combination of '
     'the others stated by the extension coefficients.',
     ['inputs', 'configurations'], 'all clouds, covers, primes '
     '(products exact in double precision), pages, positions and classes',
     'No test looks at representatives or extension coefficients; final '
     'barcodes of a few clouds only exercise trivial ones.',
     [Q + 'spectral_sequence_class.py', Q + 'local_chains_class.py'],
     [('representatives', Q + 'spectral_sequence_class.py:compute_two_page_representatives, compute_higher_representatives'),
      ('extension', Q + 'spectral_sequence_class.py:extension')],
     'TLA+: behaviours of MVPages.tla model checked and replayed; recorded '
     'representatives and extension matrices judged by TLC '
     'in the total complex (DoubleComplex.tla, TraceMV.tla)')

prop('C17', 'Results do not depend on how parallel work is scheduled',
     'The spectral sequence computed with worker processes is the same for '
     'every order in which local tasks run and finish, every distribution of '
     'tasks over workers and every number of workers, and equals the one '
     'computed by running all tasks in order in one process. No result '
     'depends on what a task did inside its worker.',
     ['schedules'], 'all interleavings and assignments of the local tasks '
     'of each stage to workers',
     'A test run exercises the schedules the operating system happens to '
     'produce on one machine.',
     [Q + 'MV_spectral_seq.py', Q + 'spectral_sequence_class.py'],
     [('pool of workers', Q + 'MV_spectral_seq.py:create_MV_ss; ' + Q + 'spectral_sequence_class.py:cech_diff_and_lift, first_page_lift')],
     'TLA+: MVPipeline.tla (pool schedules) model checked; its schedules '
     'replayed through a scripted pool; results compared by TLC '
     '(TraceSched.tla)')

prop('C18', 'Computations are pure: inputs kept, history irrelevant',
     'No computation modifies the arrays, bases or lists it is given. The '
     'result of a call depends on its arguments only: repeating it, or '
     'running it after or interleaved with other computations (also with a '
     'different prime), gives the same result, and results already returned '
     'do not change.',
     ['histories'], 'all histories of calls, including two interleaved '
     'computations with different primes',
     'Tests start from a fresh state and look at one result; shared mutable '
     'state only shows in particular histories.',
     [Q + 'local_chains_class.py', Q + 'spectral_sequence_class.py',
      P + 'barcode_bases.py', P + 'image_kernel.py', P + 'PH_classic.py',
      K + 'vietoris_rips.py', G + 'gauss_mod_p.py'],
     [('copies of inputs', P + 'image_kernel.py:image_kernel; ' + G + 'gauss_mod_p.py'),
      ('prime of a computation', Q + 'spectral_sequence_class.py:spectral_sequence')],
     'TLA+: History.tla behaviours replayed; recorded histories judged by '
     'TLC (TraceHistory.tla)')

prop('C19', 'Sampling: farthest points, shapes and noise keep their promises',
     'Taking a sample of a (non-empty) cloud returns the requested number '
     'of its points (the whole cloud when that has fewer), none more often '
     'than it occurs, each after the first farthest from those chosen '
     'before it; a seed determines the sample. The example generators '
     'return the requested number of different points on the stated set '
     '(regular polygon on a circle, noisy circle, ball, sphere, cube, '
     'centred grid, torus) with the stated size, centre and dimension.',
     ['inputs'], 'all clouds, sample sizes, radii, dimensions and random '
     'seeds',
     'There are no tests of sampling; ties and random starts vary the '
     'outcome.',
     [X + 'examples.py'],
     [('greedy farthest point', X + 'examples.py:take_sample'),
      ('parametrisations', X + 'examples.py')],
     'TLA+: Sampling.tla (maxmin as a state machine) model checked; '
     'recorded samples judged by TLC (TraceSample.tla)')

prop('C20', 'Extension problems are solved to the right persistence module',
     'Given bars of a filtered persistence module and coefficients telling '
     'what each bar becomes when it ends, the assembled persistence module '
     'has between any two radii the rank dictated by those relations, cut at '
     'the maximum radius.',
     ['inputs'], 'all barcodes, all triangular extension coefficients '
     'compatible with births, all primes p',
     'The tests contain two extension problems with two bars; chains of '
     'extensions and ties are not reached.',
     [P + 'image_kernel.py', P + 'barcode_bases.py',
      Q + 'MV_spectral_seq.py'],
     [('broken bases', P + 'image_kernel.py:image_kernel; ' + P + 'barcode_bases.py:update_broken')],
     'TLA+: Extension.tla model checked and replayed; recorded results '
     'judged by TLC (TracePersist.tla)')

prop('C21', 'Every intersection of the cover carries its own homology data',
     'For every simplex of the nerve, the spectral sequence keeps exactly '
     'the points lying in all regions of that simplex, the Vietoris-Rips '
     'complex of these points with its boundary operators, and its '
     'persistent homology: bars, cycles, boundaries and chains bounding '
     'them. The first page lists these bars region by region in the order '
     'of the nerve.',
     ['inputs', 'configurations'], 'all clouds, covers, maximum radii and '
     'dimensions, primes and intersections, also those with few or no '
     'points',
     'The tests look at whole pages and final barcodes of a few clouds; '
     'regions that swap, share or lose points or bars can leave those '
     'totals unchanged.',
     [Q + 'MV_spectral_seq.py', Q + 'spectral_sequence_class.py',
      C + 'cubical_cover.py'],
     [('local computation', Q + 'MV_spectral_seq.py:local_persistent_homology'),
      ('assembly of the first page', Q + 'spectral_sequence_class.py:add_output_first')],
     'TLA+: covers of MVPages.tla replayed; the data recorded for every '
     'intersection judged by TLC (TraceSimp.tla, TraceMV.tla)')

prop('C22', 'Cech differentials restrict chains; cycles lift to classes exactly',
     'The Cech differential of any local chain is, up to one sign per '
     'position, the alternating sum of its inclusions into the intersections '
     'of one region fewer. Every local cycle, and the Cech differential of '
     'every local cycle, is written at its radius as a combination of local '
     'classes born by then plus the boundary of a chain of simplices born by '
     'then, and the equation between them holds exactly modulo p.',
     ['inputs', 'configurations'], 'all covers, columns, rows, radii and '
     'primes (products exact in double precision), all chains and all local '
     'cycles, also those that the computation of the pages does not meet',
     'The tests check a few entries of the double complex of one cloud; '
     'chains with parts in several regions at several radii are not tried.',
     [Q + 'spectral_sequence_class.py', Q + 'local_chains_class.py'],
     [('Cech differential', Q + 'spectral_sequence_class.py:cech_diff, cech_diff_local, local_cech_matrix'),
      ('lifts', Q + 'spectral_sequence_class.py:first_page_lift, first_page_local_lift, cech_diff_and_lift')],
     'TLA+: Zigzag.tla (continuing a cycle through the double complex) model '
     'checked and replayed; recorded differentials and lifts judged by TLC '
     '(Cech.tla, TraceMV.tla)')

NOTE = {
    'C14': 'Recorded executions only: every verdict is TLC evaluating the '
           'specification on what the code did. Distances are compared by '
           'rank; clouds whose distances differ by less than 1e-6 without '
           'being equal are not used. The pool is a stand-in that runs tasks '
           'in order on copies.',
}
DEFAULT = ('The design model is explored exhaustively within the constants '
           'of its configuration (states reported in the evidence); the code '
           'is judged on the replayed behaviours of the model and on '
           'recorded executions of seeded inputs, so inputs outside these '
           'are not covered. Python records, TLC decides.')


def main():
    have = [t for t in T if os.path.exists(os.path.join(
        ROOT, 'harness', t[0].lower() + '.py'))]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for (pid, title, st, over, qt, why, files, mech, tech) in have:
            assert len(title) <= 80, (pid, len(title))
            assert len(st.split('. ')) <= 3, (pid, st)
            f.write(json.dumps({
                'id': pid, 'title': title, 'statement': st,
                'quantifier': {'over': over, 'text': qt},
                'why_tests_cant': why,
                'anchors': {'files': files, 'mechanism': [
                    {'name': n, 'where': w} for n, w in mech],
                    'hook_needed': None}}) + '\n')
    man = {'version': 1,
           'setup_cmd': './setup.sh',
           'checks': [{
               'property': t[0],
               'quick_cmd': './check %s quick' % t[0],
               'thorough_cmd': './check %s thorough' % t[0],
               'evidence_file': 'evidence/%s.json' % t[0],
               'technique': t[8], 'level': 'model_checking',
               'level_note': NOTE.get(t[0], DEFAULT)} for t in have],
           'not_applicable': [],
           'notes': 'Specifications in spec/ (TLA+, checked with TLC); '
                    'drivers in harness/. No hooks in /repo: the library is '
                    'observed through its public functions and attributes. '
                    'See DESIGN.md.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(have), 'properties')


if __name__ == '__main__':
    main()
