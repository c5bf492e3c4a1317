"""The properties (source of properties.jsonl and MANIFEST.json)."""

GVN = 'value-graph equivalence by abstract interpretation (global value numbering, random interpretation of residual graphs)'
RULE = 'syntax-tree and call-graph rules over every instance in the package'
NOTE = ('The symbolic value of each entry point, for all inputs of the declared shapes, is computed from the current source by abstract '
        'interpretation and compared with a reference definition. Assumes real arithmetic (not floating point rounding), the numpy and atooms '
        'models of /verif/sa, and well-formed trajectories; normal forms that differ are told apart by random interpretation of the two graphs, '
        'which is exact for refutations and one-sided for agreement.')
RNOTE = ('Decides the rule on every instance found in the current source (listed in the evidence). Assumes no dynamic code (exec, setattr by '
         'computed name) beyond what the rule lists.')

PROPS = [
    dict(id='P01', title='Time correlations average over exactly the origins of each time lag',
         statement='A time correlation function reports, for each distinct time difference found between the frames it pairs, the arithmetic mean of the '
                   'pair function over all pairs of frames with that difference. The reported time differences are sorted, each is the '
                   'difference of the steps of the two frames actually used, and values and times have the same length and order.',
         over=['inputs', 'configurations'],
         forall='every list of frame values, step list (also irregular), grid of (offset, frame difference) pairs, stride and pair function',
         tests='The tests compare a few trajectories with regular steps; mislabelled lags or dropped origins show up only with irregular steps, offsets and strides.',
         mechanism=[('gcf_offset', 'correlation.py:gcf_offset'), ('gcf', 'correlation.py:gcf'), ('acf', 'correlation.py:acf')]),
    dict(id='P04', title='MSD, non-Gaussian parameter, velocity and stress autocorrelations',
         statement='The mean square displacement, the non-Gaussian parameter, the velocity and the stress autocorrelation functions equal their textbook definitions in any number of dimensions, '
                   'evaluated on the unfolded positions or the velocities of all particles, averaged over the time origins and labelled by the real time difference. '
                   'Default and displacement-limited time grids cover the time range they document, and the number of time origins may be given as text.',
         over=['inputs', 'configurations'],
         forall='every trajectory (number of frames, particles, steps, cell), time grid, number of origins and option of these classes',
         tests='The tests check a handful of numbers on one reference trajectory with default options.',
         mechanism=[('MeanSquareDisplacement', 'msd.py:MeanSquareDisplacement._compute'), ('NonGaussianParameter', 'alpha2.py:NonGaussianParameter._compute'),
                    ('VelocityAutocorrelation', 'vacf.py:VelocityAutocorrelation._compute'), ('StressAutocorrelation', 'sacf.py:StressAutocorrelation._compute')]),
    dict(id='P05', title='Overlap functions and dynamic susceptibilities',
         statement='The self and collective overlaps are the average fraction of particles found within the cutoff distance of their own, or of any, position at the time origin. '
                   'The dynamic susceptibilities are the variance of the total overlap over the time origins divided by the number of particles, and the accompanying '
                   'average and second moment are those of the same samples at the same times. The optimized variants agree. The dynamic structure factor of the '
                   'overlap S4(k,t) is the variance over the origins of the density waves of the particles that overlap with their own positions, over the number of particles, at the times closest to the requested ones. '
                   'The default time grid is logarithmic and extends to three quarters of the total time; the number of time origins may be given as text.',
         over=['inputs', 'configurations'],
         forall='every trajectory, time grid, number of origins and cutoff',
         tests='The tests check one trajectory and one cutoff; the moments are only checked through a few values.',
         mechanism=[('SelfOverlap, CollectiveOverlap', 'qt.py'), ('Chi4SelfOverlap', 'chi4t.py:Chi4SelfOverlap._compute'), ('Susceptibility', 'susceptibility.py:Susceptibility.compute'), ('S4ktOverlap', 's4kt.py:S4ktOverlap._compute')]),

    dict(id='P02', title='The number of time origins follows the user request',
         statement='The stride between time origins is derived from the requested number: a negative value uses every block, 1 uses one origin, an integer '
                   'larger than 1 at most about that many blocks, a fraction that fraction of the blocks, and the default limits the work on large systems. '
                   'The stride is between 1 and the number of frames and respects the block structure of the trajectory. Numbers may be given as strings.',
         over=['inputs', 'configurations'],
         forall='every trajectory (number of frames, block size, particles) and every requested number of origins, as a number or as a string',
         tests='The tests call it with a handful of values on trajectories with one block size.',
         mechanism=[('adjust_skip', 'helpers.py:adjust_skip')]),
    dict(id='P03', title='Requested times are matched to the closest available frame differences',
         statement='Each requested time is matched to the frame difference available in the trajectory whose time is the closest, each frame difference is used once, '
                   'pairs come sorted by time, and each pair (offset, difference) identifies two existing frames separated by that time.',
         over=['inputs', 'configurations'],
         forall='every list of steps (also irregular or in blocks), time step and list of requested times, with and without offsets',
         tests='The tests compare a few evenly spaced trajectories.',
         mechanism=[('setup_t_grid', 'helpers.py:setup_t_grid')]),
    dict(id='P06', title='Structure factor, partial, weighted and optimized variants',
         statement='The structure factor at each wave-number is the average over the frames and over the wave-vectors of the shell of the squared modulus of the density wave, divided by the average number of particles; with two filters '
                   'it is the real part of the product of the two density waves over the square root of the product of the average numbers of particles; with weights each particle contributes its own weight. '
                   'The optimized variant gives the same result.',
         over=['inputs', 'configurations'],
         forall='every trajectory in a constant cell, set of wave-vectors, filters, weights and number of origins',
         tests='The tests compare a few values on one trajectory, and the two variants on a cubic cell with equal numbers of particles.',
         mechanism=[('StructureFactorLegacy', 'sk.py:StructureFactorLegacy._compute'), ('StructureFactorFast', 'sk.py:StructureFactorFast._compute'),
                    ('sk_bare', 'fourierspace.f90:sk_bare')]),
    dict(id='P08', title='Spectral density of particles with different sizes',
         statement='The spectral density at each wave-number is the average over the frames and over the wave-vectors of the shell of the squared modulus of the density waves of the particles, each '
                   'multiplied by the form factor of a homogeneous sphere of its radius, divided by the volume of the cell.',
         over=['inputs', 'configurations'],
         forall='every three dimensional trajectory in a constant cell, set of wave-vectors and number of origins',
         tests='The tests only check that the calculation runs.',
         mechanism=[('SpectralDensity', 'ik.py:SpectralDensity._compute')]),
    dict(id='P09', title='Radial distribution function, with any backend',
         statement='The radial distribution function at each distance is the number of pairs of particles, of one or of two subsets, at the distances within the bin around it, averaged over the frames, divided by that of an ideal gas with the '
                   'same numbers of particles and volume in the shell. Distances are those of the nearest images and are reported up to half of the smallest side of the cell, or to the requested maximum, included. '
                   'The optimized variant, with or without linked cells, gives the same values as the reference one on the default grid.',
         over=['inputs', 'configurations'],
         forall='every trajectory in a periodic cell of constant side, filters, bin width, maximum distance and number of origins (any uniform grid for the reference variant); for the optimized variant also when the number of particles in a subset changes from frame to frame',
         tests='The tests compare the variants on one dense trajectory, with bin widths for which no pairs fall between the last bin and the maximum distance.',
         mechanism=[('RadialDistributionFunctionLegacy', 'gr.py:RadialDistributionFunctionLegacy._compute'), ('RadialDistributionFunctionFast', 'gr.py:RadialDistributionFunctionFast._compute'),
                    ('gr_self_c', 'realspace.f90:gr_self_C')]),
    dict(id='P10', title='Fortran kernels compute their textbook definitions',
         statement='The Fortran kernels for histograms of distances, with all pairs or with given neighbors, for neighbors within cutoff distances, bond angles, particles close to the surface, overlaps, density waves and self correlations give the '
                   'result of their definition, for the arrays in C and in Fortran order and for indices starting from 0 or from 1.',
         over=['inputs'],
         forall='every set of positions in the cell, number of dimensions, bin width, cutoffs, lists of neighbors and array order',
         tests='The tests call a few of them through the correlation functions, on one trajectory; most variants are never called.',
         mechanism=[('gr_self, gr_distinct, gr_neighbors_self, gr_neighbors_distinct', 'realspace.f90'), ('neighbors, neighbors_list, neighbors_full', 'realspace.f90'),
                    ('bond_angle, self_overlap, on_surface', 'realspace.f90'), ('sk_bare, fskt_kernel_2d, fskt_kernel_3d, fskt_kernel_nd', 'fourierspace.f90')]),
    dict(id='P12', title='Filters select exactly the requested particles',
         statement='A filter added to a correlation function is applied, with its arguments, to every frame of the trajectory and restricts positions, velocities and '
                   'species of the body it belongs to, in that correlation function only; a single filter applies to both bodies, the second one to the second body only. Textual conditions keep '
                   'exactly the particles that satisfy them. Filters beyond the number of bodies are refused.',
         over=['inputs', 'configurations'],
         forall='every trajectory, filter callback with its arguments, number of bodies and condition of the given form',
         tests='The tests filter by species on one trajectory, with one body or with equal filters.',
         mechanism=[('add_filter', 'correlation.py:Correlation.add_filter'), ('_setup_arrays', 'correlation.py:Correlation._setup_arrays_twobody'),
                    ('Filter', 'filter.py:Filter'), ('filter_species', 'helpers.py:filter_species')]),
    dict(id='P14', title='Particle arrays are those of each frame, unfolded and centred on request',
         statement='Correlation functions are computed on the positions, velocities and species of every frame of the trajectory, in order, those of the particles kept by the filters only. Unfolded positions are used where the '
                   'function asks for them (those stored in the trajectory, if any), and the motion of the centre of mass of the whole system is subtracted when requested, '
                   'without modifying the input trajectory.',
         over=['inputs', 'configurations'],
         forall='every trajectory with or without stored unfolded positions, every phase space selection, filter and fix_cm',
         tests='The tests compare a few displacements on one trajectory without stored unfolded positions.',
         mechanism=[('_setup_arrays_onebody', 'correlation.py:Correlation._setup_arrays_onebody'), ('_setup_arrays_twobody', 'correlation.py:Correlation._setup_arrays_twobody')]),
    dict(id='P15', title='Weights follow the particles, their filters and the fluctuation option',
         statement='A weight assigned to a correlation function is the requested field of the very particles that enter it, frame by frame and body by body, filters included; '
                   'with fluctuations the average over all frames of the frame averages is subtracted, also when the values of the field are integers. The field may come from another trajectory with the same steps, and is then copied particle by particle from its frames; other steps are an error. '
                   'The name of the field is appended to the tag of the output. Without field nor trajectory no weight is used.',
         over=['inputs', 'configurations'],
         forall='every trajectory, field, pair of filters, with and without fluctuations',
         tests='The tests compare one weighted structure factor without filters on the second body.',
         mechanism=[('add_weight', 'correlation.py:Correlation.add_weight'), ('_setup_weight_onebody', 'correlation.py:Correlation._setup_weight_onebody'),
                    ('_setup_weight_twobody', 'correlation.py:Correlation._setup_weight_twobody')]),
    dict(id='P19', title='Life cycle: compute, analyze, write, update and read',
         statement='Doing a calculation computes, analyzes and writes, in this order, also when the analysis lacks an optional module; with the update option an output file '
                   'newer than the trajectory is read instead and nothing is computed. compute() returns the grid and the value. Reading restores the grid and the value that writing laid out, also for a single point, '
                   'for functions of one and of two variables.',
         over=['inputs', 'histories'],
         forall='every subclass, trajectory, update flag and state of the output file',
         tests='The tests never exercise the update of existing files with functions of two variables.',
         mechanism=[('do', 'correlation.py:Correlation.do'), ('compute', 'correlation.py:Correlation.compute'), ('read', 'correlation.py:Correlation.read'),
                    ('need_update', 'correlation.py:Correlation.need_update')]),
    dict(id='P20', title='Output files: path, header and one row per grid point',
         statement='The output path is the template, given or configured when the correlation function is created, filled with symbol, names, tag and trajectory, without repeated or dangling punctuation in its last component; nothing is written when the '
                   'trajectory has no file name. The file holds the header, the comments, the analysis results of that function that exist and one row per point of the grid (of the product grid for two variables) '
                   'with the value that belongs to it.',
         over=['inputs', 'configurations'],
         forall='every trajectory name, template, tag, grid, value and analysis',
         tests='The tests only check that a few files with well behaved names exist.',
         mechanism=[('write', 'correlation.py:Correlation.write'), ('_output_file', 'correlation.py:Correlation._output_file'), ('_dump', 'helpers.py:_dump')]),
    dict(id='P21', title='Computing again gives the same result',
         statement='Calling compute() again on the same object, with the same trajectory, gives the same grid and value: no array, sum, grid or wave-vector left by the previous call enters the next one. '
                   'This holds for the time-dependent functions (mean square displacement, non-Gaussian parameter, velocity and stress autocorrelation, overlaps and their fluctuations), '
                   'the intermediate scattering functions, structure factors (weighted by a field too), spectral density, g(r), bond angles, and for their partial versions. The arrays of positions, velocities, species and weights of any other correlation function, filtered or not, are also those of a single call, and a filter added between two calls applies to the second one.',
         over=['histories'],
         forall='every trajectory and grid, and two consecutive calls',
         tests='The tests compute every function once.',
         mechanism=[('compute', 'correlation.py:Correlation.compute'), ('g(r)', 'gr.py:RadialDistributionFunctionFast._compute'), ('wave-vectors', 'fourierspace.py:FourierSpaceCorrelation._setup'), ('partial', 'partial.py:Partial.compute')]),
    dict(id='P22', title='Correlation functions accept trajectories or paths',
         statement='A correlation function built from a trajectory uses that very object; one built from a path reads the trajectory at that path in the configured format. '
                   'Its initial state is the one documented.',
         over=['inputs'],
         forall='every trajectory object or path, and grid',
         tests='The tests use one format and one trajectory.',
         mechanism=[('Correlation', 'correlation.py:Correlation.__init__')]),
    dict(id='P07', title='Intermediate scattering functions and their normalization',
         statement='The self and total intermediate scattering functions, F_s(k,t) and F(k,t), are the averages over the time origins and over the wave-vectors of each shell of the real part '
                   'of the correlations of single-particle and collective Fourier densities of the frames separated by each time. When normalized, the values at each wave-number are divided by the one at zero time, '
                   'which is always computed. Rows are ordered as the grid of wave-numbers, which are the averages over the shells, and times. The optimized variant agrees. With two filters, F(k,t) correlates the density of the first set of particles at the later time with the one of the second set at the time origin. '
                   'The default time grid is logarithmic and extends to three quarters of the total time; the number of time origins may be given as text.',
         over=['inputs', 'configurations'],
         forall='every trajectory, set of wave-vectors, time grid and number of origins, with and without normalization',
         tests='The tests compare a few values of one trajectory with default wave-vectors.',
         mechanism=[('SelfIntermediateScatteringLegacy', 'fkt.py:SelfIntermediateScatteringLegacy._compute'), ('SelfIntermediateScatteringFast', 'fkt.py:SelfIntermediateScatteringFast._compute'), ('IntermediateScattering', 'fkt.py:IntermediateScattering._compute')]),
    dict(id='P11', title='Bond angle distributions count the angles between neighbors',
         statement='The bond angle distribution of two groups of particles counts, in equal bins between 0 and 180 degrees, the angles at each particle of the first group between pairs of different neighbors in the second group: '
                   'those closer to it, with periodic boundary conditions, than the cutoff distance of their species. It is normalized to unit area over the bins, whose centers are the grid. '
                   'Without cutoff distances, the first minimum after the highest maximum of the radial distribution function of each pair of species is used.',
         over=['inputs', 'configurations'],
         forall='every trajectory in a fixed cell, bin width, number of origins and cutoff distances',
         tests='The tests compare a few bins of one trajectory.',
         mechanism=[('BondAngleDistribution', 'ba.py:BondAngleDistribution._compute'), ('_default_rcut', 'ba.py:_default_rcut')]),
    dict(id='P13', title='Partial correlations equal those of the separate species',
         statement='Partial correlation functions hold one correlation per species or per ordered pair of species, equal to the one computed separately from the particles of these species, '
                   'labelled by a tag and a description with the names of the species. The pairs in reverse order share the values of symmetric functions only. '
                   'Weights, output path, updates, analysis and writing apply to every partial function.',
         over=['inputs', 'configurations', 'histories'],
         forall='every trajectory and set of species, one- and two-body functions',
         tests='The tests compute the partials of a few functions for one binary mixture.',
         mechanism=[('Partial', 'partial.py:Partial.__init__'), ('compute', 'partial.py:Partial.compute'), ('do', 'partial.py:Partial.do')]),
    dict(id='P16', title='Wave-vectors fit the cell and belong to the requested shells',
         statement='The wave-vectors of a Fourier space correlation function are integer multiples of the smallest wave-vectors of the cell. Those of each shell are drawn, in a reproducible way and without '
                   'repetition, among those whose norm differs from the requested wave-number by less than the tolerance, which is only enlarged for empty shells; there are at most as many as requested, and each belongs to one shell. '
                   'Given wave-vectors are rounded to the closest ones compatible with the cell. The grid of wave-numbers is sorted and finally holds the average norms in each shell. The report lists the wave-vectors of every shell and their number.',
         over=['inputs', 'configurations'],
         forall='every cell, grid of wave-numbers, tolerance, number of vectors and given wave-vectors',
         tests='The tests compare a few wave-vectors of one cubic cell.',
         mechanism=[('FourierSpaceCorrelation', 'fourierspace.py:FourierSpaceCorrelation._setup'), ('_setup_grid_sphere', 'fourierspace.py:FourierSpaceCorrelation._setup_grid_sphere'),
                    ('_decimate_k', 'fourierspace.py:FourierSpaceCorrelation._decimate_k'), ('report', 'fourierspace.py:FourierSpaceCorrelation.report')]),
    dict(id='P17', title='Tabulated plane waves are the exponentials of the positions',
         statement='The tables of plane waves hold exp(i n k0 x) for each particle, axis and integer n between minus and plus the largest one, at the index shifted by that largest integer, '
                   'for one frame and for the list of all the frames.',
         over=['inputs'],
         forall='every set of positions, smallest wave-vector and largest integer',
         tests='The tests only use the tables through a few structure factors.',
         mechanism=[('expo_sphere', 'fourierspace.py:expo_sphere')]),
    dict(id='P23', title='Command line functions compute what the options ask for',
         statement='For each input file, the functions of the api module compute the correlation function they are named after, with the backend, the options and the number of time origins given by the user or their documented defaults, '
                   'and one for each species or pair of species, with the same options and backend, if there are several species. Partial functions are not computed when they are disabled or when a filter is given, '
                   'which applies to the total function; the functions with a total option compute the latter on request, with a filter or for one species only. Weights apply to total and partial structure factors. '
                   'Time grids start from zero and go from the time step to the largest time, or to the given fraction of the total time, as a linear or logarithmic grid; wave-numbers are those given or a linear grid. '
                   'Functions are updated only if asked.',
         over=['inputs', 'configurations'],
         forall='every input file and every combination of options',
         tests='The tests run the functions with a few options and do not look at the results.',
         mechanism=[(f, 'api.py:' + f) for f in ['gr', 'sk', 'ik', 'msd', 'vacf', 'fkt', 'fskt', 'chi4qs', 'alpha2', 'qst', 'qt', 'ba']]),
    dict(id='P24', title='Slices, caching and callbacks of the input trajectories',
         statement='The input trajectories of the api functions hold the frames from the first to the last one, excluded, given as indices or as fractions of the number of frames, with the given interval; '
                   'the ends are moved back to the beginning of a block if the trajectory is made of blocks. Every input trajectory is read in the given format, it is cached unless caching is disabled, '
                   'and its frames are centered in the cell and have the species layout that are asked for.',
         over=['inputs', 'configurations'],
         forall='every trajectory, first and last frame, interval and options',
         tests='The tests use whole trajectories.',
         mechanism=[('_get_trajectories', 'api.py:_get_trajectories')]),
    dict(id='P27', title='Linked cells find every pair of close particles',
         statement='The neighbors found with linked cells include every other particle closer than the cutoff distance, each pair once by default, for one set of particles or between two sets, '
                   'along periodic and non periodic directions, in two and three dimensions, also when the object is used again with another cell, set of particles or periodic directions. Asked for as an array, rows hold the same neighbors, next to their numbers.',
         over=['inputs', 'histories'],
         forall='every cell, cutoff distance not larger than a third of the side and set of positions in the cell',
         tests='The tests compare one random configuration in a cubic cell.',
         mechanism=[('LinkedCells', 'linkedcells.py:LinkedCells.compute')]),
    dict(id='P28', title='Extrema, threshold crossings and linear fits are exact',
         statement='Extrema are the vertices of the parabola through the extremal point and its neighbours (the point itself at the boundary), crossings are located by linear interpolation '
                   'between the first two points on opposite sides of the level, and linear fits give the least squares slope and intercept with their standard errors.',
         over=['inputs'],
         forall='every tabulated function (also unevenly spaced) and level',
         tests='The tests check two functions on even grids.',
         mechanism=[('ifabsmm', 'helpers.py:ifabsmm'), ('feqc', 'helpers.py:feqc'), ('linear_fit', 'helpers.py:linear_fit')]),
    dict(id='P31', title='Diffusion, relaxation times and peaks derived from the functions',
         statement='The analysis of the mean square displacement stores the time at which it first crosses sigma squared and, if at least two points lie beyond the latter, the diffusion coefficient, which is the slope of the linear fit through these points '
                   'over twice the number of dimensions. Relaxation times are those at which the self overlap first crosses 1/e and the intermediate scattering functions, at each wave-number, 1/e of their first value, or none if they do not. '
                   'The peaks of the non-Gaussian parameter and of the susceptibility are those of the parabola through the highest point, if there is one. '
                   'The analysis leaves grid and values as they are. The scattering functions also write the relaxation times, one wave-number per row in order, and the susceptibility the average and the second moment of the overlap, to files of their own.',
         over=['inputs', 'configurations'],
         forall='every grid and tabulated values of these functions',
         tests='The tests hardly look at the analysis.',
         mechanism=[('MeanSquareDisplacement.analyze', 'msd.py:MeanSquareDisplacement.analyze'), ('NonGaussianParameter.analyze', 'alpha2.py:NonGaussianParameter.analyze'), ('Chi4SelfOverlap', 'chi4t.py:Chi4SelfOverlap.analyze'),
                    ('SelfOverlap.analyze', 'qt.py:SelfOverlap.analyze'), ('_extract_tau, _write_tau', 'fkt.py')]),
    dict(id='P25', title='Compiled extensions are optional',
         statement='The package can be imported without the compiled extensions. The default names of the self intermediate scattering function and of the radial distribution function refer to the optimized variants if the extensions are available, '
                   'and otherwise to the legacy ones, with which they compute the same result; the default structure factor is the legacy one. Mean square displacements, non-Gaussian parameters, velocity autocorrelations, overlaps, susceptibilities, intermediate scattering functions, '
                   'structure factors and radial distribution functions do not need the extensions.',
         over=['configurations', 'inputs'],
         forall='with and without compiled extensions, every trajectory and parameters of these functions',
         tests='The tests run with the extensions that happen to be there.',
         mechanism=[('default names', 'gr.py, fkt.py, sk.py'), ('imports', '__init__.py and every module')]),
    dict(id='P30', title='Progress bars leave the iteration as it is',
         statement='Iterating through a progress bar gives the same items in the same order as the sequence itself, whether tqdm is installed or not and whether bars are active or not, also when iterating again or within a with statement.',
         over=['configurations', 'inputs'],
         forall='every sequence, with and without tqdm, active or not',
         tests='The tests use the bars only as they are by default, inactive.',
         mechanism=[('NoProgressBar', 'progress.py:NoProgressBar'), ('CustomProgressBar', 'progress.py:CustomProgressBar')]),
    dict(id='P29', title='Grids cover the requested range',
         statement='Linear grids have the requested number of points and include both ends, or have the requested spacing and do not exceed the end; logarithmic grids '
                   'are geometric, start at the lower end and reach the upper one.',
         over=['inputs'],
         forall='every range and number of points, and the given spacings',
         tests='The tests check a couple of ranges.',
         mechanism=[('linear_grid', 'helpers.py:linear_grid'), ('logx_grid', 'helpers.py:logx_grid')]),
    dict(id='P32', title='Variants agree within rounding errors',
         statement='The optimized variants of a correlation function (tabulated exponentials, Fortran kernels, linked cells) agree with the reference ones within the rounding errors of double precision.',
         over=['inputs'], forall='every trajectory, whatever the magnitude of the coordinates and the number of particles and frames',
         tests='The tests compare a few variants on one trajectory with a fixed tolerance.',
         mechanism=[('expo_sphere', 'fourierspace.py:expo_sphere'), ('realspace', 'realspace.f90:realspace')],
         na='The value graphs are over real numbers; the propagation of rounding errors through recurrences of exponentials and sums of any length depends on the magnitudes of the data at run time, '
            'which no sound static bound in reach limits. Agreement in exact arithmetic is decided (P05, P06, P07, P09, P10, P17, P25).'),
]
