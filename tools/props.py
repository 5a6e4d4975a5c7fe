"""The properties, their anchors and how each is decided."""
NOT_APPLICABLE = []
PROPS = [
 dict(id='C01', title='Covariance and correlation convert into each other exactly',
  statement='A covariance made from a correlation matrix and standard deviations holds, for every pair of groups, the correlation coefficient times both standard deviations (the variance on the diagonal), is exactly symmetric, and is zero wherever a group has no uncertainty. '
            'Converting a covariance back gives a symmetric correlation with a diagonal of exactly one and the original coefficients for every pair with uncertainty. None of the conversions changes the arrays it is given, and the covariance computed for loaded data keeps the group labels.',
  over=['inputs'], forall='every symmetric correlation matrix (positive definite, singular, indefinite), every size, every scale of standard deviations including zero',
  why='The unit test converts one 2x2 matrix; symmetry to the last bit, zero uncertainties, extreme scales and argument mutation are not looked at.',
  where=[('correlation_to_cov, cov_to_correlation', 'ASAPy/CovManipulation.py'), ('calc_cov of loaded data', 'ASAPy/XsecSampler.py')],
  technique='runtime oracle: independent elementwise recomputation over generated matrices', note='Random and structured matrices up to 60 groups; nothing is exhaustive.'),
 dict(id='C02', title='The modified Cholesky factorisation factors the matrix it was given',
  statement='For every symmetric matrix, the permutation, lower triangular factor and diagonal shift returned are finite, the factor has a positive diagonal, and permutation and factor together reproduce the given matrix plus a nonnegative diagonal shift on its own variables. '
            'A well conditioned positive definite matrix is not shifted at all; an indefinite one is, by an amount in proportion to the matrix. The given matrix is not changed.',
  over=['inputs'], forall='every symmetric matrix: definite, singular, indefinite, zero, badly scaled, in any variable order',
  why='The unit tests factor two fixed matrices whose order needs little pivoting; matrices of other orders, scales and signatures are not reached.',
  where=[('gmw_cholesky', 'ASAPy/CovManipulation.py')],
  technique='runtime oracle: factors multiplied back and compared with the input', note='Random matrices up to 30 variables of nine kinds.'),
 dict(id='C03', title='Every sampled variable is a Latin hypercube sample of its distribution',
  statement='For every variable with uncertainty, n samples put exactly one value in each of the n equally probable intervals of the requested distribution (normal, lognormal or uniform) with the given mean and standard deviation, whatever the correlations, the number of samples or the number of variables. '
            'Samples come as one row per sample and one column per variable from the library function and as one row per group and one column per sample from a covariance store; means, standard deviations and correlations given are not changed.',
  over=['inputs', 'configurations'], forall='all means, standard deviations, correlation matrices, sample counts (also fewer than variables, also one) and distributions',
  why='The unit tests draw a few thousand samples of one small case and compare moments loosely; strata, small counts, indefinite matrices and uniform sampling are never looked at.',
  where=[('sample_with_corr, lhs_uniform_sample, lhs_normal_sample', 'ASAPy/CovManipulation.py'), ('XsecSampler.sample', 'ASAPy/XsecSampler.py')],
  technique='runtime monitor: stratum occupancy of every sampled variable', note='Exact stratification test per variable (no statistics, no false alarms by chance); up to 400 samples and 14 variables.'),
 dict(id='C04', title='Samples have the correlation that was asked for',
  statement='The rank correlation between any two sampled variables agrees with the requested correlation (for lognormal samples, with the one of the logarithms that produces it) within the rank rounding of the sample size; correlations go to the variables they belong to, whatever the variable order, also when some variables are not sampled. '
            'Matrices that are not positive definite are sampled with the nearest repaired correlation, and the uncorrelated sample types have no correlation.',
  over=['inputs', 'configurations'], forall='all correlation matrices (definite, singular, indefinite), variable orders, distributions and subsets of sampled variables',
  why='The unit tests compare one correlation of two or three variables with wide tolerances; pivoted factorisations, subsets and the store path are not covered.',
  where=[('sample_with_corr, rank reordering', 'ASAPy/CovManipulation.py'), ('XsecSampler.sample', 'ASAPy/XsecSampler.py')],
  technique='runtime monitor: normal-score correlation of the drawn samples against the target', note='Statistical oracle; tolerance three times the largest deviation in 800 calibration runs and samples are seeded, so results are reproducible.'),
 dict(id='C05', title='Groups without uncertainty data keep their mean in every sample',
  statement='A variable whose mean is zero, whose standard deviation is zero or negligible (1e-30 or less), or whose correlation with itself is zero has exactly its mean in every sample and the relative value one, for every distribution. '
            'The other variables are sampled as if it were not there, no variable is lost or exchanged, and it is fine if none or all have uncertainty.',
  over=['inputs', 'configurations'], forall='every subset of variables without uncertainty, for every combination of the reasons, every distribution and sample count',
  why='No test has a group without uncertainty next to others; the combination of reasons is exponential.',
  where=[('sample_with_corr', 'ASAPy/CovManipulation.py'), ('sample_xsec', 'ASAPy/XsecSampler.py')],
  technique='runtime monitor: exact equality for excluded, stratification for sampled variables', note='Random exclusion patterns of up to 8 variables with all reasons and combinations.'),
 dict(id='C06', title='Relative and full sample tables agree and handle negative samples as asked',
  statement='The relative value of every group and sample times the mean is the full value; both tables have the same samples, rows labelled with the group numbers 1..G and columns 0..n-1. '
            'If negative samples are to be removed, exactly the samples with a negative value are removed and the others are kept unchanged; otherwise they are kept, or exactly the negative values are set to zero if that is asked for. '
            'With oversampling the asked number of samples is made, the bad ones removed and then cut to the number to take; if too few are left this is refused when asked to, and unknown distributions are always refused.',
  over=['inputs', 'configurations'], forall='all stores, distributions, sample and oversample counts, and options for negative samples',
  why='The existing tests of sampling need data files that are not in the repository, and would sample one nuclide.',
  where=[('sample_xsec, XsecSampler.sample', 'ASAPy/XsecSampler.py')],
  technique='runtime monitor: tables of both kinds checked against each other and the known number of negative strata', note='Exact counts through the strata of one wide variable; up to 10 groups.'),
 dict(id='C07', title='Loaded covariance data are the stored ones, normalised and repaired',
  statement='Loading a nuclide and reaction gives the stored group bounds (upper above lower whichever way the columns are named), means and standard deviations unchanged and the stored correlation normalised to a largest diagonal of one. '
            'If repair is asked for and the correlation of the groups with data is not positive definite, its negative eigenvalues are raised to a small positive number and nothing else is changed; positive definite matrices and groups without data are untouched. Nuclides or reactions the store does not have are refused.',
  over=['inputs', 'configurations'], forall='all stores: any scale, bound order, correlation signature, groups without data, same or different nuclide pairs',
  why='Existing tests need a store that is not in the repository.',
  where=[('load_zaid_mt, XsecSampler', 'ASAPy/XsecSampler.py'), ('fix_non_pos_semi_def_eigen', 'ASAPy/CovManipulation.py')],
  technique='runtime monitor: loaded tables against the stored ones and an independent eigenvalue repair', note='Up to 25 groups, 11 kinds of correlation.'),
 dict(id='C08', title='Every energy gets the value of its own group',
  statement='Mapping group values on energies gives each energy the value of the group whose lower bound is below it and whose upper bound is at or above it; the lowest group includes the lowest energy given, the highest group extends to the highest energy given (by default, its own upper bound), and energies outside get the fill value. '
            'Range ends that contradict the groups are refused; the given tables are not changed.',
  over=['inputs', 'configurations'], forall='all group structures, energy grids (on, next to, between and outside bounds) and options',
  why='The unit test maps a single three group example.',
  where=[('map_groups_to_continuous', 'ASAPy/XsecSampler.py')],
  technique='runtime oracle: definition-style reference per energy point', note='Group structures of 1-252 groups including all standard ones; points at and one ulp next to bounds.'),
 dict(id='C09', title='The covariance store keeps every table under its own key',
  statement='After any history of writing, overwriting and refused writing of tables, with the file closed and reopened in between, the store has exactly the tables last put in for each pair of nuclides and reactions, with their values and labels, and loading a pair gives its own tables and not those of another pair. '
            'Correlation tables that are not square or consistently labelled and tables whose group bounds do not decrease are refused without changing the store.',
  over=['histories', 'inputs'], forall='all histories of writes, refused writes and reopenings over colliding keys',
  why='The unit tests only construct empty tables; no test has more than one write.',
  where=[('create_corr_df, create_stddev_df, add_corr_to_store, add_stddev_to_store', 'ASAPy/AsapyCovStorage.py'), ('load_zaid_mt', 'ASAPy/XsecSampler.py')],
  technique='runtime monitor: history checked against a dictionary model', note='Random histories of 4-13 operations on a handful of colliding keys.'),
 dict(id='C10', title='boxer2mat restores exactly the compressed matrices or fails visibly',
  statement='For every valid BOXER file, whatever mix of value runs, copies of the row above, runs over row ends, value and control formats and pages it uses, the matrices and vectors boxer2mat writes are the encoded ones (as printed), symmetric where stored as one triangle, for exactly the requested data. '
            'Files with inconsistent, oversized, truncated or missing data end with an error message or nonzero status, never with a silently wrong matrix, an out-of-bounds access or undefined behaviour; the table of contents lists what is in the file.',
  over=['inputs', 'faults'], forall='all encodings of all matrices of up to the compiled size, in every page division, and every single fault in such files',
  why='The repository has one stored example; the encoder of NJOY uses only some of the encodings the format allows.',
  where=[('boxer2mat program', 'boxer2mat/boxer2mat.f')],
  technique='compiler sanitizers and bounds checks with a decoded-matrix oracle', note='Up to 800 groups; files written by an independent encoder, 16 kinds of fault.'),
 dict(id='C11', title='The covariance store gets what the matrix file says, or nothing',
  statement='Reading a matrix file gives the group bounds, cross-sections and covariances as printed in it and standard deviations that are the printed relative ones times the cross-sections. Storing it puts, under the nuclide and reaction, bounds, means, absolute and relative standard deviations (zero and 1e-7 for groups without cross-section) and the correlation: '
            'covariance over both roots of the variances, limited to the range -1 to 1, zero next to a group without variance, one on the diagonal. Entries of other nuclides and reactions stay unchanged; a later entry for the same key replaces the earlier. Files that report an error are skipped and incomplete ones refused, both without a store entry.',
  over=['inputs', 'histories'], forall='all matrix files in the layout of boxer2mat, good and broken, and all orders of processing into new and existing stores',
  why='The repository tests read one stored file.',
  where=[('read_boxer_out_matrix, process_cov_to_h5', 'ASAPy/EndfToCov.py')],
  technique='runtime monitor: store contents against the generated file', note='1-60 groups.'),
 dict(id='C12', title='NJOY input decks make every requested output from the right data',
  statement='Every deck made has well-formed cards, lets each module read a tape that an earlier module wrote for the same material and holds all the processing so far, has every requested temperature in every temperature dependent module, and saves each requested output (point-wise data as reconstructed, ACE data, covariance per temperature, nu and chi) under the name that says what it is. '
            'Group bounds, weighting (also a user given flux, for covariances, nu and chi) and reactions asked for are those in the deck, in ascending order of energy, the standard structures (3, 44, 56, 238 and 252 groups) being those of the libraries they are named after; thermal tables have the name, nuclides and kinds of atoms of their material; contradictory or incomplete requests are refused.',
  over=['inputs', 'configurations'], forall='all combinations of modules, temperatures, group structures, weights, reactions and materials',
  why='The tests make a deck or two for a default option set; the combinations are exponential and NJOY itself is not available to tests.',
  where=[('make_njoy_run, make_ace_thermal', 'ASAPy/njoy.py'), ('make_ace, make_ace_thermal', 'ASAPy/data/njoy.py')],
  technique='runtime monitor: abstract NJOY reads every deck and tracks what each tape holds', note='Random option combinations; the abstract NJOY follows contents, not physics.'),
 dict(id='C13', title='The covariance chain makes the right matrix files, and failures surface',
  statement='Running the chain on an evaluation makes exactly one matrix file for each temperature and each reaction with covariance data asked for, as well as nu and chi if asked for, and each holds the data NJOY made for it; reactions without data give no wrong file. '
            'A failure of NJOY or boxer2mat (nonzero status, missing output, unreadable file, missing program) gives an error or no file, never the data of another reaction or an earlier run; working files in temporary folders are removed and the given files are unchanged.',
  over=['inputs', 'faults', 'configurations'], forall='all selections of reactions, temperatures and group structures, and a failure at each step',
  why='The tests cannot run NJOY at all; failure handling is not tested.',
  where=[('run_cover_chain, run_program', 'ASAPy/EndfToCov.py')],
  technique='runtime monitor with fault injection: stand-in NJOY with known data and the real boxer2mat', note='Random configurations of up to 3 temperatures and 3 reactions; one failure at a time.'),
 dict(id='C14', title='ACE libraries give exactly their tables, in every format',
  statement='Reading an ACE library, as text with old or new headers (any number of comment lines) or binary, gives the tables of the file in order with the names, weight ratios, temperatures, identifier pairs, lengths, locators and numbers written there, also numbers written without an E and data that end at the end of a line or record. '
            'Asking for tables by name gives exactly those the library has, in file order, and asking for a single one it does not have is refused. Converting a text library to binary keeps every number. Nuclide identifiers give the right name, element, mass number and metastable state in both conventions.',
  over=['inputs', 'configurations'], forall='all libraries: number, order, size and header style of tables, all number formats, all selections',
  why='No test reads a library with more than one table, a binary one or one with the new header.',
  where=[('Library, get_table, ascii_to_binary, get_metadata', 'ASAPy/data/ace.py')],
  technique='runtime oracle: parsed tables against the generated library', note='1-6 tables of 1-2000 words; about 400 libraries per quick run.'),
 dict(id='C15', title='Neutron data read from ACE tables are the encoded data',
  statement='Data read from a neutron ACE table are the encoded ones: name, temperature, energy grid, every cross-section with its threshold and Q value, frame and yields, angular and energy distributions of every law with their interpolation, prompt, delayed and total nu with decay constants and delayed spectra, photon production and probability tables, with energies in eV. '
            'Negative cross-sections are read as zero, sums that are absent are made from their levels, the components of any sum are those of the ENDF sum rules that are present, and reading further tables adds their temperatures without changing what is there.',
  over=['inputs'], forall='all internally consistent tables: any mix of reactions, laws, angular formats, nu representations, photon data and header formats',
  why='The repository has no ACE file its tests could read.',
  where=[('IncidentNeutron.from_ace, add_temperature_from_ace', 'ASAPy/data/neutron.py'), ('Reaction.from_ace, fission and photon products', 'ASAPy/data/reaction.py'), ('energy and angle laws', 'ASAPy/data/energy_distribution.py'), ('angular distributions', 'ASAPy/data/angle_distribution.py'), ('probability tables', 'ASAPy/data/urr.py')],
  technique='runtime oracle: decoded data against the truth behind the generated table', note='Tables of 12-60 energies with all laws of the reader.'),
 dict(id='C16', title='Editing an ACE table changes exactly what was set',
  statement='After any history of reads, sets, repeated sets and refused sets, every cross-section, nu and fission spectrum of the editor has the values last set or else those of the file, the unadjusted values are those of the file, and exactly the reactions that were set are listed as adjusted. Values at other energies are linear interpolations. '
            'Wrong lengths, absent reactions, absent temperatures, and nu that is not tabulated are refused without a change; arrays given to or got for cross-sections are not tied to the editor.',
  over=['histories', 'inputs'], forall='all histories of editor operations on all tables',
  why='Tests of the editor need an ACE file that is not in the repository and do a single set.',
  where=[('AceEditor.get_sigma, set_sigma, get_nu_distro, get_energy', 'ASAPy/AceIO.py')],
  technique='runtime monitor: operation history against a dictionary model, checked after every step', note='Histories of 4-14 operations.'),
 dict(id='C17', title='Summed cross-sections follow their adjusted parts',
  statement='After the sum rules are applied, every sum (total, nonelastic, inelastic, absorption, fission, (n,2n) and charged particle levels) is its original value plus the changes of its adjusted parts at its own energies, with sums of sums included, a sum the table does not have standing for its parts, and nothing counted twice. '
            'Reactions that are not such sums stay as set or as in the file, also if the rules are applied again; exactly the reactions set and the sums over them are listed as adjusted.',
  over=['inputs', 'histories'], forall='all tables, with each sum present or absent, all sets of adjusted reactions and repeated application',
  why='The single test of the rules needs data that are not in the repository; presence and absence of sums multiply.',
  where=[('AceEditor.apply_sum_rules', 'ASAPy/AceIO.py'), ('SUM_RULES', 'ASAPy/data/reaction.py')],
  technique='runtime oracle: independent recursive sum model', note='Random presence of every sum; 1-3 rounds of changes.'),
 dict(id='C18', title='Adjusted fission spectra stay normalised and consistent',
  statement='Setting fission spectra gives, for every incident energy, the densities given divided by their norm, a cumulative distribution that starts at zero, ends at one and differs from the earlier one by the integrated change of the density (over the norm); energies, other reactions and unadjusted spectra stay as they are, and setting what is there changes nothing. '
            'Lists with another number of spectra or points are refused without a change.',
  over=['inputs', 'histories'], forall='all tabulated spectra, all changes that leave a positive norm, repeated sets',
  why='Tests for spectra need a data file that is not in the repository and look at one spectrum.',
  where=[('AceEditor.set_chi_distro, get_chi_distro', 'ASAPy/AceIO.py')],
  technique='runtime oracle: independent cumulative distribution', note='2-4 spectra of 2-8 points; normalisation as the code defines it (upper end of each interval).'),
 dict(id='C19', title='Written ACE files differ from the base only where replaced',
  statement='An ACE file written without changes is the base file to the byte, for both header styles and every length. After replacements exactly the numbers of the replaced arrays differ, in the number format and layout of ACE files, for as many occurrences from the first as allowed; header, order and number of words stay, and the base file is never changed. '
            'Arrays that do not occur and arrays of different lengths are refused and change nothing.',
  over=['inputs', 'histories'], forall='all files and sequences of replacements of arrays that are unique in the file, or repeated with a limit',
  why='The tests of the writer format a few numbers; whole files are never compared.',
  where=[('WriteAce', 'ASAPy/AceIO.py')],
  technique='runtime monitor: word-by-word diff of base and written file against a model', note='Arrays of three or more numbers, aligned on words; see DESIGN.md for arrays that match inside others.'),
 dict(id='C20', title='Perturbed ACE files hold base values times sampled group factors',
  statement='Every file written for a sample is the base file except that each sampled reaction has the base values times the relative value of the group each energy is in (one outside the groups, and zero stays zero), nu and fission spectra likewise (spectra renormalised), and sums follow. Nothing else in the file changes. '
            'There is one file for every sample that all reactions have, and for every reaction a table with group bounds, means, relative uncertainties and all factors; the base file is unchanged.',
  over=['inputs', 'configurations'], forall='all base files, group structures per reaction, sets of reactions and samples',
  why='End to end tests need data files that are not in the repository, and the existing ones only look that files exist.',
  where=[('write_sampled_data', 'ASAPy/XsecSampler.py'), ('AceEditor, WriteAce', 'ASAPy/AceIO.py')],
  technique='runtime monitor: every word of every file against an independent model', note='Group structures of 1-8 groups; sampled reactions are parts, nu and spectra.'),
 dict(id='C21', title='Parallel ranks write every file exactly once, from the same samples',
  statement='With any number of MPI ranks, in any order and with any delays, the ranks together write exactly the files one process would: each perturbed file once, by one rank, each sample table once, and all from the samples that the first rank drew (the ones in the tables). Ranks without work and samples that some reaction does not have are no problem.',
  over=['schedules', 'configurations'], forall='all numbers of ranks (fewer, as many, more than samples), orders of execution and delays',
  why='Tests run a single process; a file written twice or by nobody depends on the number of ranks and samples.',
  where=[('write_sampled_data, the command line', 'ASAPy/XsecSampler.py')],
  technique='runtime monitor: write log of all ranks checked offline for exactly-once, with delays injected', note='1-9 ranks in one process, 1-4 real processes through a stand-in MPI with delays and through the installed MPI.'),
 dict(id='C22', title='The sampling command makes the samples asked for, for the right reactions',
  statement='The sampling command writes numbered ACE files and a sample table per reaction, named after the nuclide of the base file, for the given reactions or all the store has for that nuclide, leaving out (and naming) those the ACE file does not have. '
            'The factors in the tables are a Latin hypercube sample of the chosen distribution (normal by default) with negative samples removed, drawn from the oversampled number and cut to the number asked for; each ACE file is the base file with the factors of its column. '
            'Fewer oversamples than samples are refused, no reactions left means no files, and base file and store are never changed.',
  over=['inputs', 'configurations'], forall='all stores, ACE files and combinations of options',
  why='No test runs the command.',
  where=[('command line, create_argparser, sample_xsec, write_sampled_data', 'ASAPy/XsecSampler.py')],
  technique='runtime monitor: written files and tables against each other, the store and the distribution', note='1-5 samples, 1-3 reactions; the PBS options are not run.'),
 dict(id='C23', title='The covariance command fills the store with the data of the evaluation',
  statement='The covariance command puts into the named (or default, by nuclide and number of groups) store in the output folder, for each reaction with covariance data in the evaluation or each one asked for, and for nu and the fission spectrum of fissionable nuclides, exactly the data NJOY made for it in the chosen group structure, temperature and weight. '
            'Other nuclides in the store stay; a reaction whose matrix cannot be made is named and left out. Reactions without covariance data, evaluations without any, and failing programs end with an error and no store.',
  over=['inputs', 'configurations', 'faults'], forall='all evaluations and combinations of options, and failures of the programs',
  why='No test runs the command; NJOY is not available to tests.',
  where=[('command line, parse_args, run_cover_chain, process_cov_to_h5', 'ASAPy/EndfToCov.py'), ('group structures', 'ASAPy/njoy.py'), ('Evaluation', 'ASAPy/endf.py')],
  technique='runtime monitor with fault injection: store contents against the known data of a stand-in NJOY', note='The real boxer2mat; NJOY physics is not covered.'),
 dict(id='C24', title='ENDF records and evaluations are read as written',
  statement='Both ENDF readers return for every record (control, head, list, one and two dimensional table, text) the numbers, integers, regions and text of its columns, in every number format of evaluations, and take exactly the lines of that record from the stream; a compact correlation matrix comes out symmetric, with ones on the diagonal and each stored integer moved half a unit away from zero. '
            'All evaluations of a tape are found, each with its own sections, directory, target, library, sublibrary and description; files opened by the caller stay open.',
  over=['inputs'], forall='all sequences of records and tapes of evaluations, compact matrices of 2-5 digits',
  why='Tests read single numbers; columns, continuation rows and several materials per tape are not covered.',
  where=[('get_cont_record, get_tab1_record, get_list_record, Evaluation, get_evaluations', 'ASAPy/endf.py'), ('get_intg_record and the same', 'ASAPy/data/endf.py')],
  technique='runtime oracle: records read back against the values printed in the generated stream', note='Streams of 3-10 records, tapes of 1-4 materials; six digit compact matrices are left out, see DESIGN.md.'),
 dict(id='C25', title='Tabulated functions interpolate, integrate and add as their laws say',
  statement='A tabulated function gives at any argument (number, list, float or integer array) the value its interpolation law says for that region, its end values at the ends, the upper value at a step and zero outside; its integral is the area under that curve to each point. '
            'Sums of linear tables and polynomials are their sum at the union of the points (other laws are refused), piecewise and combined functions act part by part, and all come back the same from HDF5. '
            'Linearising a function keeps every initial point and adds points until the middle of each interval is within the tolerance; thinning keeps the ends and zeros and removes only points that interpolation gives back within the tolerance.',
  over=['inputs'], forall='all tables, regions, laws, arguments and tolerances (arguments within 1e-5 of the ends count as the ends)',
  why='No test evaluates or integrates a table with more than one law.',
  where=[('Tabulated1D, Polynomial, sum_functions, Regions1D, Combination, Sum', 'ASAPy/data/function.py'), ('linearize, thin', 'ASAPy/data/grid.py')],
  technique='runtime oracle: independent interpolation and quadrature', note='2-40 points, 1-6 regions; arguments are finite.'),
 dict(id='C26', title='Neutron data come back from HDF5 as they were stored',
  statement='Neutron data read from ACE tables and exported to HDF5 come back with the same nuclide, temperatures, energy grids, cross-sections, Q values, frames, products, yields, energy and angle distributions (isotropic ones possibly as tables), probability tables, total nu and fission energy release with its totals, for every temperature, also when exported again. '
            'Sums that are not stored are made again from the parts that are, each counted once and marked redundant; the components of a sum are the reactions there at its lowest level. Every reaction is labelled with the name of its MT number.',
  over=['inputs', 'histories'], forall='all neutron tables of the ACE reader, numbers of temperatures and generations of files',
  why='No test exports or reads HDF5 data.',
  where=[('IncidentNeutron.export_to_hdf5, from_hdf5, get_reaction_components', 'ASAPy/data/neutron.py'), ('Reaction.to_hdf5, from_hdf5', 'ASAPy/data/reaction.py'), ('Product', 'ASAPy/data/product.py'), ('distributions', 'ASAPy/data/energy_distribution.py'), ('FissionEnergyRelease', 'ASAPy/data/fission_energy.py')],
  technique='runtime oracle: reloaded data against the truth behind the generated table', note='One to three temperatures, one or two generations of files.'),
 dict(id='C27', title='Resonance parameters give the cross-sections of their formalism',
  statement='Resonance data of an evaluation (single- and multi-level Breit-Wigner, Reich-Moore, R-matrix limited, the three unresolved cases, scattering radius only) are read with every parameter, radius, spin and range of the file. '
            'Elastic, capture and fission cross-sections reconstructed from Breit-Wigner and Reich-Moore parameters are those of the ENDF-102 formulas at every energy (with level shifts, penetrabilities, competitive widths, spins and channel spins, energy dependent radii), for single energies, arrays and integers, without touching memory outside the data; changing a copy of a range does not change the original. '
            'A cross-section with background is the background plus the resonances, inside the resolved ranges only (at the common end of two ranges only one of them counts).',
  over=['inputs'], forall='all resonance parameters with spins that exist, l up to 4, all energies above zero',
  why='No test reads or reconstructs resonances.',
  where=[('Resonances, MultiLevelBreitWigner, ReichMoore, RMatrixLimited, Unresolved', 'ASAPy/data/resonance.py'), ('reconstruct_slbw, reconstruct_mlbw, reconstruct_rm', 'ASAPy/data/reconstruct.pyx'), ('ResonancesWithBackground', 'ASAPy/data/function.py'), ('IncidentNeutron.from_endf', 'ASAPy/data/neutron.py')],
  technique='runtime oracle: independent ENDF-102 formulas; address and undefined-behaviour sanitizers on the compiled code', note='The extension is compiled from the tree, as in the build; 1-8 resonances per l.'),
 dict(id='C28', title='Neutron data of an ENDF evaluation are those of its files',
  statement='Reading an evaluation gives, for every reaction of file 3, its cross-section, Q value and products: angular distributions of file 4, all energy laws of file 5 with their probabilities, products, yields and distributions of file 6, level kinematics, activation products of files 8 to 10 and photons of files 12 and 13 with their energies; the frame is that of file 6, else 4, else (file 5) the laboratory; neutrons of files 4 and 5 have the number of the reaction as yield ((n,2n): 2); phase space has the mass and the Q value. '
            'Fission has prompt (or total) nu and as many delayed groups as there are decay constants, each with its own constant, spectrum and yield (delayed nu times group fraction); partial fission without own spectra takes those of fission. The fission energy release of file 1 follows its coefficients, tables or the Sher-Beck formula, and its totals and Q values are the sums of the parts; that of another nuclide or isomer is refused. Angular tables with several interpolation regions, delayed group constants that depend on energy and polynomial delayed nu with group fractions that do are refused (NotImplementedError). Nuclide name, mass and isomeric state are those of the header.',
  over=['inputs'], forall='all evaluations of these files (charged particle elastic scattering, energy dependent decay constants and files 14 and 15 are not read)',
  why='No test reads an evaluation.',
  where=[('IncidentNeutron.from_endf', 'ASAPy/data/neutron.py'), ('Reaction.from_endf and helpers', 'ASAPy/data/reaction.py'), ('AngleDistribution.from_endf', 'ASAPy/data/angle_distribution.py'), ('from_endf of the laws', 'ASAPy/data/energy_distribution.py'), ('from_endf', 'ASAPy/data/correlated.py'), ('from_endf', 'ASAPy/data/kalbach_mann.py'), ('from_endf', 'ASAPy/data/fission_energy.py')],
  technique='runtime oracle: data read back against the values printed in the generated evaluation', note='1-5 reactions per evaluation.'),
 dict(id='C29', title='Resonance covariances are read as written and sampled as they say',
  statement='The covariances of resonance parameters of an evaluation (file 32, general, compact and compatible format, one or several blocks, ranges and l-values, Breit-Wigner or Reich-Moore) are those of the file, in the order of its resonances, with the orbital momentum and competitive width of file 2. '
            'A subset by bounds on a parameter has exactly the resonances within them and their covariances, also as subset of a subset. Samples are ranges that can be reconstructed: parameters with covariances have the mean, uncertainties and correlations of the file, whatever their size, parameters without stay as they are, total widths are the sum of the widths; neither changes the original.',
  over=['inputs', 'histories'], forall='all resonances with different energies given in both files, 1-5 parameters per resonance; long-range covariances and R-matrix limited ones are not read',
  why='No test reads, cuts or samples resonance covariances.',
  where=[('ResonanceCovariances.from_endf, ResonanceCovarianceRange.subset, sample', 'ASAPy/data/resonance_covariance.py'), ('IncidentNeutron.from_endf', 'ASAPy/data/neutron.py')],
  technique='runtime oracle: independent writer of file 32; statistical monitor of whitened samples', note='Up to 40 resonances; 300-600 samples per case with limits of 7-9 standard deviations.'),
 dict(id='C30', title='Decay data and fission yields are those of the evaluation',
  statement='Reading a decay evaluation gives the nuclide (name, state, mass, spin, parity, stability), half-life and decay constant with uncertainty, all average energies, every decay mode with its steps, energy, branching ratio and daughter (changes in Z and A of all steps, its isomeric state), '
            'and for every type of radiation its normalisations, discrete lines (energy, intensity, origin, positron and conversion data) and continuous spectrum with covariances, as printed and as often as it is looked at. Modes with negative or uncertainty-less energies or branching ratios are refused. Fission product yields, independent and cumulative, are those printed for each energy and product, metastable ones apart.',
  over=['inputs'], forall='all decay (MF8 MT457) and fission yield (MT454, MT459) evaluations',
  why='No test reads decay data.',
  where=[('Decay, DecayMode, get_decay_modes, FissionProductYields', 'ASAPy/data/decay.py')],
  technique='runtime oracle: data read back against the values printed in the generated evaluation', note='0-6 modes, up to 5 spectra with 8 lines, up to 79 products at 4 energies.'),
 dict(id='C31', title='Thermal scattering tables are read as written and survive HDF5',
  statement='A thermal scattering ACE table gives the inelastic and elastic cross-sections, the outgoing energies (discrete equal or skewed, or continuous) and cosines for each incident energy that are in it; coherent elastic scattering is the sum of the structure factors of the Bragg edges below the energy divided by the energy, and zero up to the first edge. '
            'The material has the name given, the standard name of the table or one made of it, its nuclides are those of the table (natural elements in full), several temperatures are kept apart (of the same material only), and export to HDF5 (also with other materials in the file) and reading back changes nothing; files of another format version are refused.',
  over=['inputs', 'histories'], forall='all thermal tables of the ACE format, numbers of temperatures and generations of files',
  why='No test reads thermal scattering data.',
  where=[('ThermalScattering, CoherentElastic, get_thermal_name', 'ASAPy/data/thermal.py')],
  technique='runtime oracle: data read back against the truth behind the generated table', note='Up to 40 incident energies, 20 cosines, three temperatures.'),
 dict(id='C32', title='Windowed multipole data give the cross-sections of their poles',
  statement='Scattering, absorption and fission cross-sections of windowed multipole data are, at 0 K, the sum of the poles of the window and its polynomial in the square root of the energy, and at any other temperature their Doppler average (polynomials only where the window says so); '
            'both ends of the energy range belong to it, cross-sections outside are zero, and arrays, lists, integers and single energies agree whatever comes first. Data of wrong shape or type are refused, and export to HDF5 and reading back changes nothing.',
  over=['inputs'], forall='all windowed multipole data, energies and temperatures within 0 to 20000 K',
  why='No test evaluates multipole data.',
  where=[('WindowedMultipole, _faddeeva, _broaden_wmp_polynomials', 'ASAPy/data/multipole.py')],
  technique='runtime oracle: independent Faddeeva expansion and numerical Doppler integrals', note='1-40 windows, 0-400 poles, 3-14 polynomial terms.'),
 dict(id='C33', title='Nuclide names, masses, water density and library lists are right',
  statement='Names of nuclides and (Z, A, state) go into each other without loss and other text is refused. Atomic masses are those of the AME2012 table, also for metastable states; natural abundances of each element add up to one and give its standard atomic weight, elements without natural isotopes are refused. '
            'The density of water is that of IAPWS-IF97 region 1, with a warning outside of liquid water and none inside. A data library remembers path, type and materials of every file registered and, written to XML anywhere and read back from any current folder, points to the same files; a material is found in the first file that has it.',
  over=['inputs', 'histories'], forall='all nuclides, elements, temperatures and pressures, and sets of files and folders',
  why='No test looks at names, masses or libraries.',
  where=[('atomic_mass, atomic_weight, water_density, gnd_name, zam', 'ASAPy/data/data.py'), ('DataLibrary', 'ASAPy/data/library.py')],
  technique='runtime oracle: independent parse of the mass table, published reference values, files on disk', note='All 3300 nuclides of the table; 0-8 files per library.'),
 dict(id='C34', title='Photon data are those of the evaluation or table, and are stored whole',
  statement='Reading photoatomic and atomic relaxation evaluations (files 23, 27, 28) or photoatomic ACE tables of the old and new format gives each reaction with its cross-section, form factors and anomalous factors, and each subshell with binding energy, electrons, fluorescence yield and transitions (shells, energy, probability), as printed; '
            'Compton profiles, stopping powers and bremsstrahlung are those of the element in the files of the tree. Written to HDF5, all reactions of an element are on the union of their energies (at a step the upper value), subshells from their first energy on, the form factor with its integral over the squared argument, and nothing is missing or mixed up between elements in one file.',
  over=['inputs', 'histories'], forall='all elements and photoatomic evaluations and tables',
  why='No test reads photon data.',
  where=[('IncidentPhoton, PhotonReaction, AtomicRelaxation', 'ASAPy/data/photon.py')],
  technique='runtime oracle: data and HDF5 files read back against the truth behind generated evaluations and tables', note='Up to 10 subshells with 12 transitions each, 25 points per cross-section.'),
 dict(id='C35', title='Data made by running NJOY are those of the tables NJOY wrote',
  statement='IncidentNeutron.from_njoy and ThermalScattering.from_njoy give, for each temperature asked for (room temperature, or all of the evaluation, if none is given), what is in the table NJOY made for it, named as the nuclide (the first metastable state too) or material; neutron data also have elastic scattering at 0 K from the pointwise file and the fission energy release of the evaluation if it has one. '
            'Heating, probability tables and tolerance are as asked for. A failing NJOY is an error that has its status and all it printed, and neither success nor failure leaves files behind. The program gets exactly the deck and the tapes given, each tape it made that was asked for is where it was asked for, what it prints is shown if asked for, and files given are not changed.',
  over=['inputs', 'crash points'], forall='all evaluations, temperatures, options and ends of the NJOY process',
  why='No test runs NJOY.',
  where=[('IncidentNeutron.from_njoy', 'ASAPy/data/neutron.py'), ('ThermalScattering.from_njoy', 'ASAPy/data/thermal.py'), ('run, make_ace, make_ace_thermal', 'ASAPy/data/njoy.py')],
  technique='runtime oracle: stand-in NJOY that interprets the deck and hands out known tables; data compared with them; folders watched', note='1-4 temperatures; failures before, after and by signal.'),
 dict(id='C36', title='Plots show the data of store, base file and samples',
  statement='The plots of a sampled reaction (--make_plots, or --plot-only, which writes nothing else) are four files per reaction, named after nuclide and reaction: in each group of the store the variance of the store and of the samples; the cross-section of the ACE file (yield, or first fission spectrum) with up to ten samples of it, each the base times the factor of the group; '
            'the correlation of the store next to that of the samples (or the size of their difference), each pair of groups in its place, with colours from -1 to 1 or over the range of the values; and the cross-section with the relative deviation in per cent per group. This holds from one group and one sample on; samples, store and files are not changed, and no figure stays open.',
  over=['inputs', 'configurations'], forall='all stores, ACE files, samples and plot options',
  why='No test draws a plot, and what is in an image is not asserted anywhere.',
  where=[('plot_sampled_info, plot_xsec, get_mt_from_ace', 'ASAPy/XsecSampler.py')],
  technique='runtime monitor: contents of every figure recorded as it is saved, compared with store, samples and base file', note='1-8 groups, 1-20 samples; a few images are really drawn.'),
 dict(id='C37', title='Elastic scattering at 0 K is what the evaluation reconstructs',
  statement='IncidentNeutron.add_elastic_0K_from_endf gives the data energies and elastic cross-section at 0 K: at each point background plus resonances of the resolved range or ranges, from the lower to the upper end, with every resonance in it, however narrow or ordered, and its wings; or the whole tabulated cross-section if there are no resolved resonances. Between the points it is linear within the tolerance; whatever is linearized or thinned (grid.linearize, grid.thin) stays within the tolerance asked for, relative to the value. '
            'Elastic scattering at 0 K already there is refused unless overwriting is asked for, R-matrix limited data are refused, and then nothing has changed. Other temperatures and reactions stay as they were, and export to HDF5 and reading back keeps the data.',
  over=['inputs', 'histories'], forall='all evaluations and neutron data of the same nuclide',
  why='No test reconstructs cross-sections.',
  where=[('IncidentNeutron.add_elastic_0K_from_endf', 'ASAPy/data/neutron.py'), ('linearize, thin', 'ASAPy/data/grid.py'), ('ResonancesWithBackground', 'ASAPy/data/function.py')],
  technique='runtime oracle: independent resonance formulas plus background at the points, between them and at all resonances', note='Up to 3 orbital momenta with 3 resonances each, two ranges.'),
 dict(id='C38', title='Batch jobs do what the sampling command was asked for',
  statement='With --writepbs the sampling command hands over one job (sample_xsec.sh) and samples nothing itself, also before ACE file and store exist. The job, run in that folder, makes the same files as the command with the same options run directly: reactions, number of samples and oversamples, distribution, plots or plots only, whatever the paths are. '
            'It runs on as many processes as asked for (MPI above one), waits for the job given and for none otherwise, and is submitted once with --subpbs, after it was written, and not without.',
  over=['configurations'], forall='all options and paths of the sampling command',
  why='No test writes a batch job.',
  where=[('main block: writepbs, subpbs, waitforjob', 'ASAPy/XsecSampler.py')],
  technique='runtime monitor: recorded job run by a shell, its files compared with those of the direct run at the same random numbers', note='Helper that writes jobs, qsub and mpiexec are recording stand-ins.'),
 dict(id='C39', title='Data objects compare by value',
  statement='Two objects of the data classes (neutron, photon, thermal, multipole and decay data, fission yields, reactions, products, distributions, functions, ACE tables and libraries, library lists) are equal if, and only if, they are of the same kind and hold the same: the same data read twice or copied are equal, '
            'and with any number, uncertainty, text, element, key or object inside that differs, however deep, they are not. The comparison gives true or false for any two objects, never an error, the same whichever comes first, and != is its opposite.',
  over=['inputs'], forall='all data objects (without resonance parameters) and single changes in them',
  why='No test compares data objects.',
  where=[('EqualityMixin', 'ASAPy/data/mixin.py')],
  technique='runtime oracle: objects recorded from readers under the workloads of other checks, read again, copied, and changed in one place', note='Up to three objects per class and source, four changes each.'),
 dict(id='C40', title='Data objects keep valid values and refuse others',
  statement='Every attribute of the data classes (distributions, functions, products, reactions, nuclides, photon, decay, multipole data) and argument of their constructors takes any value of the documented kind as it is, and refuses with TypeError or ValueError what is of another kind, holds an element of another kind, or is outside of its limits '
            '(zero itself where it is not allowed); then all attributes are as before. Checked lists hold only elements of their types, added in any of the ways append, insert and +, and are sums in the right order. Objects made anew have the documented defaults and share nothing. Identifiers handed out are never in use or reserved. HDF5 files of another type or another major version than asked for are refused. Distributions written as XML have their kind, numbers (exactly) and interpolation.',
  over=['inputs', 'histories'], forall='all attributes that can be set, and values',
  why='No test sets an attribute to something that is not valid.',
  where=[('check_type, check_value, check_greater_than, CheckedList', 'ASAPy/data/checkvalue.py'), ('IDManagerMixin', 'ASAPy/data/mixin.py'), ('to_xml_element', 'ASAPy/data/univariate.py'), ('property setters', 'ASAPy/data')],
  technique='runtime oracle: table of documented kinds per attribute, valid and invalid values generated from it, state compared before and after', note='Constructor of Tabulated1D (which converts) and extend or item assignment of checked lists are left out.'),
]
