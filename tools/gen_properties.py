"""Writes properties.jsonl (the table below is the single source)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, B, P, F, A, AC, FO, FI, C, X, M, CA, BA, CL = ('surfalize/surface.py surfalize/base.py surfalize/profile.py surfalize/file/common.py '
    'surfalize/abbottfirestone.py surfalize/autocorrelation.py surfalize/fourier.py surfalize/filter.py surfalize/cache.py '
    'surfalize/plotting.py surfalize/mathutils.py surfalize/cache.py surfalize/batch.py surfalize/cli.py').split()
FMT = 'surfalize/file/'
R = []


def p(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    assert len(title) <= 80, title
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])
    if state:
        anchors['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        anchors['observe_at'] = observe
    R.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=anchors))


p('C01', 'A parameter never reflects an earlier state of the object',
  'Whatever was computed before, every parameter, curve and derived object that is read from a surface or profile equals what a fresh object built from the same height data and step sizes reports. This holds after any sequence of reads, in-place operations, element assignments and replacements of the data.',
  ['histories', 'inputs'], 'all histories of reads (with any arguments) interleaved with in-place operations, element assignments and data replacements, on all surfaces and profiles',
  'The tests read each parameter once on a fresh object; staleness needs a read, a particular mutation and a second read, for every pair of parameter and mutation.',
  [CA, B, S, P, A, AC, FO],
  [('per-instance result cache keyed by method and arguments', CA + ':cache, CachedInstance'), ('invalidation on mutation', B + ':BaseSurface.__setitem__, data setter; ' + S + ':Surface._set_data'), ('cached sub-objects (material ratio curve, ACF, Fourier transform)', S + ':get_abbott_firestone_curve, get_autocorrelation_function, get_fourier_transform')],
  [('_CachedInstance__cache', 'results of cached methods per argument tuple', CA + ':CachedInstance')], [S + ':every parameter method', P + ':every parameter method'])
p('C02', 'Reads, copies, plots and saving leave the object untouched and unshared',
  'Reading parameters, plotting, saving and calling an operation that does not work in place leave the height data, step sizes, extents, image layers and metadata of the object exactly as they were. An object, array or dictionary that such a call returns shares no mutable state with its source: editing either one later never changes the other.',
  ['inputs', 'histories'], 'all operations, reads, plots and writers on all surfaces/profiles, followed by arbitrary edits of either object',
  'Aliasing is invisible until one of the two objects is edited afterwards; no test edits a result and looks at its source.',
  [S, P, B, C, FMT + 'sflz.py'], [('copy semantics of inplace=False', S + ':zero, center, crop, zoom, level, filter, ...'), ('dictionaries and arrays handed out', B + ':height_parameters; ' + FO + ':angular_power_spectrum')],
  [('data', 'height samples', S + ':Surface.data')], [S, P])
p('C03', 'In-place and copying calls agree and rejected calls change nothing',
  'For every operation, calling it in place leaves the object in exactly the state of the object that the copying call returns, returns that same object, and fails in exactly the same cases. A call that is rejected with an error leaves heights, step sizes and extents as they were.',
  ['inputs', 'histories', 'fault_sequences'], 'all operations with valid and invalid arguments on all surfaces/profiles, including sequences of operations',
  'Tests call most operations once with inplace=True or False and compare with stored values; agreement of both modes and atomicity under failure are relations over all arguments.',
  [S, P, B, FI], [('inplace flag of every operation', S + ':operations; ' + P + ':operations; ' + FI + ':GaussianFilter.apply')], None, [S, P])
p('C04', 'Cropping, zooming and slicing return exactly the requested region',
  'The result of cropping, zooming or slicing contains exactly the samples of the requested region (both box edges included) in their original order and orientation with unchanged heights, and its step sizes follow from the region. After any operation the physical extents equal (number of points - 1) times the step size along each axis, and regions outside of the surface are rejected.',
  ['inputs', 'histories'], 'all boxes, zoom factors and slices (steps, negative steps, unequal step sizes) on all surfaces and profiles',
  'The tests use one surface with equal step sizes and a few boxes; off-by-one, axis swaps and negative slices need other geometries.',
  [S, P, B], [('region of interest', S + ':crop, zoom, __getitem__; ' + P + ':__getitem__'), ('extents from shape and step', S + ':_recalculate')],
  [('width_um, height_um, step_x, step_y, size', 'geometry derived from the data', S + ':Surface')])
p('C05', 'Height parameters and statistics equal their ISO definitions',
  'Sa, Sq, Sp, Sv, Sz, Ssk, Sku and the profile counterparts (Ra, Rq, Rp, Rv, Rz, Rt, Rsk, Rku ...) equal their definition about the mean plane or line for any finite heights, whether they are read one by one or through the summary dictionaries. The basic statistics (min, max, mean, median, std, ...) equal those of the sample values.',
  ['inputs'], 'all finite height maps and profiles of any size, aspect, offset and scale', 'Tests compare one surface with stored numbers; those cannot distinguish formulas that agree there (sign conventions, centring, sampling lengths, offsets).',
  [B, S, P], [('height parameters', B + ':height parameter methods; ' + P + ':profile parameters'), ('dictionaries', B + ':height_parameters; ' + S + ':roughness_parameters')])
p('C06', 'Surface area, developed ratio and RMS gradient equal the mesh geometry',
  'The surface area equals the area of the triangulated height map, the developed interfacial ratio relates it to the projected area, and the RMS gradient equals that of the finite differences, for any heights and any (also different) step sizes in x and y. Tilted planes give their analytic values, and the results are unaffected by an offset, by swapping the axes and by the choice of the length unit.',
  ['inputs'], 'all height maps, step sizes in x and y, profiles', 'The only test surface has equal step sizes, which hides every confusion of the axes.',
  [S, P], [('surface_area, projected_area, Sdr, Sdq', S + ':surface_area, projected_area, Sdr, Sdq'), ('Rdq', P + ':Rdq')])
p('C07', 'Material ratio curve, functional and volume parameters are consistent',
  'The material ratio curve, Sk/Spk/Svk, Smr1/Smr2, Smr(c), Smc(p), Sxp, Sdc and the void and material volumes equal those of the curve of the sample heights, also for tied, two-level and outlier-ridden heights. Smr and Smc are monotone inverses of each other, and the volumes fulfil their defining relations and scale with the heights.',
  ['inputs'], 'all height distributions, all material ratios and heights passed as arguments', 'Stored values of one smooth surface do not exercise ties, plateaus, arguments at the ends of the curve or other thresholds.',
  [A, B], [('curve, equivalence line, areas', A + ':AbbottFirestoneCurve'), ('parameters', B + ':Sk, Spk, Svk, Smr, Smc, Vmp ... (functional and volume parameters)')])
p('C08', 'Autocorrelation, Sal and Str equal their definition for any geometry',
  'The autocorrelation function equals that of the heights about their mean, and Sal and Str equal the shortest decay length and the ratio of shortest to longest decay length of its central peak at the given threshold, for any shape and any step sizes. Gratings give their analytic decay length, and both parameters behave like a length and a ratio when the axes are swapped or the units are changed.',
  ['inputs'], 'all height maps, step sizes and thresholds', 'One test surface with one threshold and equal steps.',
  [AC, S], [('ACF', AC + ':AutocorrelationFunction'), ('Sal, Str', AC + ':Sal, Str; ' + S + ':Sal, Str')])
p('C09', 'Spectral results identify the dominant period and direction',
  'Period, period along x and y, texture direction and orientation describe the strongest periodic component of the surface, whatever its direction, the shape of the map and the step sizes; the angular power spectrum attributes the spectral power to the direction it comes from. Orientation and period of ideal gratings are recovered within the resolution of the transform.',
  ['inputs'], 'all gratings and random surfaces (direction, period, aspect, step sizes, noise)', 'Tests hold stored values for one surface.',
  [FO, S, M], [('peak search', FO + ':FourierTransform'), ('orientation incl. refinement', S + ':orientation'), ('angular power spectrum', FO + ':angular_power_spectrum')])
p('C10', 'The Gaussian filter transmits 50 % at the cutoff on every geometry',
  'High-pass and low-pass results of the same cutoff add up to the unfiltered heights, the low-pass result is the Gaussian-weighted mean with the ISO 16610 weights of the cutoff measured in physical units along each axis, and a wave at the cutoff keeps half its amplitude. Band-pass results are the composition of the two, and surfaces and profiles are treated alike.',
  ['inputs', 'configurations'], 'all heights, cutoffs, end-effect modes, step sizes, surfaces and profiles', 'Tests compare a few stored parameter values on one surface with equal steps.',
  [FI, S, P], [('kernel and application', FI + ':GaussianFilter'), ('filter method', S + ':filter; ' + P + ':filter')])
p('C11', 'Levelling and detrending remove exactly the fitted form',
  'The levelled or detrended surface plus the returned trend equals the input, the trend is the least-squares plane or polynomial of the requested degree over the measured points, and a surface that is such a form becomes flat. This holds with non-measured points, any shape and any step sizes, and levelling a second time changes nothing.',
  ['inputs'], 'all heights, masks of non-measured points, degrees, shapes and step sizes', 'One fully measured surface with stored results.',
  [S, P, M], [('level, detrend_polynomial', S + ':level, detrend_polynomial; ' + P + ':level, detrend_polynomial'), ('fits', M + ':polynomial fit helpers')])
p('C12', 'Non-measured points are never silently turned into numbers',
  'Parameters and filters that are not defined for non-measured points refuse surfaces that contain them, operations that accept them keep exactly the set of non-measured points, and statistics ignore them. Outlier removal and thresholding only add non-measured points, exactly at the samples that meet their criterion, and filling only changes the non-measured points and leaves none.',
  ['inputs', 'configurations'], 'all masks of non-measured points on all surfaces, all operations, parameters, thresholds', 'Tests hold a few examples of refused calls and a single mask.',
  [S, B, P, 'surfalize/utils.py'], [('guards', 'surfalize/utils.py:no_nonmeasured_points; ' + S), ('fill_nonmeasured, remove_outliers, threshold', S)])
p('C13', 'A saved surface loads back with the same heights and steps',
  'Saving a surface in any writable format and loading it again gives the same shape, step sizes and heights within the resolution of the format, non-measured points included where the format has them, for every format option. Formats that store floating point numbers preserve them to the stored precision, formats whose writer stores image layers (sflz) or texts and dates (sur, sdf, tmd) return them, and loaded surfaces are ordinary surfaces that can be edited.',
  ['inputs', 'configurations'], 'all surfaces (shape, offset, scale, holes, constant heights), all writable formats and options', 'Tests save one surface per format with the default options.',
  [FMT + x for x in ('sur.py', 'sdf.py', 'al3d.py', 'tmd.py', 'sflz.py', 'common.py')], [('writers', FMT + '{sur,sdf,al3d,tmd,sflz}.py:write_*'), ('readers', FMT + '{sur,sdf,al3d,tmd,sflz}.py:read_*'), ('entry points', S + ':save, load')])
p('C14', 'Readers decode a file to the heights and steps it encodes',
  'Loading a well-formed file of any readable format gives the heights in micrometres, the step sizes, the orientation, the non-measured points and the image layers the file encodes, for every size, unit, data type and byte content. A path and a buffer with the same content give the same surface, whatever options are passed.',
  ['inputs', 'configurations'], 'all well-formed files of every readable format (sizes, units, data types, missing points)', 'The example files are absent offline and hold one sample per format; tests look at shape and steps.',
  [FMT + x for x in ('plu.py', 'plux.py', 'fits.py', 'gwy.py', 'opd.py', 'os3d.py', 'vk.py', 'x3p.py', 'xyz.py', 'zmg.py', 'nms.py', 'dat.py', 'cag.py', 'sur.py')], [('readers', FMT + '*.py:read_*'), ('layout helpers', FMT + 'common.py:Layout, Entry, read_array')])
p('C15', 'The file format is chosen as documented',
  'A file is loaded with the explicitly requested format, else with the one of its suffix in any letter case; if that reader finds that the content is of another format, the format is identified from the content with a warning, and a file without a recognisable format is refused with the documented error. Buffers are identified by content. Saving uses the requested format or the suffix in any letter case, and identifying and reading a buffer leaves it at the position where it was, also if the attempt fails.',
  ['inputs', 'configurations', 'histories'], 'all combinations of content, suffix, letter case, explicit format and buffer position', 'Tests use matching suffix and content only.',
  [F, S, FMT + 'common.py'], [('format detection', F + ':FileHandler, get_format_from_content, read_magic'), ('load/save', S + ':load, save')])
p('C16', 'Damaged files are refused without hanging or exhausting memory',
  'Loading a truncated, bit-flipped or otherwise damaged file, or one whose header claims absurd dimensions, ends in bounded time and memory with a Python exception or a well-formed surface. A truncated file of a format with a declared size never loads as a surface of another size or with other heights, and data stored with a checksum (compressed sur and sflz data, members of zip archives) are never loaded with other heights after they were damaged.',
  ['inputs', 'fault_sequences'], 'all truncations, byte flips, header edits and splices of files of every format', 'Tests hold no damaged files.',
  [FMT + 'common.py', FMT + 'fits.py', FMT + 'sdf.py', FMT + 'gwy.py', FMT + 'opd.py'], [('readers', FMT + '*.py:read_*'), ('errors', 'surfalize/exceptions.py')])
p('C17', 'A batch gives exactly the results of the single-surface API',
  'Executing a batch returns exactly one row per input file (in input order when executed sequentially), whose values equal those of applying the same operations in the chained order and then evaluating the same parameters on the file loaded on its own. The set of rows is independent of threading, timing and repetition of the execution, every operation and parameter is applied exactly once per file with its own arguments, and additional data are joined to the row of the file they name.',
  ['schedules', 'inputs', 'configurations', 'histories'], 'all sets of files, chains of operations and parameters, thread schedules and repeated executions', 'Tests run a small chain over copies of one file without looking at schedules.',
  [BA], [('execution of the steps of one file', BA + ':_task, _Operation, _Parameter'), ('scheduling and collection of rows', BA + ':Batch.execute, _disptach_tasks, _construct_dataframe'), ('method registration', BA + ':Batch._create_batch_method; surfalize/utils.py')], None, [BA + ':Batch.execute'])
p('C18', 'Errors inside a batch are confined to their file or reported',
  'With errors ignored a parameter that fails with a calculation error leaves a missing value for that parameter and file only and every other value is as if nothing had failed; without it, and for failing operations or unreadable files in either mode, the error is raised and no incomplete result is returned. Invalid batches (nothing to do, duplicate or unknown names, missing inputs, malformed additional data) are reported as errors, and a batch can be executed again after a failure.',
  ['fault_sequences', 'schedules', 'inputs'], 'all positions and kinds of failing operations, parameters and files', 'Tests cover single error cases.',
  [BA], [('error policy', BA + ':_task, _Parameter.calculate_from, _CustomParameter'), ('failure of a worker', BA + ':Batch._disptach_tasks'), ('validation', BA + ':Batch.__init__, custom_parameter, execute')])
p('C19', 'Parameters in file names are extracted as the template states',
  'For every template and every file name built from it, the extracted values equal the values the name was built from, converted to the declared type with prefix, suffix and decimal separator handled as declared. Values that cannot be extracted from a file name are missing or refused with an error, never wrong.',
  ['inputs'], 'all templates (tokens, types, prefixes, suffixes, literals) and values', 'Tests check a few templates.',
  [BA], [('template parser and regex', BA + ':FilenameParser, _Token')])
p('C20', 'Unit conversions are exact and consistent',
  'Converting a value between length units multiplies it by the ratio of the units for every pair of supported units and spelling, and unknown units are refused. Files that state their units give the same surface whatever unit they use.',
  ['inputs', 'configurations'], 'all pairs of units, spellings and values', 'Tests check a few pairs.',
  [FMT + 'common.py', FMT + 'dat.py'], [('unit table', FMT + 'common.py:get_unit_conversion')])
p('C21', 'The command line gives the results of the library',
  'Converting with the command line writes, for every matching input, a file that loads as the same surface as the input (processed as the options state, in the documented fixed order) in the requested format and under the documented name, and leaves the inputs untouched. Reports and displayed parameters show the values the library computes.',
  ['inputs', 'configurations'], 'all input files and folders, formats and options', 'Tests hardly touch the command line.',
  [CL], [('convert, report, show', CL + ':commands')])
p('C22', 'Surface arithmetic is elementwise and comparison consistent with hashing',
  'Adding, subtracting, multiplying and dividing surfaces and numbers act on each height, keep the step sizes and leave both operands unchanged; operands of different shape or step are refused. Equal surfaces have equal hashes, and equality is symmetric and tells apart surfaces that differ in any height or step size.',
  ['inputs', 'histories'], 'all surfaces/profiles and scalars, all pairs', 'Tests add one surface to itself.',
  [B, S, P], [('operators', B + ':__add__, __sub__, __mul__, __truediv__, __eq__, __hash__')])
p('C23', 'Rotation and alignment preserve the measured shape',
  'Rotating a surface with square pixels gives heights that interpolate the original surface rotated about its centre by the given angle in physical coordinates, contains no point from outside of it, and multiples of 90 degrees are exact for any pixel. Aligning turns the dominant texture parallel to the chosen axis.',
  ['inputs'], 'all heights, angles, shapes', 'Tests compare stored values for one angle.',
  [S, M], [('rotate, align', S + ':rotate, align'), ('inscribed rectangle', M + ':inscribed rectangle helper')])
p('C24', 'Step height and cavity volume recover the geometry of a step',
  'For a surface with two levels the step height equals their distance, the levelled surface has a flat upper level and an unchanged mean height, and the cavity volume equals depth times area of the recessed region, whatever the noise, tilt, proportion and position of the levels. Results do not depend on an offset of the heights and scale with the units.',
  ['inputs'], 'all two-level surfaces (depth, area, noise, offset, steps)', 'One stored value.',
  [S], [('stepheight, stepheight_level, cavity_volume', S)])
p('C25', 'Structure depth, aspect ratio and homogeneity describe periodic textures',
  'For periodic textures the structure depth equals the peak to valley distance of the profiles across the texture within the noise, the aspect ratio is depth over period, and the homogeneity is 1 for identical unit cells and decreases with their spread. They are computed for every direction, shape and number of sampled profiles without leaving the surface.',
  ['inputs', 'configurations'], 'all periodic textures, directions, shapes, numbers of profiles', 'One stored value.',
  [S, P], [('depth, aspect_ratio, homogeneity', S)])
p('C26', 'Extracted profiles are the heights along the requested line',
  'Horizontal and vertical profiles are the row or column closest to the requested coordinate (or the mean of the rows or columns around it if averaging is requested), and oblique profiles interpolate the heights along the line between the two points, each with the spacing of the samples as its step. Coordinates outside the surface are refused.',
  ['inputs'], 'all coordinates, averages, angles, shapes and unequal step sizes', 'Tests look at the central profile of a surface with equal steps.',
  [S], [('get_horizontal_profile, get_vertical_profile, get_oblique_profile', S)])
p('C27', 'Physical symmetries: results follow mirroring, offset and scaling',
  'Mirroring the surface, swapping its axes, adding an offset to its heights or expressing heights or lateral lengths in other units changes every parameter in exactly the way its physical dimension dictates and leaves dimensionless and shift-invariant ones unchanged. The relation holds for every parameter of surfaces and profiles, and operations commute with the symmetries.',
  ['inputs'], 'all surfaces, all parameters, all symmetries', 'Relations between two computed results on arbitrary surfaces are not covered by stored values.',
  [S, B, P, A, AC, FO], [('all parameters', S + ', ' + B + ', ' + P)])
p('C28', 'Plots depict the data they are given',
  'The images, lines and axes of the plots of surfaces, profiles, spectra, correlation functions and material ratio curves show exactly the computed values at their physical coordinates and orientation, also for non-square surfaces with different step sizes. Plotting on given axes draws there and saving writes to the given path; image layers are saved and shown pixel by pixel.',
  ['inputs', 'configurations'], 'all surfaces/profiles and plot options', 'Tests do not look at plots.',
  [X, S, P, FO, AC, A], [('plot functions', X + '; ' + S + ':plot_*, show')])
p('C29', 'Files that do not hold one supported height map are refused',
  'A file of a supported format that declares content other than a single height map (a profile, a series, several layers, a volume, an unknown data type or version, no height channel), or whose declarations contradict its content (signature, checksum, missing members or blocks, stated sizes of buffers, an incomplete grid of points), is refused with an exception from path and buffer; it never loads as a surface.',
  ['inputs', 'configurations'], 'all declarations of content and all contradictions in files of every format', 'Tests hold only files that can be read.',
  [FMT + 'sur.py', FMT + 'x3p.py', FMT + 'fits.py', FMT + 'gwy.py', FMT + 'sdf.py', FMT + 'dat.py', FMT + 'opd.py', FMT + 'vk.py', FMT + 'xyz.py'],
  [('validation of declared content', FMT + 'sur.py:read_sur; ' + FMT + 'x3p.py:read_x3p; ' + FMT + 'fits.py:read_fits; ' + FMT + 'gwy.py:guess_height_channel'), ('errors', 'surfalize/exceptions.py')])
p('C30', 'Results depend on heights and arguments only and leave both to the caller',
  'A parameter, operation, load, save or batch gives the same result whatever the memory layout and byte order of the height array, the state of random generators, print options, working directory and open figures, and whether it is repeated or read by several threads at once. Calls change neither the arguments they are given (lists, boxes, tables, buffers, files) nor global state, and deep and pickled copies of surfaces, profiles and batch results equal their source and live on independently.',
  ['inputs', 'histories', 'schedules', 'configurations'], 'all operations and reads, array layouts, global states, arguments and interleavings of readers', 'Tests use fresh contiguous arrays and constant arguments in one thread.',
  [S, P, B, BA, M, F, C], [('public interface', S + '; ' + P + '; ' + BA + ':Batch'), ('cache', C)])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for r in R:
        fh.write(json.dumps(r) + '\n')
