#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))

p('C01', 'Positional indexing returns exactly the designated elements',
  'For every variable (in memory, lazily derived, or an axis), every positional index expression - integers, ranges with any sign or size of start, stop and step, lists of integers in any order, boolean masks - applied axis by axis returns exactly the elements a nested list would give, as an array through [] and as a labelled variable through .slice. The axes (coordinates and every associated array) are cut in exactly the same way as the data. A chain of indexings reads the same values as the single composed index.',
  ['inputs', 'programs'], 'all arrays, all index tuples per axis, all finite chains of indexings, on every axis class',
  'The suite samples a fixed list of slices of a few arrays; the guarantee is over every index tuple, axis position and chain.',
  ['pygeode/var.py', 'pygeode/view.py', 'pygeode/axis.py'],
  [('View index expansion, mapping and unique/duplicate handling', 'pygeode/view.py'), ('SL / SlicedVar / _getitem_asvar', 'pygeode/var.py'), ('Axis._getitem_asvar', 'pygeode/axis.py')],
  ['Var.__getitem__, Var.slice[...], Axis.slice[...]'])
p('C02', 'Coordinate selection picks exactly the points the keywords denote',
  'Selecting a variable or axis with keyword arguments keeps exactly the points whose coordinate (or associated quantity such as month or year) satisfies every given condition, in the original order: a scalar means the exact value (or the nearest one for floating-point coordinates), a pair means a closed range irrespective of the order of its bounds, and the documented prefixes select by index, by list, by complement, or additionally average / squeeze the axis. Conditions on one axis intersect, conditions on different axes are independent. Keywords that match no axis are rejected rather than ignored, and repeating a condition that already holds changes nothing.',
  ['inputs', 'programs'], 'all axes (ordered or not), all keyword combinations, all bounds on and between grid points',
  'Tests select a handful of values on regular axes; ties, reversed bounds, unsorted axes, out-of-range bounds and combined prefixes are unbounded.',
  ['pygeode/axis.py', 'pygeode/var.py', 'pygeode/timeaxis.py'],
  [('keyword parsing into an index mask', 'pygeode/axis.py Axis.get_slice'), ('Var.__call__ prefix processing', 'pygeode/var.py')],
  ['Var.__call__, Axis.__call__, Dataset.__call__'])
p('C03', 'Values do not depend on request shape or memory limit',
  'The value a lazily derived variable has at a given coordinate is a function of the variable alone: whatever subset is requested, in whatever order, with or without repeats, through however many intermediate variables, and however small the configured array-size limit makes the internal pieces, each coordinate always yields the same value and the result has exactly the requested shape. This holds for every kind of derived variable the package provides.',
  ['inputs', 'programs', 'configurations', 'histories'], 'all derived-variable kinds, all sub-requests, all array-size limits, all orders of requests',
  'Tests evaluate small variables whole, in one piece, with the default limit, so a chunk boundary is never crossed.',
  ['pygeode/view.py', 'pygeode/tools.py', 'pygeode/var.py', 'pygeode/reduce.py', 'pygeode/climat.py', 'pygeode/varoperations.py', 'pygeode/composite.py', 'pygeode/smooth.py', 'pygeode/interp.py'],
  [('chunking of a view', 'pygeode/view.py View.loop_mem'), ('reduction loop', 'pygeode/tools.py loopover'), ('per-class getview implementations', 'pygeode/*.py')],
  ['Var.get, Var.load, Var.__getitem__ under varying pygeode.MAX_ARRAY_SIZE'],
  [('truth', 'value of every coordinate, fixed at the first read', 'observable')])
p('C04', 'Arithmetic aligns operands by coordinate, never by position',
  'Combining variables (arithmetic, comparison, logical and elementwise functions, with variables, axes, numbers in either operand order) gives, at each coordinate of the result, the function applied to the operand values at that same coordinate, whatever the order of each operand\'s axes. Axes present in one operand only are broadcast; if one operand covers a subset of the other\'s coordinates along an axis the result is on that subset; partially overlapping axes of the same kind are rejected. The result does not depend on the order the operands store their axes.',
  ['inputs', 'programs'], 'all operand pairs/triples over all axis subsets, orders, sub-ranges and axis classes',
  'Tests add fields on identical or trivially broadcast grids; misalignment shows only with particular axis orders, sub-ranges and reversals.',
  ['pygeode/ufunc.py', 'pygeode/varoperations.py', 'pygeode/tools.py', 'pygeode/view.py', 'pygeode/axis.py'],
  [('axis resolution', 'pygeode/tools.py can_map/combine_axes'), ('View.map_to and conforming', 'pygeode/view.py'), ('UfuncVar', 'pygeode/ufunc.py')],
  ['Var operators, pygeode.ufunc functions'])
p('C05', 'Restructuring a variable never changes which value sits where',
  'Transposing, squeezing, extending, sorting, replacing, renaming, casting, filling and masking operations return a variable in which every element is the element of the source at the corresponding coordinate (changed only by the cast, fill or mask asked for), with exactly the documented axes in the documented order. Sorting is an ordering of the same points with their data and associated arrays; transposing back or squeezing what was extended restores the original.',
  ['inputs', 'programs'], 'all shapes up to 4 axes, all permutations, all sequences of restructuring steps',
  'A few fixed permutations are tested; errors need repeated axes lengths, partial permutations, unsorted axes or sequences.',
  ['pygeode/varoperations.py', 'pygeode/var.py', 'pygeode/view.py', 'pygeode/axis.py'],
  [('TransposedVar, SqueezedVar, ExtendedVar, SortedVar, Replace_axes, CastVar, ...', 'pygeode/varoperations.py')],
  ['Var methods'])
p('C06', 'Reductions equal the definition over exactly the reduced axes',
  'Sum, mean, min, max, variance, standard deviation, index of extrema and their NaN-skipping forms, over any set of axes named in any way, equal the mathematical definition applied to precisely the elements sharing each remaining coordinate, with the remaining axes kept in order. Weighted forms use the axis weights (or the supplied ones) normalised as documented; NaN-skipping forms ignore missing points (and their weights) and return missing only when nothing is left, other forms propagate missing values.',
  ['inputs', 'configurations'], 'all shapes, all subsets of axes, weights on/off/custom, NaN patterns, chunk sizes, dtypes float32/float64/int',
  'Tests reduce a single field with default weights; NaN patterns, weights broadcast over several axes and chunked accumulation are not covered.',
  ['pygeode/reduce.py', 'pygeode/tools.py', 'pygeode/var.py', 'pygeode/axis.py'],
  [('ReducedVar and subclasses', 'pygeode/reduce.py'), ('loopover', 'pygeode/tools.py')],
  ['Var.mean/sum/min/max/variance/stdev/nan*/argmin/argmax'])
p('C07', 'Concatenation and ensembles reassemble exactly their parts',
  'Cutting a variable (or dataset) along an axis into any number of consecutive or interleaved pieces and concatenating them (pygeode.concatenate, dataset.concat) returns every point of every piece once, each with its own value, with the coordinates of the pieces in order (sorted only on request); any sub-request of the result reads the right piece. An ensemble holds each member unchanged under its own index. Incompatible pieces are rejected.',
  ['inputs', 'programs'], 'all partitions of all axes, all sub-requests across the seams, 1..n pieces',
  'Tests concatenate two or three fixed pieces and read the whole result.',
  ['pygeode/concat.py', 'pygeode/ensemble.py', 'pygeode/dataset.py', 'pygeode/axis.py', 'pygeode/timeaxis.py'],
  [('ConcatVar', 'pygeode/concat.py'), ('EnsembleVar', 'pygeode/ensemble.py'), ('dataset.concat', 'pygeode/dataset.py')],
  ['pygeode.concatenate, pygeode.ensemble.ensemble, dataset.concat'])
p('C08', 'Calendar arithmetic is an exact, order-preserving bijection',
  'For each calendar (standard/Gregorian, 365-day, 360-day, yearless) converting an offset from any start date in any supported unit to a date and back is exact to the second, successive days have successive valid dates with that calendar\'s month lengths and leap years, and later offsets never have earlier dates. The day of year, day of season and related derived quantities agree with the date. Negative offsets, year boundaries, leap days and start dates away from midnight are included.',
  ['inputs'], 'all dates (years 1..9999 sampled, every day of selected multi-century spans), all units, all start dates',
  'Tests compare a few dates; calendar errors occur only at particular leap/century/negative-offset combinations.',
  ['pygeode/timeaxis.py', 'pygeode/timeaxis.c'],
  [('val_as_date / date_as_val', 'pygeode/timeaxis.c'), ('CalendarTime constructors', 'pygeode/timeaxis.py')],
  ['time axis construction from values/dates, date fields, formatting and parsing'])
p('C09', 'Time axes are matched and re-expressed by date, not by raw number',
  'Re-expressing a time axis in another unit or from another start date, or comparing or combining it with another time axis written in other units or from another origin, depends only on the calendar dates denoted: equal dates match, different dates never do. Relative times, time increments, dropping or resetting date components, and date-range axis constructors give the dates the definition says; different calendars are never silently mixed.',
  ['inputs', 'programs'], 'all pairs of time axes over calendars, units, start dates, subsets and orderings',
  'Tests use one start date and unit; the guarantee is over pairs of representations.',
  ['pygeode/timeaxis.py', 'pygeode/timeutils.py', 'pygeode/timeaxis.c'],
  [('Time.map_to / common_map', 'pygeode/timeaxis.py'), ('reltime, delta, modify, reset, normalize', 'pygeode/timeutils.py')],
  ['time axis equality, arithmetic between variables on different time axes, timeutils functions'])
p('C10', 'Time binning puts each timestep in exactly one right bin',
  'Daily, monthly, seasonal, yearly and diurnal means (and the other binned statistics) and the corresponding climatologies and trends assign every timestep to the one bin its calendar date denotes, and each bin holds the statistic of precisely its members (missing points skipped only by the NaN-aware forms); bins appear once, in order, and only if populated or required by completeness as documented. Results do not depend on the order of the other axes or on how the data is chunked.',
  ['inputs', 'configurations'], 'all calendars, time resolutions, gaps, incomplete periods, NaN patterns, chunk sizes',
  'One test checks that a climatology can be computed; gaps, partial years, leap days and chunking are untested.',
  ['pygeode/climat.py', 'pygeode/timeutils.py', 'pygeode/tools.c', 'pygeode/timeaxis.c'],
  [('TimeOp classes and common index', 'pygeode/climat.py'), ('partial_sum kernels', 'pygeode/tools.c'), ('get_index', 'pygeode/timeaxis.c')],
  ['climatology/dailymean/monthlymean/... functions'])
p('C11', 'Objects are immutable: no operation alters what already exists',
  'After any history of operations on a pool of variables, axes and datasets - deriving, reading, saving, plotting metadata edits on results, writing into returned arrays, failed operations - every object created earlier still has the same values, coordinates, names and metadata. Arrays returned by reads are either fresh or read-only, and in-memory values cannot be changed through the variable that wraps them.',
  ['histories', 'programs'], 'all finite histories of public operations over a shared pool of objects',
  'Unit tests never re-check old objects after later operations; aliasing shows only in multi-step histories.',
  ['pygeode/var.py', 'pygeode/view.py', 'pygeode/axis.py', 'pygeode/dataset.py', 'pygeode/varoperations.py'],
  [('read-only value arrays, copies in get', 'pygeode/var.py, pygeode/view.py'), ('copy_meta and copying of atts', 'pygeode/var.py')],
  ['all public operations'],
  [('pool', 'fingerprint of every live object', 'observable')])
p('C12', 'A dataset is a consistent namespace under every operation',
  'In every dataset reachable by construction, adding, removing, renaming, replacing, subsetting, mapping, sorting, copying and concatenating, variable names are unique, every variable\'s axes are the dataset\'s axes, equal axes of the same name are shared and unequal axes never share a name, and lookup by name returns that very object. Each operation changes only the members it is asked to change; name clashes are resolved by renaming, never by losing or overwriting a variable. Removing or looking up an unknown name is rejected. Attributes of the dataset are kept, and when datasets are merged those on which all agree are kept.',
  ['histories', 'inputs'], 'all sequences of dataset operations over clashing names and axes',
  'Tests build one dataset; clobbering needs clashing names, near-equal axes or sequences.',
  ['pygeode/dataset.py', 'pygeode/var.py'],
  [('Dataset.__init__ name and axis resolution', 'pygeode/dataset.py')],
  ['Dataset methods, asdataset, dataset.concat'],
  [('members', 'ordered name -> (identity, axes)', 'Dataset.vars/vardict/axes/axisdict')])
p('C13', 'Metadata follows the data through derivations',
  'Names, attributes and plot attributes of derived variables are those the derivation rule prescribes: operations on one variable (slicing, selecting, reordering, reducing, smoothing, filtering, integrating, differencing, climatologies, rearranging time, casting, filling, mapping over datasets) keep its attributes and plot attributes and either its name or the name the operation prescribes; operations on several (arithmetic, numpy-like functions, concatenation, ensembles) keep exactly the attributes and plot attributes on which all agree and are named after the operation and its operands in the order written; each surviving axis keeps its own metadata, axes laid end to end what their pieces agree on; renaming changes only the name. Attribute containers are never shared between source, result and class: writing to the metadata of one object changes no other.',
  ['inputs', 'programs'], 'all operations, all metadata combinations (agreeing, conflicting, missing; scalar, string and array valued)',
  'Metadata of results is hardly asserted anywhere in the suite.',
  ['pygeode/var.py', 'pygeode/axis.py', 'pygeode/ufunc.py', 'pygeode/tools.py', 'pygeode/varoperations.py', 'pygeode/reduce.py', 'pygeode/concat.py'],
  [('copy_meta / combine_meta / common_dict', 'pygeode/var.py, pygeode/tools.py')],
  ['name, units, atts and plotatts of results'])
p('C14', 'Axis equality and mapping agree with coordinate equality',
  'Axis equality is reflexive and symmetric, holds exactly when kind, length, every coordinate (within the axis tolerance, relative to the spacing) and associated arrays agree, and never identifies axes whose points are permuted, shifted or differ by as much as the grid spacing, whatever the magnitude of the coordinates. Mapping one axis onto another returns for every requested point the position of the matching coordinate and nothing for points without a match.',
  ['inputs'], 'all pairs of axes over classes, orders, magnitudes (1e-9..1e9), subsets, perturbations inside and outside the tolerance',
  'Tests compare identical or clearly different axes only.',
  ['pygeode/axis.py', 'pygeode/tools.py', 'pygeode/tools.c'],
  [('is_equivalent', 'pygeode/axis.py'), ('map_to kernel', 'pygeode/tools.c')],
  ['Axis ==, Axis.map_to'])
p('C15', 'Saving and re-opening a dataset is the identity',
  'Saving any supported dataset to netCDF and opening it again gives the same variables with the same names, data types, values (missing values included), axis kinds, coordinates, associated arrays, dates and attributes, apart from documented conversions, whether written whole or piecewise under a small array-size limit, in either file version, compressed or not, with a record dimension or not, or as groups. Packed output is within half a quantum of the source. Saving never alters the dataset saved.',
  ['inputs', 'configurations'], 'all datasets over axis kinds, dtypes, NaN, names, attributes; all writer options',
  'Tests save one or two fixed datasets and compare a value or two.',
  ['pygeode/formats/netcdf4.py', 'pygeode/formats/netcdf.py', 'pygeode/formats/cfmeta.py', 'pygeode/formats/__init__.py'],
  [('encode_cf / decode_cf', 'pygeode/formats/cfmeta.py'), ('writer loop', 'pygeode/formats/netcdf4.py write_var')],
  ['pygeode.save / pygeode.open'])
p('C16', 'Opening a file honours the file contents and the caller options',
  'The dataset obtained from a file is determined by the file and the options: packed data are unpacked with scale, offset and fill value, CF units/standard names/calendars select the documented axis kind and dates, an explicit axis type overrides detection, the list of wanted variables keeps exactly those, renamings rename exactly the named variables and axes, value overrides replace exactly those values, and switching conventions off leaves raw values and generic axes. Options combine independently.',
  ['inputs', 'configurations'], 'all combinations of options over files written by other software',
  'Tests open self-written files with default options.',
  ['pygeode/formats/__init__.py', 'pygeode/formats/cfmeta.py', 'pygeode/formats/netcdf4.py', 'pygeode/formats/netcdf.py'],
  [('finalize_open, set_axistypes, whitelist', 'pygeode/formats/__init__.py'), ('decode_cf', 'pygeode/formats/cfmeta.py')],
  ['pygeode.open'])
p('C17', 'A set of files reads as one dataset, independent of file boundaries',
  'Opening a collection of files that tile a time range gives the same variables and values as the undivided data for every sub-request, no matter how timesteps are distributed over files, how many steps a request takes from each, in what order the files are listed, or which of the multi-file openers is used. If the data for a requested time is not in the files, the read fails; it never returns values of another time.',
  ['inputs', 'configurations', 'fault_sequences'], 'all partitions of the timeline into files, all sub-requests, missing files/timesteps',
  'No multi-file test reads across file seams or with missing files.',
  ['pygeode/formats/multifile.py', 'pygeode/formats/data_scanner.py', 'pygeode/dataset.py'],
  [('open_multi, Multifile_Var.getview', 'pygeode/formats/multifile.py'), ('openall', 'pygeode/formats/multifile.py')],
  ['open_multi, openall, from_files'])
p('C18', 'Reported progress is monotone and confined to its share',
  'Every progress report made while evaluating or saving lies between 0 and 100, never decreases, stays within the interval assigned to the part of the computation that makes it, and an operation that succeeds ends at 100, however deeply computations nest and however many pieces they use.',
  ['programs', 'configurations'], 'all nestings of derived variables, all chunk counts',
  'Progress is never asserted.',
  ['pygeode/progress.py', 'pygeode/view.py', 'pygeode/tools.py'],
  [('PBar.subset/part/update', 'pygeode/progress.py')],
  ['progress callbacks'])
p('C19', 'Differences, derivatives, integrals and smoothing follow their formulas',
  'Forward differences, first and second derivatives (all difference types, optional coordinate), cumulative sums and integrals (all rules, directions and starting values) and kernel smoothing give at every point, boundary points included, exactly the documented formula of the source values along the chosen axis and only along it, for any request and any axis position or spacing.',
  ['inputs'], 'all axis positions, spacings (also decreasing), orders, kernels, sub-requests',
  'No test covers these operators.',
  ['pygeode/deriv.py', 'pygeode/diff.py', 'pygeode/intgr.py', 'pygeode/smooth.py'],
  [('stencil index arithmetic in getview', 'pygeode/deriv.py, diff.py, intgr.py, smooth.py')],
  ['Var.deriv, diff, integrate, cumsum, smooth'])
p('C20', 'Interpolation is exact on source points and linear data',
  'Interpolating along an axis leaves the other coordinates alone, reproduces the source at source points for every interpolation type, reproduces straight lines everywhere inside the range, equals the piecewise-linear formula for the linear type, and outside the range gives missing values or the requested linear extrapolation. This holds for increasing or decreasing coordinates, for coordinates that vary along other axes, when missing source points are skipped, and for any sub-request.',
  ['inputs', 'configurations'], 'all axis positions, orders, per-column coordinates, missing points, slopes, types',
  'One test checks a single interpolation.',
  ['pygeode/interp.py', 'pygeode/interp.c'],
  [('Interp.getview', 'pygeode/interp.py'), ('interpgsl', 'pygeode/interp.c')],
  ['Var.interpolate'])
p('C21', 'Composites and flattening address exactly the event windows',
  'A composite has, for each event and offset, exactly the source value at the event position plus the offset where that lies inside both the source and that event\'s window, and missing elsewhere; flattening a composite or a pair of adjacent axes lists exactly the elements in outer-major order. Any sub-request of either reads the same values.',
  ['inputs'], 'all event lists, lengths, offsets (per event or common), windows crossing either end, sub-requests',
  'Not tested at all.',
  ['pygeode/composite.py'],
  [('CompositeVar, FlattenVar', 'pygeode/composite.py')],
  ['Var.composite, Var.flatten'])
p('C22', 'Re-arranging time keeps every value with its date',
  'Lagging, splitting a time axis into year and within-year axes, joining them again, and removing leap days return for each date (and lag) precisely the source value of the date that the definition names, missing where there is none, and nothing else; splitting then joining restores the source.',
  ['inputs'], 'all calendars, gaps, lag lists, axis positions, sub-requests',
  'Not tested at all.',
  ['pygeode/timeutils.py', 'pygeode/timeaxis.py'],
  [('LagVar, SplitTime, JoinTime, removeleapyears', 'pygeode/timeutils.py')],
  ['timeutils functions'])
p('C23', 'Conversion to and from xarray preserves the dataset',
  'Converting a dataset to xarray yields arrays whose dimensions, coordinates, dates and values equal the source, lazily and in blocks that tile each variable exactly once whatever the array-size limit; converting an xarray dataset back yields the same axes, dates, values and attributes.',
  ['inputs', 'configurations'], 'all axis kinds, dtypes, chunk sizes, calendars',
  'No test converts a chunked variable.',
  ['pygeode/ext_xarray.py', 'pygeode/formats/cfmeta.py'],
  [('to_xarray block construction', 'pygeode/ext_xarray.py'), ('from_xarray', 'pygeode/ext_xarray.py')],
  ['ext_xarray.to_xarray, from_xarray'])
p('C24', 'Evaluation is lazy, in bounds and bounded in size',
  'Building any derived variable reads no source data; reading a result asks its sources only for in-range, strictly increasing, non-repeated positions needed for the requested points, and the values handed over have exactly the requested shape. Operations that stream over a variable (reductions, binning, saving, export) ask for no piece larger than the configured limit unless a whole axis is inherently needed, and together the pieces of a full pass cover every element exactly once.',
  ['programs', 'configurations'], 'all derivations, sub-requests and size limits, observed at an instrumented source',
  'Requests reaching a source are never observed by tests.',
  ['pygeode/view.py', 'pygeode/tools.py', 'pygeode/var.py', 'pygeode/reduce.py', 'pygeode/climat.py'],
  [('View.get unique request, loop_mem, loop_contiguous', 'pygeode/view.py')],
  ['getview/getvalues of an instrumented source variable'],
  [('requests', 'sequence of index sets asked of the source', 'instrumented source')])
p('C25', 'Regression and correlation statistics match their definitions',
  'Correlation coefficients, regression slopes and intercepts, explained variance, sample counts and mean differences computed between fields equal their closed-form definitions over exactly the shared (or chosen) axes, using only points where both fields are present, independent of axis order, broadcasting and chunking; significance values lie in their valid range and shrink as the evidence grows.',
  ['inputs', 'configurations'], 'all pairs of fields over axis subsets, NaN patterns, chunk sizes',
  'Not tested except indirectly.',
  ['pygeode/stats.py', 'pygeode/tools.py'],
  [('accumulation loops', 'pygeode/stats.py')],
  ['stats.correlate/regress/multiple_regress/difference/paired_difference/isnonzero'])
p('C26', 'Dates print and parse consistently',
  'Formatting any date of a calendar and parsing the text again gives the same date to the resolution printed, format directives print the component they name, and selecting by a date string is the same as selecting by that date. Malformed or impossible dates are rejected or documented, never mapped to an unrelated date.',
  ['inputs'], 'all calendars, dates, formats',
  'Only a couple of strings are tested.',
  ['pygeode/timeaxis.py'],
  [('formatvalue / str_as_val / date formatting table', 'pygeode/timeaxis.py')],
  ['Time.formatvalue, Time.str_as_val, keyword selection by string'])
p('C27', 'Calendar ticks are the aligned dates inside the interval',
  'The tick generator for each calendar unit returns, for any interval, in order and without repetition, the dates of that calendar that are aligned to the requested multiple of the unit and lie within the (documented) interval, none missing.',
  ['inputs'], 'all calendars, units, multiples, intervals',
  'No test covers tick generation.',
  ['pygeode/timeticker.py', 'pygeode/timeaxis.py'],
  [('TickGenerator subclasses', 'pygeode/timeticker.py')],
  ['timeticker tick generators'])
p('C28', 'Spectral/EOF decompositions reconstruct their input',
  'Empirical orthogonal functions and maximum-covariance decompositions are orthonormal in the weighted inner product, ordered by explained variance, and with all modes retained reconstruct the analysed field; Fourier smoothing with all harmonics retained is the identity.',
  ['inputs'], 'all fields, weights and truncations',
  'Numerical identities sampled at one point.',
  ['pygeode/eof.py', 'pygeode/eof.c', 'pygeode/svd.py', 'pygeode/fft_smooth.py'],
  [('iterative eigen solvers', 'pygeode/eof.c, svdcore')],
  ['EOF, SVD, fft_smooth'])
p('C29', 'A plot shows the variable',
  'The plotting functions (vplot, vcontour, vquiver, vstreamplot, vscatter, vhist, vsigmask, showvar, showgrid, showcol, showlines) hand the drawing library exactly the values of the variable, each at its coordinates, after the scale factor and offset asked for, whatever the order of its axes, its type or its degenerate axes: vertical axes run vertically, longitude runs across against latitude, transposing exchanges the two, missing values stay missing. The frame spans the coordinates in plotting order, and titles and labels name the variable, its units and the point of its degenerate axes. The text of a coordinate shows its number to the precision of the format, its hemisphere and its units. Contour level dictionaries are increasing, evenly (or logarithmically) spaced, cover the divisions asked for and include or leave out the middle as asked; guessed intervals are round and cover the data; the two-sided logarithmic colour scale is where documented and inverts.',
  ['inputs', 'configurations'], 'all axis families, orders, scalings, types, requests',
  'The tests call a few plotting functions without looking at what is drawn.',
  ['pygeode/plot/pyg_helpers.py', 'pygeode/plot/cnt_helpers.py', 'pygeode/plot/wrappers.py', 'pygeode/axis.py'],
  [('vplot / vcontour / vquiver / vstreamplot', 'pygeode/plot/pyg_helpers.py'), ('clfdict / cldict / log1sdict / log2sdict / guessclimits / LogNorm2Sided', 'pygeode/plot/cnt_helpers.py'), ('formatvalue', 'pygeode/axis.py')],
  ['pygeode.plot', 'Axis.formatvalue, Lat/Lon/Pres.formatvalue'])
with open('/verif/properties.jsonl', 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, (d['id'], len(d['title']))
        f.write(json.dumps(d) + '\n')
print(len(P))
