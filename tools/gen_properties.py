"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

CL, PA, CA = 'seismostats/catalogs/client.py', 'seismostats/io/parser.py', 'seismostats/catalogs/catalog.py'
TPL = 'seismostats/catalogs/catalog_templates/quakeml.j2'
SIM, MC = 'seismostats/utils/simulate_distributions.py', 'seismostats/analysis/estimate_mc.py'

p('C01', 'A download is complete and exact, or it fails with an error',
  'FDSNWSEventClient.get_events returns a catalog holding every event the service has for the query, each exactly once, in the order of the service and with the values the service sent, whether it downloads in one request or in batches of any size. If anything goes wrong on the way (refused, reset or stalled connection, response cut off, HTTP error status, unreadable body, on any of its requests including the ones that look for the number of batches) it raises; it never returns an empty, truncated, duplicated or mixed catalog as if it were complete. Only an explicit "no data" answer (204, an empty body, or 404 when nodata=404 was requested) counts as the absence of events.',
  ['fault_sequences', 'inputs', 'histories'],
  'All event counts and batch sizes (also exact multiples, 1, larger than the catalog), all network fault sequences over the requests of a call, catalogs that grow at the end during the download, all ways a conforming server may frame and encode a response.',
  'Four tests with canned, always successful responses and one batch size; no fault, no error status during the search for the number of batches, no truncated body is ever exercised.',
  [CL, PA, CA],
  [('search for the number of batches (doubling, bisection)', CL), ('windowed requests with limit and offset', CL), ('raising on HTTP errors', CL), ('raising on documents which end prematurely', PA)],
  [('offset window', '1-based offset and limit of each batch request', CL)],
  ['return value or exception of get_events', 'requests seen by the simulated server'])
p('C02', 'Requests carry exactly the filters of the current call',
  'Every HTTP request sent by a get_events call carries exactly the filters of that call under their FDSNWS names (times to the second in ISO format, the minimum magnitude lowered by half a bin if a bin size is given, extra keyword arguments verbatim) plus limit/offset when batching, and nothing left over from earlier calls on the client, successful or failed. The returned catalog carries the requested start and end time if they were given and none otherwise, and has uncertainty, ID, quality columns only if this call asked for them.',
  ['histories', 'fault_sequences', 'inputs'],
  'All sequences of calls on one client with differing arguments, with any subset of the calls failing at any request.',
  'Tests make at most two successful calls with fixed arguments per client; no failed call precedes another one.',
  [CL, CA],
  [('parameter dictionary built for each call', CL), ('drop_uncertainties / drop_ids', CA)],
  [('params', 'query parameters', CL)],
  ['query strings received by the simulated server', 'metadata and columns of the returned catalog'])
p('C03', 'Concurrent downloads on one client do not affect each other',
  'When several threads call get_events on the same FDSNWSEventClient at the same time, every call behaves as if it ran alone: its requests carry its own filters and its result is exactly the result of its own query, also if other calls fail.',
  ['schedules', 'fault_sequences'],
  'All interleavings of 2 to 4 calls (batched or not) at every statement and network operation, with faults in any of them.',
  'No test uses threads; the schedule is outside the control of a unit test.',
  [CL, PA],
  [('no per-call state is kept on the client between requests', CL), ('parser state is local to a call', PA)],
  [('params', 'query parameters of a call', CL)],
  ['result of each call', 'requests received per call'])
p('C04', 'Batched downloads use bounded effort and recover once faults stop',
  'A batched download terminates after at most one request per batch plus a small multiple of the logarithm of their number (plus a constant), never asks for more than batch_size events in one request, and transfers each event at most a bounded number of times in its batch requests. A call which fails does so within a bounded number of requests, and once faults stop, the next call on the same client succeeds completely within the same bounds.',
  ['fault_sequences', 'histories', 'inputs'],
  'All catalog and batch sizes, fault sequences and growing catalogs; liveness is stated in requests and simulated seconds after the last fault.',
  'The single batching test has one fixed catalog of two batches and cannot observe effort, growth or recovery.',
  [CL],
  [('search for the number of batches', CL), ('one request per batch', CL)],
  [], ['request log and clock of the simulated network'])
p('C05', 'QuakeML is read the same however its bytes are delivered',
  'The catalog read from a QuakeML document depends on the document only: it is the same for the file, string and HTTP response entry points, for every split of the byte stream into reads, every content encoding, transfer encoding and character encoding, and for insignificant differences in how text is written (entities, CDATA, white space around elements). It equals what an independent reading of the document gives: one record per event in document order, with all text preserved except surrounding white space.',
  ['schedules', 'inputs'],
  'All chunkings of the stream (down to single bytes, cuts inside tokens, entities and multi-byte characters), gzip/deflate/chunked/close-delimited framing, encodings UTF-8, UTF-16, ISO-8859-1.',
  'Tests read small files in one buffer; the read boundaries that a network produces never occur in them.',
  [PA, CA],
  [('incremental SAX handler that accumulates text', PA), ('content decoding of the raw response', PA)],
  [('location/text', 'path of the current element and its text so far', PA)],
  ['records returned by the parser', 'Catalog columns'])
p('C06', 'Damaged QuakeML is never silently read as a smaller catalog',
  'If a QuakeML document is cut off at any point, or the file or connection fails while it is read, reading it raises an error instead of returning the events before the damage. Only a document without any content at all is an empty catalog. A failed read leaves no trace: reading an intact document afterwards gives its full content.',
  ['crash_points', 'fault_sequences'],
  'Every cut point of every document (including exactly between two elements and inside the prolog), every read error position, for file, string and response entry points.',
  'Two fixtures (an empty and a malformed file) stand for all damage; the cut points between elements, where the XML parser reports a different error, are not sampled.',
  [PA, CA],
  [('distinguishing an empty document from one that ends prematurely', PA), ('propagation of I/O errors', PA)],
  [], ['result or exception of the three entry points'])
p('C07', 'Each event record is made of exactly its own preferred data',
  'Each event record holds the event ID and type, the values, uncertainties and quality of the preferred origin and the preferred magnitude of that very event, and for every other magnitude type the one with the highest version, then the latest creation time; missing data stays missing. It does not depend on the order of origins and magnitudes inside the event, on other events in the document, on documents read before or concurrently (also aborted ones), or on hash randomisation, and all of these give the same columns in the same order for the same document.',
  ['histories', 'schedules', 'inputs'],
  'All sequences of reads in one process with aborted reads in between and several threads reading at the same time, all element orders, all PYTHONHASHSEED values.',
  'Tests read a handful of fixtures once each in a fresh handler; hash seeds, aborted reads and element orders are not varied.',
  [PA],
  [('per-event state reset', PA), ('selection by preferred ID', PA), ('version selection of secondary magnitudes', PA)],
  [('event/origin/magnitude', 'elements collected for the current event', PA)],
  ['records returned by the parser'])
p('C08', 'A catalog written as QuakeML reads back as the same catalog',
  'Every event of a catalog with a location and time survives writing it with to_quakeml, storing or serving the text and reading it back, in order and with its time (microseconds), coordinates, depth, magnitudes of all types, symmetric uncertainties of coordinates, depth and magnitudes, quality, type and ID columns of the event and its preferred origin and magnitude; missing ones of these IDs are replaced by unique ones and present ones kept. The document is well-formed for every text in the catalog, writing never changes the catalog, and if the stored text was torn by a crash, reading it raises instead of giving a part of the catalog.',
  ['crash_points', 'inputs', 'histories'],
  'All catalogs (numeric extremes, missing values in any cell, any text in IDs, agency and author, any magnitude type names, filtered or concatenated catalogs, forecast catalogs), repeated write/read generations, and a crash at any byte of the stored file.',
  'One fixture is written and compared; it has no special characters, missing cells, or overlapping type names, and the file is never damaged.',
  [CA, TPL, PA],
  [('QuakeML template', TPL), ('creation of missing IDs', CA), ('export of secondary magnitudes', CA)],
  [], ['Catalog.from_quakeml(catalog.to_quakeml())'], None)
p('C09', 'Simulated and dithered magnitudes stay within their limits',
  'For every state of the random number generator, simulated magnitudes are n values not below mc and not above mag_max if one is given (any finite value, also 0 or negative), binned ones lie on the magnitude grid from mc on, up to the bin of mag_max, and follow the (truncated) exponential distribution as a function of the random numbers drawn. Dithering keeps the number of events in each bin and moves no magnitude out of its bin, so that goodness of fit tests on dithered magnitudes give a p-value in [0, 1] whenever they accept the sample. Inputs are not modified.',
  ['inputs', 'fault_sequences'],
  'All random streams including extreme draws (0, the largest double below 1, denormals, long runs of equal values), all combinations of mc, b-value, bin size and mag_max.',
  'Tests draw a few thousand ordinary random numbers with fixed seeds; extreme draws have probability 2^-53 and do not occur in them.',
  [SIM, 'seismostats/analysis/lilliefors.py', 'seismostats/analysis/bvalue/base.py'],
  [('inverse CDF sampling', SIM), ('dithering per bin', SIM)],
  [], ['returned arrays', 'BValueEstimator.p_lilliefors'])
p('C10', 'Randomised results are reproducible from the seed alone',
  'With the global NumPy seed (or random_state where a function takes one) fixed, every randomised function gives bit-identical results in every process, after any history of other calls, and under any hash seed, while different seeds give different draws. Functions with a random_state neither read nor change the global generator, deterministic functions consume no random numbers, and bootstrap resamples are drawn from the given sample only, with its size. (Uncertainties of BMorePositive and created IDs use fresh entropy by design and are excepted.)',
  ['histories', 'schedules', 'configurations'],
  'All sequences of randomised and deterministic calls before the seeding, all seeds, fresh and used processes and objects.',
  'Tests seed once per test in a fresh state and do not look at the generator state after a call.',
  [SIM, MC, 'seismostats/analysis/bvalue/utils.py', 'seismostats/analysis/bvalue/more_positive.py', 'seismostats/analysis/bvalue/base.py'],
  [('global NumPy generator as only source of randomness', SIM), ('local generator from random_state', 'seismostats/analysis/bvalue/utils.py')],
  [], ['results and np.random state before and after a call'])
p('C11', 'Monte Carlo completeness tests follow their definition on every stream',
  'For every random stream, ks_test_gr returns as p-value the fraction of its synthetic KS distances that are at least the observed distance, all in [0, 1], where distances and the observed value follow from the simulated samples and the data, and passing the returned distances back in gives the same answer without randomness. estimate_mc_ks tests the candidates in increasing order, reports for each the p-value, b-value and distance of that candidate, stops at the first that passes if asked to, and returns the smallest candidate with p >= p_value_pass together with its b-value, or None if there is none.',
  ['inputs', 'histories'],
  'All random streams (also degenerate ones in which every synthetic sample is the same), samples, candidate lists, thresholds and stop modes.',
  'Tests check a few outcomes for fixed seeds.',
  [MC],
  [('KS distance of simulated samples', MC), ('selection of the smallest passing mc', MC)],
  [], ['return values of ks_test_gr and estimate_mc_ks'])
p('C12', 'Estimators can be reused, also after a failed calculation',
  'After any sequence of calculations on an a- or b-value estimator object, including ones that failed or were aborted at any point, a successful calculation gives the same value, uncertainty, p-value, count, indices and attributes as on a new object. After a failed calculation the object never reports results that combine different calculations: it refuses until the next successful one, or reports one calculation in full. Calculations do not modify their inputs, and neither changing these arrays afterwards nor copying or storing the object changes its results. estimate_a and estimate_b return what a new object reports, and every estimate asked for beta returns b times ln 10 and is otherwise the same.',
  ['histories', 'crash_points', 'fault_sequences'],
  'All sequences of calls with differing data, weights, times, dmc, mc and invalid inputs, with failures injected at every step inside a calculation.',
  'Tests use a new estimator per calculation and never look at one after an exception.',
  ['seismostats/analysis/bvalue/base.py', 'seismostats/analysis/bvalue/positive.py', 'seismostats/analysis/bvalue/more_positive.py', 'seismostats/analysis/avalue/base.py', 'seismostats/analysis/avalue/positive.py', 'seismostats/analysis/avalue/more_positive.py'],
  [('reset at the start of a calculation', 'seismostats/analysis/bvalue/base.py'), ('all inputs replaced by each calculation', 'seismostats/analysis/bvalue/base.py')],
  [('value, magnitudes, weights, times, idx', 'inputs and result of the last calculation', 'seismostats/analysis/bvalue/base.py')],
  ['attributes of the estimator after each call'])
p('C13', 'Catalog metadata and types survive every history of operations',
  'Filtering, sorting, copying, column changes, binning, stripping, merging, concatenating and storing a catalog (pickle, restart) keep it a Catalog (or ForecastCatalog) as long as it has the required columns, a plain DataFrame otherwise, with all metadata (name, times, mc, b_value, a_value, delta_m, region, depth limits, number of catalogs) of the source, or of the left or first one when combining. Operations that are not in place leave their inputs unchanged, operations that fail leave everything unchanged, changing a derived catalog never changes its source, and numeric, time and text columns keep their normalised types. Calculations on catalogs (isna, ==, T, corr, ...) give the values pandas gives for plain frames.',
  ['histories', 'crash_points', 'fault_sequences'],
  'All sequences of operations over a pool of catalogs, with invalid operations and process restarts from stored (possibly torn) files in between.',
  'Tests apply single operations to single catalogs; metadata is lost or leaked by combinations.',
  [CA],
  [('__finalize__ and _metadata', CA), ('constructor with fallback', CA), ('normalisation on construction', CA)],
  [('_metadata attributes', 'metadata of a catalog', CA)],
  ['type, attributes and columns of every catalog in the pool after each step'])
p('C14', 'Estimates on a catalog are published exactly when they succeed',
  'estimate_mc_*, estimate_b and estimate_a on a Catalog use the explicitly passed mc, bin size, weights, b-value and times if given, otherwise the mc, bin size and b-value of the catalog (estimate_b and estimate_a also its weights and, for methods that need them, its times), and set exactly the catalog attribute they are responsible for (mc, b_value or a_value) to the value they return. If they fail, no attribute or column of the catalog has changed (if they are aborted while publishing, it is unchanged or publishes the whole result), and missing prerequisites are reported as errors instead of being guessed or taken from earlier calls.',
  ['histories', 'fault_sequences'],
  'All sequences of estimates with and without explicit arguments on catalogs in any state of preparation, with failures injected at any step.',
  'Tests run the estimates once on freshly prepared catalogs; failing estimates and the attributes after them are not checked.',
  [CA, MC],
  [('attributes assigned after a successful estimate', CA), ('additional arguments from columns', CA)],
  [('mc, b_value, a_value', 'published estimates', CA)],
  ['attributes and columns of the catalog before and after each call', 'returned estimators'])
p('C15', 'The warnings option changes warnings only, never results',
  'Whatever the state of the global warnings option, and however it is switched between or during calls (also by other threads), every computation returns the same results, raises the same errors and leaves the same state; with the option off none of the warnings it governs (those issued by the package itself about its inputs) is emitted, and with it on again the same ones as before. Computations never change the option or, by depending on it, the state of the random generator. Setting an unknown option raises and changes nothing.',
  ['configurations', 'schedules', 'histories'],
  'All computations that consult the option, on ordinary and degenerate inputs, with the option on, off, and toggled at every interleaving point.',
  'Tests run with the default option except for single assertions on warnings.',
  ['seismostats/utils/_config.py', MC, 'seismostats/analysis/bvalue/base.py', 'seismostats/analysis/avalue/base.py', 'seismostats/analysis/b_significant.py', 'seismostats/analysis/bvalue/kijko_smit.py', 'seismostats/analysis/bvalue/weichert.py', 'seismostats/analysis/avalue/positive.py', 'seismostats/analysis/avalue/more_positive.py'],
  [('get_option("warnings") guards around warnings', MC)],
  [('options', 'global option dictionary', 'seismostats/utils/_config.py')],
  ['results, exceptions and warnings of paired runs'])
p('C16', 'Concurrent analyses do not disturb each other or their inputs',
  'Analyses running in several threads on the same catalog or arrays (estimators, deterministic completeness estimates, significance tests, declustering, export, binning) each give the result they give when run alone, also if others of them fail, and never modify the shared input data.',
  ['schedules'],
  'All interleavings of 2 to 4 analyses at every statement.',
  'No test uses threads.',
  ['seismostats/analysis', CA, 'seismostats/utils'],
  [('estimators hold their own copies', 'seismostats/analysis/bvalue/base.py'), ('no module level state besides options and random generator', 'seismostats/utils/_config.py')],
  [], ['results of each analysis', 'inputs before and after'])
p('C17', 'An analysis depends on the events of a catalog, not on its history',
  'A catalog that was filtered, sorted, concatenated, re-indexed, restored from disk or went through failed operations gives the same declustering, a- and b-values, completeness and significance estimates and QuakeML as a catalog newly built from the same events in the same order. Where an analysis orders events by time or magnitude itself, the order of the rows does not matter either: results that refer to events follow the events (as long as their times differ).',
  ['histories', 'fault_sequences'],
  'All sequences of catalog operations (with any resulting index: gaps, duplicates, other orders, labels) followed by any analysis.',
  'Tests run analyses on catalogs with a default index only.',
  ['seismostats/analysis/declustering/dec_gardner_knopoff.py', CA, 'seismostats/analysis/bvalue/base.py', 'seismostats/analysis/b_significant.py', MC],
  [('position based evaluation', 'seismostats/analysis/declustering/dec_gardner_knopoff.py'), ('conversion to arrays', 'seismostats/analysis/bvalue/base.py')],
  [], ['results on the derived and on the rebuilt catalog'])

p('C18', 'Plots draw the given events, whatever was plotted before',
  'Each plot function, and the plot methods of catalogs, draws exactly the events, counts, estimates or confidence bands that follow from its arguments (events without a magnitude are left out, invalid arguments are errors, maps show all events), and draws the same again after any history of other plots and analyses, also failed ones, and for any order and index of the events (as long as their times differ). It draws on the given axes only, opens a figure only if none are given, and never modifies its arguments, the catalog, other axes, the options, the settings of matplotlib or the random generator.',
  ['histories', 'fault_sequences', 'inputs'],
  'All sequences of plots and analyses with failures at any line, arguments as arrays, lists, series with any index or catalog columns, missing and equal magnitudes, with maps from a simulated tile server.',
  'Tests check that single plots with fixed data are produced; what is drawn after something else, and what is left behind, is not looked at.',
  ['seismostats/plots', CA],
  [('plot functions', 'seismostats/plots'), ('methods which pass the columns on', CA)],
  [('matplotlib.rcParams, options', 'global settings', 'seismostats/plots')],
  ['lines, points and legends of the axes', 'arguments, global settings and random state before and after'])
p('C19', 'Rate grids keep cells, times and types through every history',
  'Every history of filtering, sorting, copying, storing (pickle, text), merging, concatenating and time indexing keeps a rate grid a GRRateGrid (ForecastGRRateGrid with grid_id) as long as it has the required columns, a DataFrame otherwise, with the rows pandas gives and the name, start and end time (and number of grids) of the source or first one; GRRateGrid.concat keeps all rows and gives the envelope of the times, and rows of a time-indexed grid have the same cell_id if and only if they have the same bounds, also missing ones. Statistics of a forecast aggregate each quantity over exactly the realisations of a cell (and time) and keep its bounds, and operations that are not in place, or fail, change no other grid. Missing start or end times, required columns or mixed time levels are reported as errors.',
  ['histories', 'fault_sequences', 'crash_points'],
  'All sequences of operations over a pool of grids (also empty, with missing bounds or values, any index), with invalid and aborted operations and restarts from stored files in between.',
  'Tests apply single operations to a few complete grids.',
  ['seismostats/catalogs/rategrid.py'],
  [('concat, add_time_index', 'seismostats/catalogs/rategrid.py'), ('numbering of cells', 'seismostats/catalogs/rategrid.py'), ('__finalize__', 'seismostats/catalogs/rategrid.py')],
  [('starttime, endtime, n_grids', 'metadata of a grid', 'seismostats/catalogs/rategrid.py')],
  ['type, attributes, index and values of every grid in the pool after each step'])

# ---- properties which this technique can not decide: pure functions ----
def na(id, title, st, files, mech, why):
    p(id, title, st, ['inputs'], 'All inputs.', why, files, mech)
na('C30', 'Closed-form b-value estimators satisfy their likelihood equations',
   'Classic, Utsu, positive and more-positive estimators return the maximum-likelihood b-value of the (binned) exponential law above mc for every sample, are invariant to shifting magnitudes together with mc, and scale inversely with the magnitudes.',
   ['seismostats/analysis/bvalue'], [('_mle_estimator', 'seismostats/analysis/bvalue/classic.py')], 'Tests compare a few samples with stored numbers.')
na('C31', 'a-value estimators follow the Gutenberg-Richter scaling',
   'a-values equal the logarithm of the (corrected) number of events above mc, shifted by b times the reference magnitude difference and the scaling factor.',
   ['seismostats/analysis/avalue'], [('_reference_scaling', 'seismostats/analysis/avalue/base.py')], 'Tests compare a few samples with stored numbers.')
na('C32', 'Binning maps every magnitude to the nearest bin, idempotently',
   'bin_to_precision rounds every value half-up to the nearest multiple of the bin size and is idempotent; binning_test accepts exactly binned samples.',
   ['seismostats/utils/binning.py'], [('bin_to_precision', 'seismostats/utils/binning.py')], 'Floating point corner cases are not enumerated.')
na('C33', 'Frequency-magnitude distributions conserve events',
   'The counts of get_fmd sum to the number of magnitudes (or weights) and get_cum_fmd is their reverse cumulative sum.',
   ['seismostats/utils/binning.py'], [('get_fmd', 'seismostats/utils/binning.py')], 'A few samples only.')
na('C34', 'Coordinate transformations and polygon filters are consistent',
   'Transforming to local coordinates and back is the identity within tolerance, and intersecting with a polygon keeps exactly the events inside.',
   ['seismostats/utils/coordinates.py', 'seismostats/utils/filtering.py'], [('CoordinateTransformer', 'seismostats/utils/coordinates.py')], 'A few points only.')
na('C35', 'Significance of b-value variations follows Mirwald et al. (2024)',
   "Moran's I, the n-transformation and the partition of events give the published statistic for every series.",
   ['seismostats/analysis/b_significant.py'], [('est_morans_i', 'seismostats/analysis/b_significant.py')], 'A few series only.')
na('C36', 'Weichert and Kijko-Smit estimates solve their equations',
   'The estimates for unequal completeness periods satisfy the published likelihood equations.',
   ['seismostats/analysis/bvalue/weichert.py', 'seismostats/analysis/bvalue/kijko_smit.py'], [('estimate_b_weichert', 'seismostats/analysis/bvalue/weichert.py')], 'One catalog only.')
na('C38', 'Conversion to and from openquake catalogues is lossless',
   'Converting to an openquake catalogue and back gives the same events with times to the microsecond.',
   [CA], [('from_openquake, to_openquake', CA)], 'A few catalogs only.')
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
