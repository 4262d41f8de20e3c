"""Writes properties.jsonl (kept as code so that it stays readable)."""
import json
import os
C = 'src/seismic/correlate/correlate.py'
ST = 'src/seismic/correlate/stream.py'
DB = 'src/seismic/db/corr_hdf5.py'
W = 'src/seismic/trace_data/waveform.py'
M = 'src/seismic/monitor/monitor.py'
DV = 'src/seismic/monitor/dv.py'
WFC = 'src/seismic/monitor/wfc.py'
U = 'src/seismic/utils/miic_utils.py'
RA = 'src/seismic/utils/raw_analysis.py'
IO = 'src/seismic/utils/io.py'
PS = 'src/seismic/correlate/preprocessing_stream.py'
TD = 'src/seismic/correlate/preprocessing_td.py'
FD = 'src/seismic/correlate/preprocessing_fd.py'


def m(*pairs):
    return [{'name': a, 'where': b} for a, b in pairs]


P = []


def add(id, title, statement, over, text, why, files, mech, state, at):
    names = {
        'schedule': 'schedules', 'configuration': 'configurations',
        'input': 'inputs', 'history': 'histories',
        'crash point': 'crash_points', 'fault': 'fault_sequences',
        'environment': 'schedules'}
    over = sorted({names[o] for o in over})
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files, 'mechanism': mech,
                    'state': [{'name': state, 'meaning': 'what the '
                               'property is about', 'where': files[0]}],
                    'observe_at': [at], 'hook_needed': None}})


add('P01', 'Correlations do not depend on the number of MPI processes',
    'The set of records (pair, channel, start, end, tag), their headers and '
    'their samples (up to float32 rounding) that Correlator.pxcorr leaves in '
    'the correlation files are the same for every number of MPI processes '
    'and every interleaving of their steps. Each correlation file is opened '
    'for writing by exactly one process, and never by two at a time.',
    ['schedule', 'configuration', 'input'],
    'For all archives (gaps, missing stations, dead or constant channels, '
    'sub-sample time offsets), process counts, schedules, directory listing '
    'orders, combination methods and settings of subdivision, '
    'preprocess_subdiv, save_comps_separately and TD/FD preprocessing.',
    'The tests run one process with mocked collectives; which rank holds '
    'which station, and who runs when, is a product of rank count, data '
    'availability and schedule that no handful of examples covers.',
    [C, ST, U, TD, FD],
    m(('pmap distribution of channels, traces, pairs and files over ranks',
       C + ' _generate_data/_pxcorr_matrix/_write'),
      ('allgather of windows, Allreduce of spectra and correlations',
       C + ' _generate_data/_pxcorr_matrix'),
      ('sliding windows per rank', C + ' generate_corr_inc')),
    'contents of {corr_dir}/*.h5',
    'the HDF5 files after the job; every h5py open during it')

add('P02', 'MPI jobs never deadlock, mix collectives, or stop for bad data',
    'In every MPI job (Correlator construction and pxcorr, Monitor '
    'dv and wfc bulk runs, the parallel spectrogram) all processes call the '
    'same collective operations in the same order with matching buffers, so '
    'no process waits forever. Data that cannot be preprocessed (upsampling '
    'needed, too short, masked, missing, failing preprocessing function) '
    'only costs records of the read window it lies in: the job '
    'terminates normally, and every record it does write equals the one '
    'written when that data is processed by a single process.',
    ['schedule', 'input', 'fault'],
    'For all process counts, schedules and archives in which any subset of '
    'channels is missing, ends early, starts late, has the wrong sampling '
    'rate or fails in preprocessing, in any read window.',
    'A deadlock needs at least two processes disagreeing on control flow; '
    'the test-suite is single process.',
    [C, M, RA, W],
    m(('per-window collective loop', C + ' _generate_data'),
      ('equal number of windows on ranks without data',
       C + ' generate_corr_inc'),
      ('error handling around preprocessing', C + ' _generate_data'),
      ('gather of spectra', RA + ' spct_series_welch'),
      ('allgather of coherences',
       M + ' compute_waveform_coherence_bulk')),
    'sequence of collectives per rank',
    'the MPI communicator; termination of every rank')

add('P03', 'An interrupted correlation run is completed by a restart',
    'If pxcorr is killed, interrupted or fails on an I/O error at any point '
    'between database updates and is then run again on the same project '
    '(any number of processes, any number of such crashes, longer time '
    'range, more stations), the subdivision records end up being exactly '
    'those of one uninterrupted run. Records that were in the database '
    'before a run are never changed, lost or duplicated by it, and a rerun '
    'on a complete database writes nothing new. (Stack records of a read '
    'interval that was interrupted are a recorded finding; coordinates are '
    'compared where the metadata could be read.)',
    ['crash point', 'history', 'schedule'],
    'For all crash points (between database updates), all sequences of '
    'partial runs, process counts and extensions of time range or network.',
    'Restart correctness quantifies over every crash point and history; '
    'the tests check single calls of the look-up with mocked databases.',
    [C, DB],
    m(('look-up of existing start times', C + ' find_existing_times'),
      ('skipping of existing pairs',
       C + ' calc_cross_combis/_compare_existing_data'),
      ('write per read window', C + ' pxcorr/_write'),
      ('duplicates are refused', DB + ' add_correlation')),
    'contents of {corr_dir}/*.h5 before and after each run',
    'the HDF5 files at each crash and after the last run')

add('P04', 'The correlation database is a write-once map with exact retrieval',
    'CorrelationDataBase stores each record under (tag, networks, stations, '
    'channels, corr_start, corr_end); the first write wins, later writes of '
    'the same key are refused with a warning and change nothing, and samples '
    'and header survive closing and reopening unchanged. get_data, '
    'get_available_starttimes, get_available_channels and remove_data act on '
    'exactly the records matching the request, with wildcards (* and ?) in '
    'any field and the two stations of a pair given in either order. An '
    'error or interruption inside an operation leaves every other record '
    'intact and no record that cannot be read back complete. (Keys hold '
    'times to 0.1 ms; channels emptied by remove_data may stay listed.)',
    ['history', 'input', 'fault'],
    'For all sequences of add, get, list and remove operations, sessions, '
    'codes (including codes that are prefixes of one another), and errors '
    'at any storage call.',
    'It is a statement about arbitrary operation histories with failures, '
    'against a reference map.',
    [DB, ST],
    m(('write', DB + ' DBHandler.add_correlation'),
      ('read', DB + ' DBHandler.get_data/all_traces_recursive'),
      ('delete', DB + ' DBHandler.remove_data'),
      ('list', DB + ' get_available_starttimes/get_available_channels'),
      ('header conversion', DB + ' convert_header_to_hdf5/read_hdf5_header')),
    'the HDF5 file', 'return values of the handler; reopened files')

add('P05', 'Data computed with different parameters are never mixed',
    'Opening a correlation file with processing options that differ from '
    'the stored ones in anything that affects the correlations raises '
    'PermissionError and leaves the file unchanged and reopenable (unless '
    'forced); options differing only in what is documented as irrelevant '
    '(time range, combinations, subdirectory, recombination, masking times, '
    'run-time switches) are accepted. The first options stored in a file '
    'stay for its life, also when the process that created it dies or fails '
    'part way.',
    ['configuration', 'history', 'crash point'],
    'For all pairs of option dictionaries, all sequences of sessions and '
    'all failure points while creating or opening a file.',
    'Tests compare two hand-written dictionaries; the property quantifies '
    'over every key, nesting and order, and over crashed creations.',
    [DB],
    m(('comparison', DB + ' DBHandler.__init__'),
      ('normalisation', DB + ' co_to_hdf5'),
      ('storage', DB + ' add_corr_options/get_corr_options')),
    'the co dataset of each file', 'opening a file for writing')

add('P06', 'A stack holds exactly the windows of its own read interval',
    'With recombine_subdivision, every stack_<read_len> record of a pair is '
    'the mean of exactly that pair\'s correlation windows from one read '
    'interval that the run computed: none is missing, doubled or taken from '
    'another interval (with normalisation, the mean is scaled to unit '
    'maximum), and '
    'its corr_start/corr_end are the first start and last end of those '
    'windows. With delete_subdivision only stacks are stored and they are '
    'the same stacks.',
    ['input', 'configuration', 'schedule'],
    'For all numbers of read intervals, gap patterns, window settings, '
    'process counts and schedules.',
    'Needs several read intervals of real data through the whole loop; the '
    'unit test only counts mocked calls.',
    [C, ST],
    m(('flush per read interval', C + ' pxcorr'),
      ('stacking', ST + ' CorrStream.stack/stack_st/stack_st_by_group'),
      ('file assignment', C + ' _write')),
    'stack_* groups of the HDF5 files',
    'stack records versus subdivision records of the same run')

add('P07', 'Exactly the requested correlations are stored, with right content',
    'pxcorr stores one record per requested pair (by combination_method and '
    'xcombinations) and correlation window in which both channels have '
    'data, and none else. Its samples are the (optionally normalised) cross-'
    'correlation of exactly those two windows over +/- lengthToSave, and its '
    'header carries the codes in alphabetical order, the window times, lag '
    'times, sampling rate and coordinates of the two stations in that order.',
    ['input', 'configuration'],
    'For all archives, station sets, channel sets, combination methods, '
    'requested combinations, window lengths and increments, lags, process '
    'counts and schedules.',
    'Tests check single helper functions on toy matrices; the end-to-end '
    'mapping from archive to stored records is a product of many choices.',
    [C, ST, 'src/seismic/correlate/stats.py'],
    m(('pair selection', C + ' calc_cross_combis/is_in_xcombis'),
      ('windowing', C + ' generate_corr_inc'),
      ('correlation', C + ' _pxcorr_matrix'),
      ('header', ST + ' CorrTrace/combine_stats')),
    'contents of the correlation files', 'the stored records')

add('P08', 'Writing to the waveform archive never loses stored samples',
    'After Store_Client writes a stream to the local archive, reading the '
    'archive returns every sample written before and now, in the day file of '
    'its own date (a sample exactly at midnight may be in the previous day\'s '
    'file too), for streams with gaps, overlaps, several channels or days '
    'in any order. If a write fails or is cut short at any point (full disk, '
    'I/O error, interruption, crash), every sample that had been stored '
    'before that call is still readable, and no sample is wrong.',
    ['history', 'fault', 'crash point'],
    'For all sequences of writes and all failure points inside a write.',
    'The tests mock the file write; a torn write at each point is outside '
    'of their reach.',
    [W],
    m(('split into days', W + ' _write_local_data'),
      ('merge with existing day file', W + ' _sds_write')),
    'mseed/{year}/{net}/{sta}/{cha}.D/*', 'files of the archive')

add('P09', 'Waveform requests are served completely and cached correctly',
    'get_waveforms returns the provider\'s samples for the requested '
    'channel and interval (the samples nearest to the requested ends) whether '
    'they come from the local archive, from the '
    'provider, or a bit of both, and a provider without data yields an empty '
    'stream. What was fetched once is stored and served locally afterwards '
    'without asking the provider again, and the archive never serves samples '
    'that the provider did not deliver. (A hole inside a locally covered '
    'interval is a recorded finding.)',
    ['history', 'fault', 'input'],
    'For all sequences of requests (overlapping, adjacent, across midnight, '
    'with gaps), provider failures and truncated answers.',
    'A statement over request histories and provider behaviour.',
    [W],
    m(('local first', W + ' get_waveforms/_load_local'),
      ('remote and store', W + ' _load_remote/_write_local_data')),
    'the archive and the provider', 'returned streams; provider call log')

add('P10', 'Station metadata once obtained is never lost',
    'Every channel response written to the inventory directory stays '
    'available (to the same client, and to a client opened later) after any '
    'further inventory update for the same or another station, and metadata '
    'without response never replaces one with it. A failed, '
    'interrupted or torn inventory write does not make previously stored '
    'metadata unreadable.',
    ['history', 'fault', 'crash point'],
    'For all sequences of metadata updates (different channels, epochs, '
    'stations) and failure points.',
    'Depends on the order of updates and on where a write fails.',
    [W, C],
    m(('write per station', W + ' _write_inventory'),
      ('read all', W + ' read_inventory'),
      ('on demand', W + ' select_inventory_or_load_remote/_load_remote')),
    'inventory/*.xml', 'the inventory of this and a fresh client')

add('P11', 'Archive discovery lists exactly what is in the archive',
    'For every archive tree, get_available_stations and the expansion of '
    'network, station and component wildcards return exactly the stored '
    'networks, stations and channels that match (folders left empty by an '
    'interrupted write may be listed), and _get_times returns the '
    'first and the last day with data, independent of directory order. '
    'Windows generated for a station start at starttime + k * increment, each '
    'once, in order; only the last may reach beyond the end.',
    ['input', 'environment'],
    'For all archive trees (years, days, channels, empty directories) and '
    'all directory listing orders.',
    'Directory order is decided by the file system and never varied by '
    'tests.',
    [W],
    m(('stations', W + ' get_available_stations'),
      ('wildcards', W + ' _translate_wildcards'),
      ('times', W + ' _get_times/get_day_in_folder'),
      ('windows', W + ' _generate_time_windows')),
    'the archive tree', 'return values')

add('P12', 'Raw data is never modified by reading or processing it',
    'Opening an archive read-only creates and changes nothing below it, and '
    'no correlation run, read, window generation or failed download '
    'changes, removes or truncates an existing waveform file; the mass '
    'downloader is only ever pointed at day files that do not exist yet.',
    ['history', 'fault', 'schedule'],
    'For all sequences of read and processing operations, with failures, '
    'with any number of processes.',
    'An invariant over everything a program may do to the archive.',
    [W, C],
    m(('read_only', W + ' Store_Client.__init__/_load_remote'),
      ('mass downloader callback', W + ' _get_mseed_storage'),
      ('reading', C + ' _generate_data')),
    'bytes of every file below the archive root',
    'the file tree before and after; every write call')

add('P13', 'Velocity change runs are complete, isolated and rank independent',
    'compute_velocity_change_bulk writes one dv file for every channel '
    'combination of every requested correlation file that can be processed, '
    'identical for every number of processes, schedule and directory order, '
    'and equal to processing that combination alone. A combination that '
    'fails leaves all others unaffected, and a homogeneous stretch present '
    'in the correlations is recovered with the right sign and size, at '
    'the dates the data belong to, with one value (or none, where there are '
    'no data) for every window. (Date smoothing, where requested, fills '
    'windows without data.) It is the result of the documented steps taken '
    'one after the other: normalise, average per window, filter, preprocess, '
    'compare with the reference, undo that change, compare with the '
    'reference of the outcome, postprocess.',
    ['schedule', 'fault', 'input'],
    'For all sets of correlation files, requested networks/stations, '
    'process counts, schedules and failing combinations or writes.',
    'Single-process tests with mocked databases cannot show distribution '
    'and isolation.',
    [M, ST, DV, 'src/seismic/monitor/stretch_mod.py',
     'src/seismic/monitor/post_corr_process.py'],
    m(('distribution', M + ' compute_velocity_change_bulk'),
      ('file selection', M + ' corr_find_filter'),
      ('processing', M + ' compute_velocity_change')),
    '{dv_dir}/DV-*.npz', 'the dv files')

add('P14', 'Waveform coherence runs are complete and rank independent',
    'compute_waveform_coherence_bulk writes, for every station combination, '
    'frequency band and lapse window (rounded to samples; a band above '
    'Nyquist ends the bands of that combination), the mean over all its channel '
    'combinations, and with save_comps one file per combination, identical '
    'for every number of processes, schedule and directory order. A failing '
    'combination only costs its own contribution.',
    ['schedule', 'fault', 'configuration'],
    'For all sets of correlation files, band/window lists, process counts, '
    'schedules and failing combinations.',
    'As P13.',
    [M, WFC],
    m(('distribution and gather', M + ' compute_waveform_coherence_bulk'),
      ('averaging', M + ' average_components_wfc')),
    '{wfc_dir}/WFC-*.npz', 'the wfc files')

add('P15', 'Component averages combine exactly the right dv files',
    'compute_components_average writes, per network and station '
    'combination, the average over exactly the dv files of that combination '
    'selected by the method (and nothing if there are fewer than two; a '
    'readable average that exists is kept), whatever the directory is called and in whatever order it is listed. '
    'Running it again, after other methods, or with corrupt files present '
    'neither changes the result nor averages an average.',
    ['environment', 'history', 'input'],
    'For all sets of dv files (codes that are prefixes of one another, '
    'codes or directories containing "av"), listing orders, sequences of '
    'methods and corrupt files.',
    'Listing order and history are never varied by tests.',
    [M],
    m(('grouping', M + ' compute_components_average'),
      ('averaging', M + ' average_components')),
    '{dv_dir}/DV-*.av*.npz', 'the averaged dv files')

add('P16', 'Result files round-trip, and damaged ones are never returned',
    'DV, WFC, and CorrBulk objects read back from disk carry the same '
    'values and header they were saved with (times to 10 us; tuples may become '
    'lists). A file cut short or damaged by '
    'a crash, full disk or torn write is never returned as data: reading '
    'it alone raises, and a wildcard read skips it and returns all the '
    'others. Saving again to an existing file replaces it only once '
    'everything could be written: whatever goes wrong, the old file or the '
    'new one can be read.',
    ['fault', 'crash point', 'input'],
    'For all objects, and all truncation points and failing writes.',
    'Every prefix of a file is a possible crash outcome.',
    [DV, WFC, ST, U],
    m(('save', DV + ' DV.save'), ('read', DV + ' read_dv'),
      ('wfc', WFC + ' WFC.save/read_wfc'),
      ('bulk', ST + ' CorrBulk.save/read_corr_bulk'),
      ('header', U + ' save_header_to_np_array/load_header_from_np_array')),
    'npz files', 'read_dv/read_wfc/read_corr_bulk')

add('P17', 'Spectrograms do not depend on the number of MPI processes',
    'The parallel spectrogram of a channel returned on rank 0 (frequencies, '
    'times, power) is the same for every number of processes and schedule, its '
    'columns are in time order and belong to their times, and windows '
    'without usable data (missing, with gaps, too short) are left out without affecting others. It raises '
    'on rank 0 only if no window at all is usable.',
    ['schedule', 'input'],
    'For all streams of windows (gaps, failing windows), process counts and '
    'schedules.',
    'The round-robin over ranks is invisible to single-process tests.',
    [RA, W],
    m(('distribution and gather', RA + ' spct_series_welch'),
      ('windows', W + ' _generate_time_windows/compute_spectrogram')),
    'returned arrays', 'rank 0\'s result')

add('P18', 'File system client returns exactly the requested samples',
    'FS_Client.get_waveforms returns exactly the stored samples of the '
    'requested channel within the requested interval (ends included), for '
    'every file structure descriptor built from ID placeholders and time '
    'placeholders from the year to the minute in any order, across file '
    'borders (minute, hour, day, week, month, year), for any directory order, and with '
    'other channels, neighbouring stations and gaps present.',
    ['input', 'environment'],
    'For all descriptors, intervals, archives and listing orders.',
    'File borders, descriptor grammar and listing order multiply.',
    [W],
    m(('pattern', W + ' _current_filepattern/_fs_translate'),
      ('next/previous file', W + ' _adjacent_filepattern'),
      ('read', W + ' read_from_filesystem/_read_filepattern')),
    'files of the archive', 'returned streams')

add('P19', 'Response and polarity corrections act on each channel by itself',
    'With remove_response, every correlation record is that of data in which '
    'each channel was deconvolved exactly once with its own response, '
    'whether that came from the archive or was fetched from the metadata '
    'service, and in which vertical channels whose metadata say that they '
    'are reversed are inverted. A channel whose response cannot be obtained '
    'is left out and costs nothing else. Neither errors of the service (on '
    'any process, at any call) nor of storing the metadata stop the job, and '
    'the result is the same for every number of processes.',
    ['schedule', 'input', 'fault'],
    'For all combinations of stored and remote metadata, service answers '
    '(complete, without response, none, time-out, intermittent), process '
    'counts and schedules.',
    'Which process asks the service for which channel, and what it answers '
    'then, is outside of what single-process tests with mocks can vary.',
    [C, W, U],
    m(('response and polarity', C + ' preprocess_stream/_remove_response'),
      ('polarity', U + ' correct_polarity'),
      ('metadata on demand', W + ' select_inventory_or_load_remote'),
      ('storing it', W + ' _write_inventory/update_inventory')),
    'contents of the correlation files', 'the stored records; the archive')

add('P20', 'Spatial inversion depends neither on order nor on history',
    'The dv/v grid, resolution, covariance and forward model that DVGrid '
    'computes for a time are determined by the grid parameters, the lapse '
    'window and frequencies, and the set of dvs that have a value at that '
    'time: not by the order in which dvs are given or listed, by other dvs, '
    'by earlier calls on the same object, or by whether the dvs were saved '
    'and read again. Aligning dvs to a grid shifts each of them exactly once '
    'and by the value modelled for its own station pair; saving aligned dvs '
    'replaces a file only by a complete one, so that an interrupted alignment '
    'can be repeated and gives the same dvs.',
    ['history', 'input', 'fault'],
    'For all sequences of operations on dvs in memory and on disk, listing '
    'orders, time windows and faults while saving.',
    'The tests mock all parts against each other; the state kept between '
    'calls (kernels, last grid, marks in dvs and files) is what goes wrong.',
    ['src/seismic/monitor/spatial.py', DV],
    m(('inversion', 'src/seismic/monitor/spatial.py DVGrid'),
      ('alignment', 'src/seismic/monitor/spatial.py align_dvs_to_grid'),
      ('files', DV + ' save/read_dv'),
      ('replacing files', U + ' save_npz')),
    'arrays returned, dv files', 'the same')

add('P21', 'Work on a correlation bulk keeps rows, times and lags together',
    'After any history of operations on a CorrBulk (processing, selection, '
    'measurement, correction, conversion to a stream and back, storing and '
    'rereading), every row belongs to its times and codes and every column '
    'to its lag: row-wise operations give each row what it would get alone, '
    'operations on the lag axis keep the delay of the signal, operations '
    'that combine rows use those they name. Measuring (shift, stretch, '
    'coherence, extraction), an operation on something derived from it, and '
    'a call that fails (wrong argument, no memory, interrupt) leave the bulk '
    'as it was; results handed out earlier do not change. Continuing from a '
    'saved bulk gives what the uninterrupted history gives.',
    ['history', 'input', 'fault', 'crash point'],
    'For all bulks (rows in any order, gaps, empty rows, one-sided or '
    'lopsided lags), operation histories, wrong calls, failing allocations, '
    'interrupts, kills and file errors.',
    'The tests call each function once on a symmetric, complete matrix; '
    'what goes wrong is the state that one operation leaves to the next, '
    'and the state a failed one leaves behind.',
    [ST, 'src/seismic/monitor/post_corr_process.py',
     'src/seismic/monitor/trim.py'],
    m(('operations on bulks', ST + ' CorrBulk'),
      ('matrix operations', 'src/seismic/monitor/post_corr_process.py'),
      ('trimming', 'src/seismic/monitor/trim.py'),
      ('saving', ST + ' CorrBulk.save/read_corr_bulk'),
      ('header of a bulk', 'src/seismic/correlate/stats.py')),
    'data and stats of a CorrBulk', 'the object after every operation')

add('P22', 'Velocity change series are stitched, averaged and smoothed right',
    'After any history of stitching (correct_time_shift_several), averaging '
    '(average_components with and without stitching, the memory saving '
    'variant, by coordinates), smoothing, saving and reading of velocity '
    'change series, every window of every series holds its own similarity '
    'curve, value and coefficient: stitching moves all windows of a later '
    'series by the offset to the series before it, measured on all windows '
    'that both have (and n_overlap more), whatever the order of the list; an '
    'average holds for each window the mean of the series that have it and '
    'their number; smoothing uses the windows in reach; windows without data '
    'stay without. Everything else, and all series if a call fails, are as '
    'they were or as they have to be afterwards, so that repeating the call '
    'or continuing from saved files gives the uninterrupted result.',
    ['history', 'input', 'fault', 'crash point'],
    'For all series (overlapping, adjacent, with gaps and offsets), orders, '
    'histories, failing allocations, interrupts, kills and file errors.',
    'The tests stitch complete random matrices once and mock the rest; gaps, '
    'single common windows, and what one operation leaves to the next or '
    'when it fails half way, are not sampled.',
    [M, DV, U],
    m(('stitching', M + ' correct_dv_shift/correct_time_shift_several'),
      ('averages', M + ' average_components/average_components_mem_save/'
       'average_dvs_by_coords'),
      ('smoothing', DV + ' DV.smooth_sim_mat, ' + U + ' nan_moving_av'),
      ('saving', DV + ' DV.save/read_dv')),
    'series of velocity changes', 'the DV objects after every operation')

add('P23', 'The workflow from archive to velocity change can be repeated '
    'anywhere',
    'Running the stages of a project (correlation, velocity change, component '
    'averages, waveform coherence) from one parameter dictionary or yaml '
    'file, each with any number of processes, stopped by crashes, Ctrl-C or '
    'errors and then repeated, first on a part of the time or the stations '
    'or all at once, leaves the same correlations, velocity changes, '
    'averages and coherences as one straight run with one process: nothing '
    'incomplete left by a stopped stage is kept when it is repeated. A stage '
    'changes only its own results, never those of the stages before nor the '
    'archive. Every pair and window the archive has data for appears in the '
    'results, and a homogeneous velocity change of the medium is found with '
    'the right sign, size and date.',
    ['history', 'crash point', 'fault', 'schedule', 'input'],
    'For all archives, parameter sets, stage histories, process counts, '
    'schedules, faults and crash points.',
    'No test runs more than one stage on real files; what a stopped stage '
    'leaves for the next is never looked at.',
    [C, M, 'src/seismic/db/corr_hdf5.py'],
    m(('stages', C + ' Correlator.pxcorr, ' + M + ' Monitor bulk methods'),
      ('hand-over', 'src/seismic/db/corr_hdf5.py, ' + DV),
      ('parameters', C + ' and ' + M + ' constructors')),
    'archive and parameter file', 'the files in the project directory')

# -- pure functions -------------------------------------------------------
add('N01', 'Stretching estimators recover the imposed velocity change',
    'For correlation matrices stretched by a known factor, the stretching '
    'and multi-reference estimators return that factor within a grid step, '
    'with a similarity of one.',
    ['input'], 'For all matrices, stretch ranges and lapse windows.',
    'Numerical identity over real-valued inputs.',
    ['src/seismic/monitor/stretch_mod.py'],
    m(('estimators', 'src/seismic/monitor/stretch_mod.py')),
    'none', 'return values')
add('N02', 'Time and frequency domain preprocessing is what it claims',
    'Each TD/FD preprocessing step acts per trace (the result for one trace '
    'does not depend on the other traces) and has its documented effect '
    '(one-bit amplitude, unit spectrum, mute, clip, taper, padding).',
    ['input'], 'For all matrices and arguments.',
    'Numerical identities over real-valued inputs.',
    [TD, FD], m(('steps', TD), ('steps', FD)), 'none', 'return values')
add('N05', 'Downsampling and gap handling neither invent nor shift samples',
    'resample_or_decimate keeps start times and never upsamples; '
    'gap_handler only fills gaps shorter than its limit, and masks elsewhere.',
    ['input'], 'For all traces and rates.',
    'Numerical identities over real-valued inputs.',
    [U], m(('resampling', U + ' resample_or_decimate'),
           ('gaps', U + ' gap_handler')), 'none', 'return values')
add('N06', 'Figures show the data they are given',
    'Every plotting function draws the values, times and limits of the '
    'object it is given and does not modify that object.',
    ['input'], 'For all objects and options.',
    'Rendering is compared by eye.',
    ['src/seismic/plot/plot_dv.py', 'src/seismic/plot/plot_correlation.py'],
    m(('plots', 'src/seismic/plot/')), 'none', 'figures')

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
