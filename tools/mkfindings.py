#!/usr/bin/env python3
"""Writes known_findings.json (kept as code so that it stays readable)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []


def fixed(prop, commit, what):
    F.append({'id': '%s-%s' % (prop, commit), 'property': prop,
              'status': 'fixed', 'commit': commit,
              'what': 'fixed: property=%s %s %s' % (prop, commit, what)})


def known(id, prop, kind, contains, witness, what):
    F.append({'id': id, 'property': prop, 'status': 'known', 'kind': kind,
              'contains': contains, 'witness': witness, 'what': what})


fixed('P02', '796eb4a',
      'generate_corr_inc looped over different windows on different processes '
      'if a process had no or shorter traces: hang in the collectives, or '
      'correlations of different windows with each other')
fixed('P01', '91f75c3',
      'a dead (all zero) channel switched spectral whitening off for all '
      'other traces on the same process')
fixed('P01', 'edf5a88', 'the same for dead channels containing NaNs')
fixed('P07', 'b9eeff2',
      'get_valid_traces and discard_short_traces removed traces from the '
      'stream they were iterating over and so kept every second bad one')
fixed('P06', '79a70ca',
      'the first windows of the next read interval were added before the '
      'stack of the last one was written')
fixed('P02', '99d0b16',
      'an exception while resampling or preprocessing on one process left '
      'the others waiting for ever')
fixed('P07', '9a099e2',
      'station codes that are prefixes of each other were ordered differently '
      'in the header and in the file name')
fixed('P03', '654b0e1',
      'restart raised KeyError if an existing correlation file did not hold '
      'the queried pair or tag')
fixed('P01', '51c3207',
      'start of each correlation window was derived from the other traces on '
      'the same process')
fixed('P03', '6e05928',
      'the start of a window depended on the first trace in it, so windows '
      'were computed again by every rerun and stacked alone')
fixed('P04', '6621387',
      'Ctrl-C or an error while the header was written left a correlation '
      'without header that could not be read and was never written again')
fixed('P05', '835f5c1',
      'an interruption between creating the dataset and the attribute that '
      'hold the options made the file unusable')
fixed('P04', '0e65e65',
      'get_data and get_available_starttimes raised KeyError for wildcards '
      'within a code and for ?')
fixed('P04', 'c2afd8d',
      'remove_data treated ? like * and deleted start times that do not match')
fixed('P04', 'e8c6f7e',
      'an interrupted add left empty groups that are listed as channels')
fixed('P05', 'c0336a5',
      'a file that was refused (different options, error while storing the '
      'options) stayed open in the process')
fixed('P07', '3255386',
      'inverse FFT assumed an even number of padded samples, '
      'so the lag axis was stretched')
fixed('P07', 'de6cca5',
      'xcombinations also matched stations whose code starts with the requested one')
fixed('P07', '4cb9707',
      'combinations requested with a channel code were never computed')
fixed('P07', '3051953',
      'a mask that covers a whole trace was ignored')
fixed('P08', '6087845',
      'single samples and samples at midnight were not archived')
fixed('P08', '5b32c0a',
      'data with a gap to the data in the archive could not be written')
fixed('P08', 'a12823b',
      'a failed write to the archive destroyed the samples stored before')
fixed('P12', 'ba5d3be', 'read-only clients wrote to the inventory folder')
fixed('P10', '0a1d369',
      'new station information overwrote the one stored before')
fixed('P10', '9566a01',
      'an interrupted write made the station information unreadable')
fixed('P09', '44a90ea',
      'first or last requested sample was missing if it was not in the '
      'archive')
fixed('P09', 'e5b7cf9',
      'downloaded waveforms were dropped if there is no response for them')
fixed('P11', '8ad00d4', 'unrelated folders in the archive could not be told from years')
fixed('P11', '5b98e31', 'IndexError for stations with empty folders in the archive')
fixed('P11', '914f1e3', 'folders that are not part of the archive were taken for stations')
fixed('P17', 'd975dc1', 'spectrograms contained windows with gaps, filled with undefined values')
fixed('P17', 'c58be18', 'spectrogram failed if the first process had no usable window')
fixed('P18', 'ae206d7', 'FS_Client could not step to the next or previous month and year')
fixed('P18', '03d3c84', 'FS_Client failed for file structures without time indicators')
fixed('P18', 'e628298', 'replacements in file structure descriptors were not recognised')
fixed('P18', 'dce5912', 'FS_Client missed samples at the beginning of the next file')
fixed('P18', '3733784', 'FS_Client missed requested samples at the borders of files')

fixed('P13', '70d96a4', 'dv files were selected with the patterns of the first code only: the station list was ignored, cross pairs of listed codes were left out')
fixed('P13', 'ef72bae', 'one unreadable correlation file ended compute_velocity_change_bulk and the coherence run')
fixed('P13', 'b6d81a9', 'dv with tw_len None (the whole coda) failed or was always zero')
fixed('P13', '7acad51', 'the median reference trace was NaN as soon as the matrix had a gap')
fixed('P16', '576510e', 'a failed write left DV/WFC/CorrBulk npz files that open but lack some of their arrays')
fixed('P14', '8cef824', 'one failing correlation file, channel combination or average ended the waveform coherence run of all processes; all processes wrote the same averages')
fixed('P14', 'a44d984', 'lapse windows and trimming lost a sample to floating point precision (window of the coherence shifted)')
fixed('P15', 'fa1892b', 'component averages mixed stations whose codes begin alike, skipped codes and folders that contain av or dots, depended on the listing order, and one failing average ended the run')
fixed('P16', 'dab1262',
      'dv, coherence and bulk files did not restore the object: times of a '
      'single window came back as scalars, dvs with the whole coda or with '
      'the properties of averages could not be read, lists in the header '
      'became arrays, a reread CorrBulk had a plain dict as header and none '
      'of its methods worked')
fixed('P16', '6d71efc',
      'one truncated file (not only BadZipFile) ended a wildcard read_dv; '
      'read_wfc skipped no damaged file at all')
fixed('P16', 'ab931b3',
      'a dv saved without similarity matrix (measure_shift) could not be '
      'read')
fixed('P18', '6e24c02', 'a file structure whose last time indicator is not the finest one '
      '(day.month.year), %M, %-d or weeks: data in the adjacent files were '
      'silently missing')
fixed('P19', 'a32c18e', 'two processes fetching the metadata of one station: one of them '
      'failed or stored half a file; metadata without response from the '
      'service replaced a known response')
fixed('P19', '68cdcce', 'one channel without response: traces before it deconvolved twice, '
      'other stations never requested, errors of the service stopped the job '
      'with the other processes waiting; a Z channel without metadata kept '
      'following reversed ones of that process from being corrected, so the '
      'result depended on the number of processes')
fixed('P20', '4a96cbf', 'sensitivity kernels raised for grids with a resolution like .1 or '
      '.3 km and for lapse times that are no multiple of dt')
fixed('P20', 'b9c8caf', 'align_dvs_to_grid gave dvs the shift of another station pair if one '
      'dv had no usable value (similarity of one, or none) at that time, or '
      'failed')
fixed('P20', 'b2a26ea', 'dvs without (complete) processing information: inversion failed even '
      'with explicit window and frequencies, all such dvs shared one '
      'dictionary and so counted as aligned after the first one, and they '
      'could not be saved once they were aligned')
fixed('P20', '11ed52c', 'an aligned dv could not be saved (full disk): the old file was gone')
fixed('P21', '5607772', 'taper_center shifted its taper off zero lag for correlations '
      'that are one-sided or not symmetric, or failed')
fixed('P21', 'e4db88b', 'mirroring a bulk whose zero lag lies between two samples '
      'averaged lags that are not opposite')
fixed('P21', '292f85d', 'measuring velocity changes, shifts or coherence altered start_lag '
      'and npts of the bulk if its sides differ; the results shared their '
      'stats with the bulk and changed with its later processing')
fixed('P21', '2688917', 'slicing or indexing a CorrBulk with one correlation, or one '
      'that was processed before, raised or mixed up headers')
fixed('P21', 'f7be067', 'the header of a CorrBulk resampled in time kept codes and '
      'number of rows of the old one; a single bin ended with the '
      'last row, not the latest')
fixed('P21', '3a7c1bf', 'smoothing, decay and stretch corrections left the bulk half '
      'changed if they failed or were interrupted')
fixed('P21', 'cbdef5e', 'correcting the stretch or shift of a bulk with one '
      'correlation raised')
fixed('P21', 'e8f7798', 'trimming between two samples shifted the lag axis by up to a '
      'sample; normalising between lags given as decimals lost one')
fixed('P21', '13bb474', 'location and channel codes of a bulk that was saved and read '
      'got lost when it was stored in a correlation database')
fixed('P21', '5525ce8', 'resampling a bulk in time failed after the times had been '
      'replaced (out of memory): header and rows did not match')
fixed('P03', '6914d30', 'preprocess_subdiv: windows of up to 80 s were all discarded, so '
      'that a restart with new stations or times never correlated them')
fixed('P07', '7528fea', 'preprocess_subdiv: leftovers between gaps set the sampling points; '
      'a restart stored existing windows a second time up to half a sample '
      'earlier or later')
fixed('P03', '7ab7aa6', 'requested combinations in other than alphabetical order or with '
      'channel codes: existing correlations were not found, everything was '
      'computed again and preprocess_subdiv switched off')
fixed('P21', '2b658fe', 'select_time selected correlations that cross midnight '
      '(23-0 h for 1-5 h) and nothing after midnight for parts of the day '
      'that comprise midnight')
fixed('P22', 'e72d32b', 'smoothing a dv gave windows without data the lowest '
      'value of the second axis, did not update which windows are available '
      '(stitching or averaging it differed from doing so after saving and '
      'reading), and left it half done if it failed')
fixed('P22', 'b9efa36', 'the last common window was not used to stitch dvs; with '
      'a single common window they were not stitched at all')
fixed('P22', 'e3b6e08', 'stitching dvs invented velocity changes in windows '
      'without data, from the similarities of neighbouring windows')
fixed('P22', '6628e74', 'the memory saving average of dvs counted undefined '
      'similarities as zeros and took header and processing from the first '
      'dv even if that was skipped')
fixed('P23', 'bcc5e72', 'the Correlator altered the options it was given (and '
      'lost what it had been told), so that neither a Monitor nor a second '
      'Correlator could be created with the same dictionary')
fixed('P15', 'ca775f2', 'the averages of dvs of which one could not be read for '
      'the moment (EIO, no memory) were written without it, and the next '
      'run kept them')
fixed('P23', '1a3e2ec', 'Monitor refused log levels in lower case, which the '
      'Correlator accepts')
fixed('P13', 'aaf5101', 'velocity changes (and shifts) of a single time '
      'window were written without time axis, so that they could not be '
      'read, averaged or plotted like others')
fixed('P21', 'fd8afcf', 'with several references, time windows without data '
      'were given the lowest velocity change of the range as value')
known('P04-collapsed', 'P04', 'collapsed-pattern', '',
      'known/P04-collapsed.json',
      'get_data with a wildcard standing for a whole code followed by a more '
      'specific code (network * and station AB-AB) also returns records whose '
      'other codes end or begin alike (network AB-AB), because /* is '
      'collapsed to * before matching; the existing tests pin that pattern')
known('P03-stack', 'P03', 'stack-after-interrupted-write', '',
      'known/P03-stack.json',
      'if pxcorr is stopped by Ctrl-C or an I/O error while it is adding the '
      'windows of a read interval to a file (not if it is killed between file '
      'updates), the restart adds the missing windows, but the stack of that '
      'interval is missing or computed from those windows only; the existing '
      'tests pin the order windows, then stack')
known('P09-hole', 'P09', 'hole-between-fetches', '',
      'known/P09-hole.json',
      'get_waveforms for an interval whose first and last sample are in the '
      'archive is served from the archive, also if there is a hole in between '
      'that was never requested from the provider; a hole the provider really '
      'has looks the same, so asking again would cost a download for every '
      'gap')

known('P22-wrap', 'P22', 'wrapped', '',
      'known/P22-wrap.json',
      'stitching shifts the similarity matrix as one long row: what leaves a '
      'window at one end of the second axis enters the neighbouring window '
      'at the other end, and becomes its value if it is more similar than '
      'the maximum of that window; the existing tests pin that shift')

with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
    json.dump({'findings': F}, f, indent=1)
    f.write('\n')
