From 796eb4ad76b06d6c5e6d61bd2e7f50c29850b16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 01/80] fix: loop over the same correlation windows on all
 processes

The number and position of the windows returned by generate_corr_inc
depended on the data that happened to be read by each process (skipped
windows in gaps, additional windows due to sub-sample offsets). This led to
shifted windows, missing correlations or deadlocks.
---
 src/seismic/correlate/correlate.py | 57 ++++++++++++++++++------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index f58d133..2d12498 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -543,9 +543,15 @@ class Correlator(object):
                         f' {t}.\nThe Original Error Message was {e}.')
                     continue
 
+            else:
+                # All processes have to loop over the same time windows
+                st.merge()
+                st.trim(startt, endt, pad=True)
+
             # Slice the stream in correlation length
             # -> Loop over correlation increments
-            for ii, win in enumerate(generate_corr_inc(st, **self.options)):
+            for ii, win in enumerate(
+                    generate_corr_inc(st, startt=startt, **self.options)):
                 winstart = startt + ii*self.options['subdivision']['corr_inc']
                 winend = winstart + self.options['subdivision']['corr_len']
 
@@ -1393,7 +1399,7 @@ def preprocess_stream(
 
 def generate_corr_inc(
     st: Stream, subdivision: dict, read_len: int,
-        **kwargs) -> Iterator[Stream]:
+        startt: Optional[UTCDateTime] = None, **kwargs) -> Iterator[Stream]:
     """
     Subdivides the preprocessed streams into parts of equal length using
     the parameters ``cor_inc`` and ``cor_len`` in ``subdivision``.
@@ -1406,30 +1412,35 @@ def generate_corr_inc(
     :type subdivision: dict
     :param read_len: Length to be read from disk in seconds
     :type read_len: int
+    :param startt: Start of the first window. Defaults to the starttime of the
+        first trace.
+    :type startt: :class:`obspy.UTCDateTime`, optional
     :yield: Equal length windows, padded with nans / masked if data is missing.
     :rtype: Generator[Stream]
-    """
-
-    try:
-        # Second loop to return the time window in correlation length
-        for ii, win0 in enumerate(st.slide(
-            subdivision['corr_len']-st[0].stats.delta, subdivision['corr_inc'],
-                include_partial_windows=True)):
 
+    .. note::
+        Each process has to go through an equally long loop over the same
+        windows. Otherwise there would be a deadlock. That is, ``st`` should
+        either be empty or padded to ``read_len``. For windows without data,
+        an empty stream is returned.
+    """
+    nwin = int(np.ceil(read_len/subdivision['corr_inc']))
+    if len(st):
+        # The stream is trimmed / padded to read_len
+        stlen = max(tr.stats.endtime for tr in st) \
+            - min(tr.stats.starttime for tr in st)
+        nwin = min(nwin, int(np.ceil(stlen/subdivision['corr_inc'])))
+        startt = startt or st[0].stats.starttime
+
+    # Loop over the time windows in correlation length
+    for ii in range(nwin):
+        win = Stream()
+        if len(st):
+            starttrim = startt + ii*subdivision['corr_inc']
+            endtrim = starttrim + subdivision['corr_len'] - st[0].stats.delta
             # We use trim so the windows have the right time and
             # are filled with masked arrays for places without values
-            starttrim = st[0].stats.starttime + ii*subdivision['corr_inc']
-            endtrim = st[0].stats.starttime + ii*subdivision['corr_inc'] +\
-                subdivision['corr_len']-st[0].stats.delta
-            win = win0.trim(starttrim, endtrim, pad=True)
+            win = st.slice(starttrim, endtrim).trim(
+                starttrim, endtrim, pad=True)
             mu.get_valid_traces(win)
-            yield win
-
-    except IndexError:
-        # processes with no data end up here
-        win = Stream()
-        # A little dirty, but it has to go through an equally long loop
-        # else this will cause a deadlock
-        for _ in range(int(np.ceil(
-                read_len/subdivision['corr_inc']))):
-            yield win
+        yield win
-- 
2.43.0


From 91f75c322faef39e3a7089c72eae4e482d8e6cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 02/80] fix: a dead channel disabled spectral whitening for all
 other traces

---
 src/seismic/correlate/preprocessing_fd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/preprocessing_fd.py b/src/seismic/correlate/preprocessing_fd.py
index f2f59d8..43bd5ad 100644
--- a/src/seismic/correlate/preprocessing_fd.py
+++ b/src/seismic/correlate/preprocessing_fd.py
@@ -106,9 +106,12 @@ def spectralWhitening(B: np.ndarray, args: dict, params) -> np.ndarray:
             for ii in np.arange(0, B.shape[0], 3):
                 absB[ii:ii+3, :] = np.tile(
                     np.atleast_2d(np.mean(absB[ii:ii+3, :], axis=0)), [3, 1])
+    # Samples without amplitude (e.g., from a dead channel) remain zero. They
+    # must not affect the other traces in the matrix.
     with np.errstate(invalid='raise'):
         try:
-            B = np.true_divide(B, absB)
+            B = np.true_divide(
+                B, absB, out=np.zeros_like(B), where=absB != 0)
         except FloatingPointError as e:
             errargs = np.argwhere(absB == 0)
             # Report error where there is zero divides for a non-zero freq
-- 
2.43.0


From b9eeff21a595d51c69f34710084dcd512adc148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 03/80] fix: do not skip traces when removing invalid or short
 traces

---
 src/seismic/utils/miic_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index e7f9136..180af33 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -338,7 +338,7 @@ def get_valid_traces(st: Stream):
     :param st: stream to work on
 
     """
-    for tr in st:
+    for tr in list(st):
         if isinstance(tr.data, np.ma.MaskedArray):
             if tr.data.mask.all():
                 st.remove(tr)
@@ -356,7 +356,7 @@ def discard_short_traces(st: Stream, length: float):
 
     .. note:: Action is performed in place.
     """
-    for tr in st:
+    for tr in list(st):
         if tr.stats.npts/tr.stats.sampling_rate <= length:
             st.remove(tr)
             logging.debug(f'Discarding short Trace {tr}.')
-- 
2.43.0


From 79a70ca6b9884d7dfbd054e20b72ed2094c0852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 04/80] fix: write the correlations of a read increment before
 adding the next

The first correlation window of each read increment was added before the
previous ones were written. Hence, the stacks were computed from the wrong
windows.
---
 src/seismic/correlate/correlate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 2d12498..1f90c58 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -340,7 +340,8 @@ class Correlator(object):
         inv = self.comm.bcast(inv, root=0)
 
         for st, write_flag in self._generate_data():
-            cst.extend(self._pxcorr_inner(st, inv))
+            # The first window of the next read_len, so everything before has
+            # to be written
             if write_flag:
                 self.logger.debug('Writing Correlations to file.')
                 # Here, we can recombine the correlations for the read_len
@@ -349,6 +350,7 @@ class Correlator(object):
                 if cst.count():
                     self._write(cst)
                     cst.clear()
+            cst.extend(self._pxcorr_inner(st, inv))
 
         # write the remaining data
         if cst.count():
-- 
2.43.0


From 99d0b162e40b1433f82f331648c701a33244e9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 05/80] fix: deadlock if downsampling or preprocessing fails on
 one process

The failing process skipped the collective communication the other processes
were waiting in. Also, traces with a too low sampling rate only affect
themselves and not all others that are read by the same process.
---
 src/seismic/correlate/correlate.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 1f90c58..c62c742 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -507,6 +507,14 @@ class Correlator(object):
                 stext = self.store_client._load_local(
                     net, stat, '*', cha, startt, endt, True, False)
                 mu.get_valid_traces(stext)
+                # Upsampling is not permitted, only discard the concerned
+                # traces rather than all data on this process
+                for tr in list(stext):
+                    if tr.stats.sampling_rate < self.options['sampling_rate']:
+                        self.logger.error(
+                            f'Downsampling failed for {tr.id} and time {t}. '
+                            'The sampling rate is too low.')
+                        stext.remove(tr)
                 if stext is None or not len(stext):
                     # No data for this station to read
                     continue
@@ -525,7 +533,8 @@ class Correlator(object):
                     'Downsampling failed for '
                     f'{st[0].stats.network}.{st[0].stats.station} and time'
                     f' {t}.\nThe Original Error Message was {e}.')
-                continue
+                # Don't skip the loop, the other processes wait for this one
+                st = Stream()
             # The actual data in the mseeds was changed from int to float64
             # now,
             # Save some space by changing it back to 32 bit (most of the
@@ -541,9 +550,9 @@ class Correlator(object):
                 except ValueError as e:
                     self.logger.error(
                         'Stream preprocessing failed for '
-                        f'{st[0].stats.network}.{st[0].stats.station} and time'
+                        f'{[tr.id for tr in st]} and time'
                         f' {t}.\nThe Original Error Message was {e}.')
-                    continue
+                    st = Stream()
 
             else:
                 # All processes have to loop over the same time windows
-- 
2.43.0


From 9a099e20e65b3c28ca3144b2f9df2658a8d5e84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 06/80] fix: ambiguous order of station codes that are prefixes
 of each other

For stations like STA1 and STA10, the order of the combination depended on
the channel code and differed from the one assumed by the database. Their
correlations could not be found or read.
---
 src/seismic/correlate/correlate.py | 5 +++--
 src/seismic/correlate/stream.py    | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index c62c742..5e2fcd5 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -1234,8 +1234,9 @@ def sort_comb_name_alphabetically(
     if not all([isinstance(arg, str) for arg in [
             network1, network2, station1, station2]]):
         raise TypeError('All arguments have to be strings.')
-    sort1 = network1 + station1 + channel1
-    sort2 = network2 + station2 + channel2
+    # has to be separated, so the order is the same with and without channel
+    sort1 = '.'.join([network1, station1, channel1])
+    sort2 = '.'.join([network2, station2, channel2])
     sort = [sort1, sort2]
     sorted = sort.copy()
     sorted.sort()
diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index a90d595..9acc41e 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1421,8 +1421,8 @@ def alphabetical_correlation(
     """
     # make sure the order is correct
     # Will do that always alphabetically sorted
-    sort1 = header1.network + header1.station + header1.channel
-    sort2 = header2.network + header2.station + header2.channel
+    sort1 = '.'.join([header1.network, header1.station, header1.channel])
+    sort2 = '.'.join([header2.network, header2.station, header2.channel])
     sort = [sort1, sort2]
     sorted = sort.copy()
     sorted.sort()
-- 
2.43.0


From 654b0e1132f6aa3f73d9e3225635a502cc4120fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 07/80] fix: restart fails if a correlation file does not hold
 the queried data

E.g., because the subdivisions are deleted or the file belongs to another
station, whose code starts identically. As without wildcards, nothing is
returned in that case.
---
 src/seismic/db/corr_hdf5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 724b43b..e803ec3 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -310,8 +310,12 @@ omitted." % path, category=UserWarning)
                 return out
             channel = [channel]
         path = '/'.join(path.split('/')[:-3])
+        try:
+            available = list(self[path].keys())
+        except KeyError:
+            return out
         for ch in channel:
-            for match in fnmatch.filter(self[path].keys(), ch):
+            for match in fnmatch.filter(available, ch):
                 out[match] = list(self['/'.join([path, match])].keys())
         return out
 
-- 
2.43.0


From 51c3207daa92a1e994891fb875096e45f85671d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 08/80] fix: the samples of a correlation window depended on
 the other traces

obspy rounds to the sampling points of the first trace in the stream. That is,
the result depended on how the traces are distributed over the processes.
---
 src/seismic/correlate/correlate.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 5e2fcd5..19417db 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -557,7 +557,8 @@ class Correlator(object):
             else:
                 # All processes have to loop over the same time windows
                 st.merge()
-                st.trim(startt, endt, pad=True)
+                for tr in st:
+                    tr.trim(startt, endt, pad=True)
 
             # Slice the stream in correlation length
             # -> Loop over correlation increments
@@ -1403,7 +1404,10 @@ def preprocess_stream(
             func = func_from_str(procStep['function'])
             st = func(st, **procStep['args'])
     st.merge()
-    st.trim(startt, endt, pad=True)
+    # Separately, as obspy uses the sampling points of the first trace for the
+    # whole stream. The result must not depend on the other traces.
+    for tr in st:
+        tr.trim(startt, endt, pad=True)
 
     mu.discard_short_traces(st, subdivision['corr_len']/20)
     return st
@@ -1452,7 +1456,10 @@ def generate_corr_inc(
             endtrim = starttrim + subdivision['corr_len'] - st[0].stats.delta
             # We use trim so the windows have the right time and
             # are filled with masked arrays for places without values
-            win = st.slice(starttrim, endtrim).trim(
-                starttrim, endtrim, pad=True)
+            # Separately for each trace, as obspy uses the sampling points of
+            # the first trace for the whole stream.
+            for tr in st:
+                win.extend(Stream([tr]).slice(starttrim, endtrim).trim(
+                    starttrim, endtrim, pad=True))
             mu.get_valid_traces(win)
         yield win
-- 
2.43.0


From edf5a883de3b09324d414d74dc82126b88cd3554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 09/80] fix: dead channels with NaNs must not disable spectral
 whitening either

---
 src/seismic/correlate/preprocessing_fd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_fd.py b/src/seismic/correlate/preprocessing_fd.py
index 43bd5ad..b0a541a 100644
--- a/src/seismic/correlate/preprocessing_fd.py
+++ b/src/seismic/correlate/preprocessing_fd.py
@@ -106,12 +106,12 @@ def spectralWhitening(B: np.ndarray, args: dict, params) -> np.ndarray:
             for ii in np.arange(0, B.shape[0], 3):
                 absB[ii:ii+3, :] = np.tile(
                     np.atleast_2d(np.mean(absB[ii:ii+3, :], axis=0)), [3, 1])
-    # Samples without amplitude (e.g., from a dead channel) remain zero. They
-    # must not affect the other traces in the matrix.
+    # Samples without amplitude (e.g., from a dead channel) stay as they are
+    # and must not affect the other traces in the matrix.
     with np.errstate(invalid='raise'):
         try:
             B = np.true_divide(
-                B, absB, out=np.zeros_like(B), where=absB != 0)
+                B, absB, out=B.copy(), where=absB > 0)
         except FloatingPointError as e:
             errargs = np.argwhere(absB == 0)
             # Report error where there is zero divides for a non-zero freq
-- 
2.43.0


From 66213876ae75a4bd42a2cf0157b92b688ab28e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 10/80] fix: interruption left correlations without header in
 the database

They were neither readable nor recomputed afterwards.
---
 src/seismic/db/corr_hdf5.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index e803ec3..852c706 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -135,7 +135,16 @@ class DBHandler(h5py.File):
                 ds = self.create_dataset(
                     path, data=tr.data, compression=self.compression,
                     compression_opts=self.compression_opts)
-                convert_header_to_hdf5(ds, st)
+                try:
+                    convert_header_to_hdf5(ds, st)
+                except BaseException:
+                    # Don't leave data without a complete header behind. An
+                    # empty group would be mistaken for existing data.
+                    del self[path]
+                    group = os.path.dirname(path)
+                    if not len(self[group]):
+                        del self[group]
+                    raise
             except ValueError as e:
                 print(e)
                 warnings.warn("The dataset %s is already in file and will be \
-- 
2.43.0


From 835f5c168b5c52286594bf8c4a630ccb70342800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 11/80] fix: restart fails after the creation of a correlation
 file was interrupted

Also, don't skip steps when removing all stream_mask_at_utc from the options.
---
 src/seismic/db/corr_hdf5.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 852c706..901a460 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -88,7 +88,12 @@ class DBHandler(h5py.File):
                         f'\n{diff}'
                     )
             except KeyError:
-                self.add_corr_options(co)
+                # In read-only mode, there is nothing to add
+                if mode != 'r':
+                    if 'co' in self:
+                        # Creating the file was interrupted
+                        del self['co']
+                    self.add_corr_options(co)
 
     def _close(self):
         self.close()
@@ -536,8 +541,9 @@ def co_to_hdf5(co: dict) -> dict:
         coc['subdivision'].pop('recombine_subdivision', None)
         coc['subdivision'].pop('delete_subdivision', None)
     try:
-        [coc['preProcessing'].remove(step) for step in coc['preProcessing']
-            if 'stream_mask_at_utc' in step['function']]
+        coc['preProcessing'] = [
+            step for step in coc['preProcessing']
+            if 'stream_mask_at_utc' not in step['function']]
     except KeyError:
         pass
     return coc
-- 
2.43.0


From 0e65e6526711c5d692b75d9ea9233315aa0997f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 12/80] fix: wildcards within a code or '?' in database queries

The group to search in was cut in the middle of the code, which led to a
KeyError, and '?' matched any number of characters or none at all.
---
 src/seismic/db/corr_hdf5.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 901a460..27fce5a 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -285,9 +285,10 @@ omitted." % path, category=UserWarning)
             return CorrStream(CorrTrace(data, _header=header))
         # Now, we need to differ between the fnmatch pattern and the actually
         # accessed path
-        path = path.replace('?', '*')
         pattern = path.replace('/*', '*')
-        path = path.split('*')[0]
+        # The last group without wildcard
+        path = path.replace('?', '*').split('*')[0]
+        path = path[:path.rindex('/') + 1]
         return all_traces_recursive(self[path], CorrStream(), pattern)
 
     def get_available_starttimes(
@@ -315,7 +316,7 @@ omitted." % path, category=UserWarning)
             corr_st='*', corr_et='*')
         out = {}
         if isinstance(channel, str):
-            if '*' not in channel:
+            if '*' not in channel and '?' not in channel:
                 path = '/'.join(path.split('/')[:-2])
                 try:
                     out[channel] = list(self[path].keys())
-- 
2.43.0


From c2afd8dc9f1d6e3d715f70793a55d91b10e9a5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 13/80] fix: remove_data treated ? like * and deleted too much

---
 src/seismic/db/corr_hdf5.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 27fce5a..24ddf68 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -209,7 +209,6 @@ omitted." % path, category=UserWarning)
             return
         # Now, we need to differ between the fnmatch pattern and the actually
         # accessed path
-        path = path.replace('?', '*')
         pattern = path.replace('/*', '*')
         for sst in self.get_available_starttimes(
                 network, station, tag, channel)[channel]:
-- 
2.43.0


From e8c6f7ee699dadb22eb77dc5321a4486eaa4a444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 14/80] fix: remove empty groups if adding a correlation is
 interrupted

---
 src/seismic/db/corr_hdf5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 24ddf68..655ff4e 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -147,8 +147,9 @@ class DBHandler(h5py.File):
                     # empty group would be mistaken for existing data.
                     del self[path]
                     group = os.path.dirname(path)
-                    if not len(self[group]):
+                    while group != '/' and not len(self[group]):
                         del self[group]
+                        group = os.path.dirname(group)
                     raise
             except ValueError as e:
                 print(e)
-- 
2.43.0


From c0336a54d59e72469f0e526131a20a37accd4516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 15/80] fix: correlation file stayed open if it could not be
 set up

---
 src/seismic/db/corr_hdf5.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 655ff4e..78ce74d 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -47,6 +47,15 @@ class DBHandler(h5py.File):
     """
     def __init__(self, path, mode, compression, co, force):
         super(DBHandler, self).__init__(path, mode=mode)
+        try:
+            self._set_up(path, mode, compression, co, force)
+        except BaseException:
+            # Without a handler, nobody else could close the file
+            if hasattr(self, '_id'):
+                self.close()
+            raise
+
+    def _set_up(self, path, mode, compression, co, force):
         if isinstance(compression, str):
             self.compression = re.findall(r'(\w+?)(\d+)', compression)[0][0]
             if self.compression != 'gzip':
-- 
2.43.0


From 6e0592804229d1f23effef064286e47cc6223938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 16/80] fix: start of a correlation window depended on the
 first trace in it

---
 src/seismic/correlate/correlate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 19417db..c032c23 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -655,7 +655,10 @@ class Correlator(object):
                 self.logger.debug('Working on correlation times %s-%s' % (
                     str(win[0].stats.starttime), str(win[0].stats.endtime)))
                 win = win.merge()
-                win = win.trim(winstart, winend, pad=True)
+                # Separately for each trace, as obspy uses the sampling points
+                # of the first trace for the whole stream.
+                for tr in win:
+                    tr.trim(winstart, winend, pad=True)
                 yield win, write_flag
                 write_flag = False
 
-- 
2.43.0


From 3255386f67141b046a02eb43e09558ec841d9f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:36 +0000
Subject: [PATCH 17/80] fix: inverse FFT assumed an even number of padded
 samples, stretching the lag axis

---
 src/seismic/correlate/correlate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index c032c23..4ccd7b3 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -726,7 +726,8 @@ class Correlator(object):
         ######################################
         # correlation
         csize = len(self.options['combinations'])
-        irfftsize = (fftsize-1)*2
+        # The padded traces may have an odd number of samples
+        irfftsize = zmsize[1]
         sampleToSave = int(
             np.ceil(
                 corr_args['lengthToSave'] * self.sampling_rate))
@@ -776,7 +777,7 @@ class Correlator(object):
             ######################################
             # frequency domain postProcessing
             #
-            tmp = np.fft.irfft(M).real
+            tmp = np.fft.irfft(M, irfftsize).real
 
             # cut the center and do fftshift
             C[ii, :] = np.concatenate(
-- 
2.43.0


From de6cca5ec8853f0d64ed2cc666a033b6be64da30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:03 +0000
Subject: [PATCH 18/80] fix: xcombinations also matched stations whose code
 starts with the requested one

---
 src/seismic/correlate/correlate.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 4ccd7b3..5cc61b4 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -858,9 +858,11 @@ def is_in_xcombis(id1: str, id2: str, rcombis: List[str] = None) -> bool:
     tcombi = f'{n1}-{n2}.{s1}-{s2}.{c1}-{c2}'
     tcombi2 = f'{n2}-{n1}.{s2}-{s1}.{c2}-{c1}'
     for combi in rcombis:
-        if fnmatch.fnmatch(tcombi, combi+'*') or fnmatch.fnmatch(
-                tcombi2, combi+'*'):
-            return True
+        # with or without channel, but not just the start of another code
+        for pattern in (combi, combi + '.*'):
+            if fnmatch.fnmatch(tcombi, pattern) or fnmatch.fnmatch(
+                    tcombi2, pattern):
+                return True
     return False
 
 
-- 
2.43.0


From 4cb97075a80c154874461fd15c544fb1acfbd044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 19/80] fix: combinations requested with channel code were
 never computed

---
 src/seismic/correlate/correlate.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 5cc61b4..2b03d7f 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -225,14 +225,21 @@ class Correlator(object):
                 != 'betweenStations':
             return
         self.station = [
-            [n, s] for n, s in self.station if
-            fnmatch.filter(self.rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
-                self.rcombis, f'*-{n}.*-{s}')]
+            [n, s] for n, s in self.station if self._in_rcombis(n, s)]
         # same check for avail_raw_data
         self.avail_raw_data = [
-            [n, s, c] for n, s, c in self.avail_raw_data if
-            fnmatch.filter(self.rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
-                self.rcombis, f'*-{n}.*-{s}')]
+            [n, s, c] for n, s, c in self.avail_raw_data
+            if self._in_rcombis(n, s)]
+
+    def _in_rcombis(self, net: str, stat: str) -> bool:
+        """
+        Is the station part of any of the requested combinations? Those may
+        include the channel, i.e., Net0-Net1.Stat0-Stat1[.Cha0-Cha1].
+        """
+        return any(
+            fnmatch.filter(self.rcombis, pattern) for pattern in (
+                f'{net}-*.{stat}-*', f'*-{net}.*-{stat}',
+                f'*-{net}.*-{stat}.*'))
 
     def find_interstat_dist(self, dis: float):
         """
-- 
2.43.0


From 3051953291f0b348861191bcd49c408985a517b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 20/80] fix: a mask covering a whole trace was ignored

---
 src/seismic/correlate/preprocessing_stream.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index 6ff6051..6e4121e 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -299,6 +299,10 @@ def trace_mask_at_utc(
         ne = int(np.ceil(tr.stats.sampling_rate*t))+1
         mask[:ne] = True
 
+    # trace completely in mask
+    if np.any((starts <= start) * (ends >= end)):
+        mask[:] = True
+
     if reverse:
         mask = ~mask
     # Mask the array
-- 
2.43.0


From 608784559f86ac496e70e4eb657cefe6621d8884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 21/80] fix: single samples and samples at midnight were not
 archived

---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index c9d49f9..bc9aa23 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -350,7 +350,7 @@ class Store_Client(object):
         # write the data
         for tr in st:
             starttime = tr.stats.starttime
-            while starttime < tr.stats.endtime:
+            while starttime <= tr.stats.endtime:
                 endtime = UTCDateTime(
                     starttime.year, starttime.month, starttime.day) + 86400*1.5
                 endtime = UTCDateTime(endtime.year, endtime.month, endtime.day)
-- 
2.43.0


From 5b32c0a0e6ab860fe49a425c8c392ee4b4c349e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 22/80] fix: data with a gap to the data in the archive could
 not be written

---
 src/seismic/trace_data/waveform.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index bc9aa23..3f706e9 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -367,14 +367,14 @@ class Store_Client(object):
             location=tr.stats.location, channel=tr.stats.channel,
             year=year, doy=julday, sds_type=self.sds_type)
         filename = os.path.join(self.sds_root, filename)
+        rst = Stream()
         if os.path.exists(filename):
             rst = read(filename)
-            rst.append(tr)
-            rst.merge()
-        else:
-            if not os.path.exists(os.path.dirname(filename)):
-                os.makedirs(os.path.dirname(filename))
-            rst = tr
+        elif not os.path.exists(os.path.dirname(filename)):
+            os.makedirs(os.path.dirname(filename))
+        # Masked arrays cannot be written, so leave gaps as they are
+        rst += Stream([tr]).split()
+        rst.merge(-1)
         rst.write(filename, format='MSEED')
 
     def _write_inventory(self, ninv: Inventory):
-- 
2.43.0


From a12823bd31ed2624d89f13f0d12740a37597a398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 23/80] fix: a failed write to the archive destroyed the
 samples stored before

---
 src/seismic/trace_data/waveform.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 3f706e9..61ebb9f 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -12,6 +12,7 @@ Last Modified: Monday, 4th March 2024 11:44:40 am
 '''
 
 import fnmatch
+import io
 import os
 import datetime
 import glob
@@ -375,7 +376,16 @@ class Store_Client(object):
         # Masked arrays cannot be written, so leave gaps as they are
         rst += Stream([tr]).split()
         rst.merge(-1)
-        rst.write(filename, format='MSEED')
+        # obspy ignores errors that occur while it is writing to the file
+        with io.BytesIO() as buf:
+            rst.write(buf, format='MSEED')
+            data = buf.getvalue()
+        # If this fails half way, the existing file has to stay intact
+        tmpfile = os.path.join(
+            os.path.dirname(filename), f'.{os.path.basename(filename)}.tmp')
+        with open(tmpfile, 'wb') as f:
+            f.write(data)
+        os.replace(tmpfile, filename)
 
     def _write_inventory(self, ninv: Inventory):
         """write the inventory information"""
-- 
2.43.0


From ba5d3be54603b3b512702afa7b622b3362005deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 24/80] fix: read-only clients wrote to the inventory folder

---
 src/seismic/trace_data/waveform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 61ebb9f..2e03240 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -395,6 +395,8 @@ class Store_Client(object):
             self.inventory += ninv
         else:
             self.inventory = ninv
+        if self.read_only:
+            return
         fname = os.path.join(
             self.inv_dir, f'{ninv[0].code}.{ninv[0][0].code}.xml')
         ninv.write(fname, format="STATIONXML", validate=True)
-- 
2.43.0


From 0a1d36909a9d881f33dc47d1b0ae8d37f91cbb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 25/80] fix: new station information overwrote the one stored
 before

---
 src/seismic/trace_data/waveform.py | 33 ++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 2e03240..98f9f43 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -399,6 +399,9 @@ class Store_Client(object):
             return
         fname = os.path.join(
             self.inv_dir, f'{ninv[0].code}.{ninv[0][0].code}.xml')
+        if os.path.isfile(fname):
+            # might hold other channels or times of that station
+            ninv = update_inventory(read_inventory(fname), ninv)
         ninv.write(fname, format="STATIONXML", validate=True)
 
     def _generate_time_windows(
@@ -789,6 +792,36 @@ def _fs_translate(part: str, ID: str, starttime: datetime.datetime) -> str:
     return res
 
 
+def update_inventory(old: Inventory, new: Inventory) -> Inventory:
+    """
+    Adds the information in new to the inventory old. Replaces channel epochs
+    that are defined in both of them.
+
+    :param old: Inventory to be updated
+    :type old: Inventory
+    :param new: Inventory that holds the new information
+    :type new: Inventory
+    :return: The updated inventory
+    :rtype: Inventory
+    """
+    def key(net, stat, cha):
+        return (
+            net.code, stat.code, cha.location_code, cha.code,
+            cha.start_date, cha.end_date)
+    stations = [(net.code, stat.code) for net in new for stat in net]
+    channels = [
+        key(net, stat, cha) for net in new for stat in net for cha in stat]
+    for net in old:
+        for stat in net:
+            stat.channels = [
+                cha for cha in stat if key(net, stat, cha) not in channels]
+        net.stations = [
+            stat for stat in net
+            if len(stat) or (net.code, stat.code) not in stations]
+    old.networks = [net for net in old if len(net)]
+    return old + new
+
+
 def get_day_in_folder(
     root: str, dirlist: List[str], network: str, station: str,
         channel: str, type: str) -> UTCDateTime:
-- 
2.43.0


From 9566a0110a469e7a5668caf151589b7fcfe33954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 26/80] fix: an interrupted write made the station information
 unreadable

---
 src/seismic/trace_data/waveform.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 98f9f43..336c6f9 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -66,7 +66,7 @@ class Store_Client(object):
         if not read_only:
             os.makedirs(self.sds_root, exist_ok=True)
         self.inv_dir = os.path.join(path, "inventory")
-        if os.path.isdir(self.inv_dir) and os.listdir(self.inv_dir):
+        if glob.glob(os.path.join(self.inv_dir, '*.xml')):
             self.inventory = self.read_inventory()
         else:
             self.inventory = Inventory()
@@ -402,7 +402,11 @@ class Store_Client(object):
         if os.path.isfile(fname):
             # might hold other channels or times of that station
             ninv = update_inventory(read_inventory(fname), ninv)
-        ninv.write(fname, format="STATIONXML", validate=True)
+        # If this fails half way, the existing file has to stay intact
+        tmpfile = os.path.join(
+            self.inv_dir, f'.{os.path.basename(fname)}.tmp')
+        ninv.write(tmpfile, format="STATIONXML", validate=True)
+        os.replace(tmpfile, fname)
 
     def _generate_time_windows(
         self, network: str, station: str, channel: str, starttime: UTCDateTime,
-- 
2.43.0


From 44a90eae13d84b92fb99fb54849ef05cc501cd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 27/80] fix: first or last requested sample was missing if not
 in the archive

---
 src/seismic/trace_data/waveform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 336c6f9..dc8a884 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -299,8 +299,8 @@ class Store_Client(object):
         st.sort(['starttime'])
         if _check_times and (
             len(st) == 0 or (
-                starttime < (st[0].stats.starttime-st[0].stats.delta) or (
-                    endtime > st[-1].stats.endtime+st[-1].stats.delta))):
+                starttime <= (st[0].stats.starttime-st[0].stats.delta) or (
+                    endtime >= st[-1].stats.endtime+st[-1].stats.delta))):
             # print("Failed")
             return None
         if attach_response:
-- 
2.43.0


From e5b7cf9079f1d5583fe466509e3046d39147fc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 28/80] fix: downloaded waveforms were dropped if there is no
 response for them

---
 src/seismic/trace_data/waveform.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index dc8a884..e51283e 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -273,11 +273,19 @@ class Store_Client(object):
             warnings.filterwarnings('error')
             try:
                 st.attach_response(self.inventory)
+                update = False
             except Warning:
-                print("Updating inventory.")
+                update = True
+        if update:
+            print("Updating inventory.")
+            try:
                 ninv = self.rclient.get_stations(
                     network=network, station=station, channel=channel,
                     starttime=starttime, endtime=endtime, level='response')
+            except FDSNNoDataException as e:
+                # Does not affect the waveforms
+                print(e)
+            else:
                 if attach_response:
                     st.attach_response(ninv)
                 self._write_inventory(ninv)
-- 
2.43.0


From 8ad00d412da5992b999518fcc8c64c6678d93bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:24 +0000
Subject: [PATCH 29/80] fix: unrelated folders in the archive could not be told
 from years

The name of every folder with four characters was passed to eval(), so that
a folder called temp raised a NameError.
---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index e51283e..7c89243 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -159,7 +159,7 @@ class Store_Client(object):
             os.path.join(self.sds_root, '????', network, '*'))
         statlist = []
         for path in oslist:
-            if not isinstance(eval(path.split(os.path.sep)[-3]), int):
+            if not path.split(os.path.sep)[-3].isdigit():
                 continue
             # Add all network and station combinations to list
             code = path.split(os.path.sep)[-2:]
-- 
2.43.0


From 5b98e31a1f426ff728fb7a6df6a76f087c085af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 30/80] fix: IndexError for stations with empty folders in the
 archive

They are left behind if writing the first file fails. _get_times is supposed
to warn and return (None, None) then.
---
 src/seismic/trace_data/waveform.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 7c89243..5b385b1 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -225,7 +225,7 @@ class Store_Client(object):
             endtime = get_day_in_folder(
                 self.sds_root, dirlist, network, station, '*', 'end')
         except FileNotFoundError as e:
-            warnings.warn(e, UserWarning)
+            warnings.warn(str(e), UserWarning)
             return (None, None)
         return (starttime, endtime)
 
@@ -860,21 +860,18 @@ def get_day_in_folder(
     :rtype: UTCDateTime
     """
     if type == 'start':
-        i0 = 0
-        ii = 1
+        years = dirlist
     elif type == 'end':
-        i0 = -1
-        ii = -1
+        years = dirlist[::-1]
     else:
         raise NotImplementedError('Type has to be either start or end.')
-    julday = None
-    while not julday:
+    for year in years:
         # if the folder is empty julday will stay False
-        year = dirlist[i0]
         julday = [i.split('.')[-1] for i in glob.glob(
             os.path.join(root, year, network, station, channel, '*'))]
-        i0 += ii
-    if not julday:
+        if julday:
+            break
+    else:
         raise FileNotFoundError(
             'Station %s.%s not in database' % (network, station))
     # make sure that 200 comes after 3, but before 300
-- 
2.43.0


From 914f1e3a501ff549c8dfb0e2e7c4f8e79618415c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 31/80] fix: folders that are not part of the archive were
 taken for stations

---
 src/seismic/trace_data/waveform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 5b385b1..19d9af8 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -247,7 +247,8 @@ class Store_Client(object):
         """
         dirlist = glob.glob(
             os.path.join(
-                self.sds_root, '*', network, station, '??'+component+'.?'))
+                self.sds_root, 4*'[0-9]', network, station,
+                '??'+component+'.?'))
         nets = [os.path.basename(
             os.path.dirname(os.path.dirname(i))) for i in dirlist]
         stats = [os.path.basename(os.path.dirname(i)) for i in dirlist]
-- 
2.43.0


From d975dc17c2893224938ea43004d4e7dcebe8ae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:27 +0000
Subject: [PATCH 32/80] fix: spectrograms contained windows with gaps, filled
 with undefined values

welch ignores masks and used whatever happened to be in memory.
---
 src/seismic/utils/raw_analysis.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/seismic/utils/raw_analysis.py b/src/seismic/utils/raw_analysis.py
index 54961cc..96b4a36 100644
--- a/src/seismic/utils/raw_analysis.py
+++ b/src/seismic/utils/raw_analysis.py
@@ -73,6 +73,12 @@ def spct_series_welch(
                 f'{e}')
             continue
         for wintr in tr.slide(window_length=window_length, step=window_length):
+            if np.ma.is_masked(wintr.data):
+                # welch would use the undefined values in the gap
+                warnings.warn(
+                    'Gap in time window: '
+                    f'{wintr.stats.starttime}. Skipping...')
+                continue
             try:
                 f, S = welch(wintr.data, fs=wintr.stats.sampling_rate)
                 # interpolate onto a logarithmic frequency space
-- 
2.43.0


From c58be1852325a1207620ce382124f08195239e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:50 +0000
Subject: [PATCH 33/80] fix: spectrogram failed if the first process had no
 usable window

The frequencies were taken from rank 0, also if only other processes could
compute a spectrum.
---
 src/seismic/utils/raw_analysis.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/seismic/utils/raw_analysis.py b/src/seismic/utils/raw_analysis.py
index 96b4a36..581aeff 100644
--- a/src/seismic/utils/raw_analysis.py
+++ b/src/seismic/utils/raw_analysis.py
@@ -51,6 +51,8 @@ def spct_series_welch(
     rank = comm.Get_rank()
     psize = comm.Get_size()
     specl = []
+    # Frequencies, all processes that could compute a spectrum have the same
+    f2 = None
     # List of actually available times
     t = []
     for ii, st in enumerate(streams):
@@ -95,10 +97,15 @@ def spct_series_welch(
     # Gather all the data
     specl = comm.gather(specl, root=0)
     t = comm.gather(t, root=0)
+    f2 = comm.gather(f2, root=0)
     if rank == 0:
         # Flatten the list
         specl = [item for sublist in specl for item in sublist]
         t = [item for sublist in t for item in sublist]
+        if not len(t):
+            raise ValueError(
+                'A spectrum could not be computed. Check earlier log messages')
+        f2 = [f for f in f2 if f is not None][0]
         # Sort from values in t
         specl = [x for _, x in sorted(zip(t, specl))]
         t = sorted(t)
@@ -106,11 +113,7 @@ def spct_series_welch(
         # Convert to numpy array
         S = np.array(specl)
         t = np.array(t)
-        try:
-            return f2, t, S.T
-        except UnboundLocalError:
-            raise ValueError(
-                'A spectrum could not be computed. Check earlier log messages')
+        return f2, t, S.T
     else:
         return None, None, None
 
-- 
2.43.0


From ae206d7e703aa289999c80d518d74de1dcb3afcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 34/80] fix: FS_Client could not step to the next or previous
 month and year

ValueError for months that are too short (29 February when stepping by year)
and, with one file per year, the wrong direction.
---
 src/seismic/trace_data/waveform.py | 33 +++++-------------------------
 1 file changed, 5 insertions(+), 28 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 19d9af8..6656bc4 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -724,35 +724,12 @@ def _adjacent_filepattern(
                 elif tpart in ['%U', '%W']:
                     thistime = starttime + inc * datetime.timedelta(days=7)
                 elif tpart in ['%b', '%B', '%m']:
-                    if starttime.month + inc == 0:
-                        thistime = datetime.datetime(starttime.year-1,
-                                                     12,
-                                                     starttime.day,
-                                                     starttime.hour,
-                                                     starttime.minute,
-                                                     starttime.second,
-                                                     starttime.microsecond)
-                    elif starttime.month + inc == 13:
-                        thistime = datetime.datetime(starttime.year+1,
-                                                     1,
-                                                     starttime.day,
-                                                     starttime.hour,
-                                                     starttime.minute,
-                                                     starttime.second,
-                                                     starttime.microsecond)
-                    else:
-                        thistime = datetime.datetime(starttime.year,
-                                                     starttime.month + inc,
-                                                     starttime.day,
-                                                     starttime.hour,
-                                                     starttime.minute,
-                                                     starttime.second,
-                                                     starttime.microsecond)
-                elif tpart in ['%y', '%Y']:
+                    # first of the month, as months differ in length
+                    month = starttime.month - 1 + inc
                     thistime = datetime.datetime(
-                        starttime.year - inc, starttime.month, starttime.day,
-                        starttime.hour, starttime.minute, starttime.second,
-                        starttime.microsecond)
+                        starttime.year + month//12, month % 12 + 1, 1)
+                elif tpart in ['%y', '%Y']:
+                    thistime = datetime.datetime(starttime.year + inc, 1, 1)
     fname = _current_filepattern(ID, thistime, fs)
     return fname, thistime
 
-- 
2.43.0


From 03d3c84715bb36dd70faaa018184ae482cee3134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 35/80] fix: FS_Client failed for file structures without time
 indicators

---
 src/seismic/trace_data/waveform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 6656bc4..e0d71d2 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -705,6 +705,8 @@ def _adjacent_filepattern(
     assert ((inc == 1) or (inc == -1)), " inc must either be 1 or -1"
     fname = ''
     flag = 0
+    # stays the same if fs does not contain a time indicator
+    thistime = starttime
     # find earlier time by turning back the time by one increment of the
     # last time indicator in the fs
     for part in fs[-1::-1]:
-- 
2.43.0


From e62829893e95538558cdc7ed2c5013dab41afb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 36/80] fix: replacements in file structure descriptors were
 not recognised

The braces in the regular expression were not escaped, so that it always
matched an empty string.
---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index e0d71d2..697f10d 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -757,7 +757,7 @@ def _fs_translate(part: str, ID: str, starttime: datetime.datetime) -> str:
     """
     IDlist = ID.split('.')
     if ('(' in part) and (')' in part):
-        trans = re.search('(.*?)', part).group(0)
+        trans = re.search(r'\(.*?\)', part).group(0)
     else:
         trans = None
     # in case there is something to translate remove from the filepart
-- 
2.43.0


From dce5912bc5ba1b21c72111da11c316c4d1553aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 37/80] fix: FS_Client missed samples at the beginning of the
 next file

Files may start with samples of the period before, but the section that
follows the one with the end time was only searched by chance.
---
 src/seismic/trace_data/waveform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 697f10d..66a10f4 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -636,9 +636,11 @@ def read_from_filesystem(
                   (fpattern, starttime))
         st += _read_filepattern(fpattern, starttime, endtime, trim, debug)
         st.merge()
-    thistime = starttime
+    thistime = lasttime = starttime
+    # also looks in the section that follows the one with endtime
     while ((len(st) == 0) or (st[0].stats.endtime.datetime < endtime)) & (
-            thistime < endtime):
+            lasttime < endtime):
+        lasttime = thistime
         fpattern, thistime = _adjacent_filepattern(ID, thistime, fs, 1)
         if debug:
             print('Searching for files matching: %s\n at time %s\n' %
-- 
2.43.0


From 373378465f38ce48a819c82d130835dc1d7b3a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 38/80] fix: FS_Client missed requested samples at the borders
 of files

Files of which only the first or last sample was requested were ignored.
---
 src/seismic/trace_data/waveform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 66a10f4..b54cee1 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -629,7 +629,7 @@ def read_from_filesystem(
 
     # if trace starts too late have a look in the previous section
     if (len(st) == 0) or (
-            (st[0].stats.starttime-st[0].stats.delta).datetime > starttime):
+            (st[0].stats.starttime-st[0].stats.delta).datetime >= starttime):
         fpattern, _ = _adjacent_filepattern(ID, starttime, fs, -1)
         if debug:
             print('Searching for files matching: %s\n at time %s\n' %
@@ -680,7 +680,7 @@ def _read_filepattern(
             print('%s from %s to %s\n' % (f, start, end))
     st = Stream()
     for ind, fname in enumerate(flist):
-        if (starttimes[ind] < endtime) and (endtimes[ind] > starttime):
+        if (starttimes[ind] <= endtime) and (endtimes[ind] >= starttime):
             if trim:
                 st += read(
                     fname, starttime=UTCDateTime(starttime),
-- 
2.43.0


From 70d96a4849dc5d4c94d5e50627f88263de187dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 39/80] fix: select dv files by each code, apply the station
 list too

With a list of networks and a list of stations, the station list was
ignored, because 'matched' was still set from the networks. In addition, a
combination was only found if both of its codes matched the same element
of the list, i.e., cross-combinations of two listed networks or stations
were left out.
---
 src/seismic/monitor/monitor.py | 44 ++++++++++++++++------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index f7cdf73..545faed 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -747,6 +747,25 @@ def make_time_list(
     return starttimes, endtimes
 
 
+def _codes_requested(codes: List[str], requested: str | List[str]) -> bool:
+    """
+    Are **all** of the codes (e.g., both stations of a combination) requested?
+
+    :param codes: Codes to check
+    :type codes: List[str]
+    :param requested: Requested code(s), wildcards allowed
+    :type requested: str or List[str]
+    :rtype: bool
+    """
+    if requested is None:
+        return True
+    if isinstance(requested, str):
+        requested = [requested]
+    return all(
+        any(fnmatch.fnmatch(code, pat) for pat in requested)
+        for code in codes)
+
+
 def corr_find_filter(
     indir: str, net: dict, **kwargs) -> Tuple[
         List[str], List[str], List[str]]:
@@ -767,35 +786,14 @@ def corr_find_filter(
     statlist = []
     infiles = []
     for f in glob(os.path.join(indir, '*-*.*-*.h5')):
-        matched = False
         f = os.path.basename(f)
         split = f.split('.')
 
         # Find the files that should actually be processed
-        nsplit = split[0].split('-')
-        ssplit = split[1].split('-')
-        if isinstance(net['network'], str) and not fnmatch.filter(
-                nsplit, net['network']) == nsplit:
+        if not _codes_requested(split[0].split('-'), net['network']):
             continue
-        elif isinstance(net['network'], list):
-            # account for the case of wildcards in the network list
-            for n in net['network']:
-                if fnmatch.filter(nsplit, n) == nsplit:
-                    matched = True
-                    break
-            if not matched:
-                continue
-        if isinstance(net['station'], str) and not fnmatch.filter(
-                ssplit, net['station']) == ssplit:
+        if not _codes_requested(split[1].split('-'), net['station']):
             continue
-        elif isinstance(net['station'], list):
-            # account for the case of wildcards in the station list
-            for s in net['station']:
-                if fnmatch.filter(ssplit, s) == ssplit:
-                    matched = True
-                    break
-            if not matched:
-                continue
 
         netlist.append(split[0])
         statlist.append(split[1])
-- 
2.43.0


From ef72bae6dcf6a9a6f58b3cabbd5bd197f8e215ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 40/80] fix: unreadable correlation file ended the dv and wfc
 runs

Rank 0 opened all files outside of any error handling. One damaged file
raised on rank 0, with all others waiting for its broadcast.
---
 src/seismic/monitor/monitor.py | 37 +++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 545faed..84f7951 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -325,6 +325,29 @@ class Monitor(object):
                 save_dir=savedir, figure_file_name=fname,
                 normalize_simmat=True, sim_mat_Clim=[-1, 1])
 
+    def _find_channel_combinations(self, tag: str) -> List[List[str]]:
+        """
+        Finds all channel combinations available in the correlation files.
+        Files that cannot be read are skipped.
+
+        :param tag: Tag of the data in the files.
+        :type tag: str
+        :return: List of file, network, station, and channel (combination
+            codes).
+        :rtype: List[List[str]]
+        """
+        plist = []
+        for f, n, s in zip(self.infiles, self.netlist, self.statlist):
+            try:
+                with CorrelationDataBase(f, mode='r') as cdb:
+                    ch = cdb.get_available_channels(tag, n, s)
+            except Exception:
+                self.logger.exception(
+                    f'File {f} could not be read and is skipped.')
+                continue
+            plist.extend([f, n, s, c] for c in ch)
+        return plist
+
     def compute_velocity_change_bulk(self):
         """
         Compute the velocity change for all correlations using MPI.
@@ -338,12 +361,7 @@ class Monitor(object):
         tag = 'subdivision'
         # get number of available channel combis
         if self.rank == 0:
-            plist = []
-            for f, n, s in zip(self.infiles, self.netlist, self.statlist):
-                with CorrelationDataBase(f, mode='r') as cdb:
-                    ch = cdb.get_available_channels(
-                        tag, n, s)
-                    plist.extend([f, n, s, c] for c in ch)
+            plist = self._find_channel_combinations(tag)
         else:
             plist = None
         plist = self.comm.bcast(plist, root=0)
@@ -493,12 +511,7 @@ class Monitor(object):
         tag = 'subdivision'
         # get number of available channel combis
         if self.rank == 0:
-            plist = []
-            for f, n, s in zip(self.infiles, self.netlist, self.statlist):
-                with CorrelationDataBase(f, mode='r') as cdb:
-                    ch = cdb.get_available_channels(
-                        tag, n, s)
-                    plist.extend([f, n, s, c] for c in ch)
+            plist = self._find_channel_combinations(tag)
         else:
             plist = None
         plist = self.comm.bcast(plist, root=0)
-- 
2.43.0


From b6d81a9c3d4247e7f30e7404e22fefa5210ef5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 41/80] fix: dv with the whole coda (tw_len = None)

The check of the lapse window added None to the start. Once it is
skipped, the bulk was shared with the one that is corrected for the stretch,
so that the final estimate was always close to zero.
---
 src/seismic/monitor/monitor.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 84f7951..b5e662a 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -197,6 +197,7 @@ class Monitor(object):
 
         tw_start = self.options['dv']['tw_start']
 
+        d = None
         if self.options['dv']['compute_tt']:
             if not hasattr(cst[0].stats, 'dist'):
                 warnings.warn(
@@ -214,17 +215,18 @@ class Monitor(object):
                 self.logger.info(
                     f'Computed travel time for {network}.{station} is '
                     f'{tt} s. The assumed direct-line distance was {d} km.')
-        if lts < tw_start + self.options['dv']['tw_len']:
-            reqtw = tw_start + self.options[
-                'dv']['tw_len']
+        tw_len = self.options['dv']['tw_len']
+        # If tw_len is None the rest of the coda is used
+        if tw_len is not None and lts < tw_start + tw_len:
             raise ValueError(
                 'Requested lapse time window (time window start + time window'
-                f' length = {reqtw} contains segments after the Correlation'
-                'Function.'
+                f' length = {tw_start + tw_len}) contains segments after the '
+                'CorrelationFunction.'
                 ' When computing the correlations make sure to set an '
                 f'appropriate value for lengthToSave. The value was {lts}.'
-                f' The direct-line distance between the stations is {d} km.'
-            )
+                + ('' if d is None else
+                   f' The direct-line distance between the stations is {d} km.'
+                   ))
 
         if 'preprocessing' in self.options['dv']:
             for func in self.options['dv']['preprocessing']:
@@ -257,7 +259,7 @@ class Monitor(object):
         if self.options['dv']['tw_len'] is None:
             trim0 = cb.stats.start_lag
             trim1 = cb.stats.end_lag
-            cbt = cb
+            cbt = cb.copy()
         else:
             trim0 = -(
                 tw_start+self.options['dv']['tw_len'])
-- 
2.43.0


From 7acad51563e67c551d29d1b186403eafba2c6cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 42/80] fix: median reference trace with gaps in the
 correlation matrix

numpy.median ignores the mask, i.e., one time window without data made the
whole reference trace and, subsequently, all dv values NaN.
---
 src/seismic/monitor/post_corr_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index ecf5072..592fbb2 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -751,7 +751,7 @@ def corr_mat_extract_trace(
     elif method == 'median':
         mm = np.ma.masked_array(
             ndata, np.isnan(ndata))
-        out = np.median(mm, 0).filled(np.nan)
+        out = np.ma.median(mm, 0).filled(np.nan)
     elif method == 'norm_mean':
         # normalize the matrix
         ndata = corr_mat_normalize(ndata, stats, normtype='absmax')
-- 
2.43.0


From 576510ed97768a53af72d090b647da34f16bd733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 43/80] fix: failed write left npz files that lack some of
 their arrays

If writing fails (e.g., disk full), numpy closes the archive properly. The
result was a valid file, which read_dv returns without, e.g., the header
entries or the scatter that were to be written next.
---
 src/seismic/correlate/stream.py |  3 +--
 src/seismic/monitor/dv.py       |  3 +--
 src/seismic/monitor/wfc.py      |  2 +-
 src/seismic/utils/miic_utils.py | 27 +++++++++++++++++++++++++++
 4 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 9acc41e..1f48276 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -632,8 +632,7 @@ class CorrBulk(object):
         :type path: str
         """
         kwargs = m3ut.save_header_to_np_array(self.stats)
-        np.savez_compressed(
-            path, data=self.data, **kwargs)
+        m3ut.save_npz(path, data=self.data, **kwargs)
 
     def select_corr_time(
         self, starttime: UTCDateTime, endtime: UTCDateTime,
diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 72dd140..b965a3c 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -128,8 +128,7 @@ class DV(object):
         })
         # Np load will otherwise be annoying
         to_save = {k: v for k, v in kwargs.items() if v is not None}
-        np.savez_compressed(
-            path, **to_save)
+        mu.save_npz(path, **to_save)
 
     def plot(
         self, save_dir: str = '.', figure_file_name: str = None,
diff --git a/src/seismic/monitor/wfc.py b/src/seismic/monitor/wfc.py
index 9447c13..05e42ee 100644
--- a/src/seismic/monitor/wfc.py
+++ b/src/seismic/monitor/wfc.py
@@ -74,7 +74,7 @@ class WFC(dict):
         """
         kwargs = mu.save_header_to_np_array(self.stats)
         kwargs.update(self.wfc_processing)
-        np.savez_compressed(path, mean=self.mean, **self.av, **self, **kwargs)
+        mu.save_npz(path, mean=self.mean, **self.av, **self, **kwargs)
 
 
 class WFCBulk(object):
diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index 180af33..aecfbb9 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -12,6 +12,7 @@ Last Modified: Wednesday, 6th December 2023 04:49:41 pm
 '''
 from typing import List, Tuple
 import logging
+import os
 import re
 import warnings
 
@@ -268,6 +269,32 @@ def save_header_to_np_array(stats: Stats) -> dict:
     return array_dict
 
 
+def save_npz(path: str, **arrays):
+    """
+    Saves arrays to a compressed npz file. Should this fail, no file is left
+    behind: numpy would leave a valid file that lacks some of the arrays.
+
+    :param path: Output path
+    :type path: str
+    """
+    outf = path if path.endswith('.npz') else f'{path}.npz'
+
+    def state():
+        try:
+            st = os.stat(outf)
+        except FileNotFoundError:
+            return None
+        return st.st_mtime_ns, st.st_size
+
+    before = state()
+    try:
+        np.savez_compressed(path, **arrays)
+    except BaseException:
+        if state() not in (None, before):
+            os.remove(outf)
+        raise
+
+
 def load_header_from_np_array(array_dict: dict) -> dict:
     """
     Takes the *dictionary-like* return-value of `np.load` and converts the
-- 
2.43.0


From 8cef824976f423a0cb730b26f371581921d1c3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 44/80] fix: one failing correlation ended the waveform
 coherence run

All processes wrote the averages to the same files at the same time, and a
failure in one combination or average lost those of all the others.
---
 src/seismic/monitor/monitor.py | 45 ++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index b5e662a..7f9e7dd 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -526,17 +526,22 @@ class Monitor(object):
         wfcl = []
         for ii in tqdm(ind):
             corr_file, net, stat, cha = plist[ii]
-            for wfc in self.compute_waveform_coherence(
-                    corr_file, tag, net, stat, cha):
-                try:
+            try:
+                # one by one, to keep what was computed before a failure
+                for wfc in self.compute_waveform_coherence(
+                        corr_file, tag, net, stat, cha):
                     wfcl.append(wfc)
-                except Exception as e:
-                    self.logger.exception(e)
+            except Exception as e:
+                self.logger.exception(
+                    f'{e} for {net}.{stat}.{cha} in file {corr_file}.')
 
         outdir = os.path.join(
             self.options['proj_dir'], self.options['wfc']['subdir'])
-        # Compute averages and everything
-        wfclu = self.comm.allgather(wfcl)
+        # Compute averages on one process only. Otherwise, all of them would
+        # write the same files.
+        wfclu = self.comm.gather(wfcl, root=0)
+        if self.rank != 0:
+            return
         # concatenate
         wfcl = [j for i in wfclu for j in i]
         del wfclu
@@ -564,15 +569,20 @@ class Monitor(object):
                         wfc.wfc_processing['tw_len'] == tw_len
                     ])])
         for wfc_avl in wfcl_sub:
-            wfc = average_components_wfc(wfc_avl)
-            # Write files
-            outf = os.path.join(outdir, 'WFC-%s.%s.%s.f%a-%a.tw%a-%a' % (
-                wfc.stats.network, wfc.stats.station, wfc.stats.channel,
-                wfc.wfc_processing['freq_min'],
-                wfc.wfc_processing['freq_max'],
-                wfc.wfc_processing['tw_start'],
-                wfc.wfc_processing['tw_len']))
-            wfc.save(outf)
+            try:
+                wfc = average_components_wfc(wfc_avl)
+                # Write files
+                outf = os.path.join(outdir, 'WFC-%s.%s.%s.f%a-%a.tw%a-%a' % (
+                    wfc.stats.network, wfc.stats.station, wfc.stats.channel,
+                    wfc.wfc_processing['freq_min'],
+                    wfc.wfc_processing['freq_max'],
+                    wfc.wfc_processing['tw_start'],
+                    wfc.wfc_processing['tw_len']))
+                wfc.save(outf)
+            except Exception as e:
+                self.logger.exception(
+                    f'{e} for the average of {wfc_avl[0].stats.network}.'
+                    f'{wfc_avl[0].stats.station}.')
 
     def compute_waveform_coherence(
         self, corr_file: str, tag: str, network: str, station: str,
@@ -618,8 +628,7 @@ class Monitor(object):
         cb = cst.create_corr_bulk(inplace=True)
         outdir = os.path.join(
             self.options['proj_dir'], self.options['wfc']['subdir'])
-        if self.rank == 0:
-            os.makedirs(outdir, exist_ok=True)
+        os.makedirs(outdir, exist_ok=True)
 
         # for possible rest bits
         del cst
-- 
2.43.0


From a44d984343b10b66a71edf3f4adb14c654570696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 45/80] fix: lapse windows and trimming lost a sample to
 floating point precision

---
 src/seismic/monitor/monitor.py | 9 +++++----
 src/seismic/monitor/trim.py    | 6 ++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 7f9e7dd..9589e3a 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -280,8 +280,8 @@ class Monitor(object):
 
         # Compute time window
         tw = [np.arange(
-            tw_start*cbt.stats['sampling_rate'],
-            trim1*cbt.stats['sampling_rate'], 1)]
+            round(tw_start*cbt.stats['sampling_rate']),
+            round(trim1*cbt.stats['sampling_rate']), 1)]
         # 2023/09/29
         # sim_mat is not required in this operation
         dv = cbt.stretch(
@@ -708,8 +708,9 @@ class Monitor(object):
 
                     # Compute time window
                     tw = [np.arange(
-                        tw_start*cbt.stats['sampling_rate'],
-                        (tw_start+tw_len)*cbt.stats['sampling_rate'], 1)]
+                        round(tw_start*cbt.stats['sampling_rate']),
+                        round((tw_start+tw_len)*cbt.stats['sampling_rate']),
+                        1)]
                     wfc = cbt.wfc(
                         tr, tw, 'both', tw_start, tw_len, fmin, fmax)
                     self.logger.debug(
diff --git a/src/seismic/monitor/trim.py b/src/seismic/monitor/trim.py
index b1bfedb..5c5abf7 100644
--- a/src/seismic/monitor/trim.py
+++ b/src/seismic/monitor/trim.py
@@ -41,9 +41,11 @@ def corr_mat_trim(
     """
 
     # fetch indices of start and end
+    # Round to the closest sample, floor would lose one due to the limited
+    # floating point precision and shift the zero position
     start = int(
-        np.floor((starttime-stats['start_lag'])*stats['sampling_rate']))
-    end = int(np.floor((endtime-stats['start_lag'])*stats['sampling_rate']))
+        np.round((starttime-stats['start_lag'])*stats['sampling_rate']))
+    end = int(np.round((endtime-stats['start_lag'])*stats['sampling_rate']))
 
     # check range
     if start < 0:
-- 
2.43.0


From fa1892b80a2f88f028f2873aa73834f0814a3832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 46/80] fix: component averages of stations with similar codes
 were mixed up

Files were grouped by the beginning of their name, so that the dvs of A-B
and A-B2 were averaged, codes or folders containing av were taken for
averages, and the result depended on the order in which files were listed.
One average that could not be computed or written ended the run.
---
 src/seismic/monitor/monitor.py | 203 ++++++++++++++++++++-------------
 1 file changed, 122 insertions(+), 81 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 9589e3a..2e93629 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -25,6 +25,7 @@ import numpy as np
 from obspy import UTCDateTime
 from tqdm import tqdm
 
+from seismic.correlate.stats import CorrStats
 from seismic.db.corr_hdf5 import CorrelationDataBase
 from seismic.monitor.dv import DV, read_dv
 from seismic.monitor.wfc import WFC
@@ -409,94 +410,92 @@ class Monitor(object):
             'crossstations', 'betweenstations', 'betweencomponents')
         if method.lower() not in av_methods:
             raise ValueError('Averaging method not in %s.' % str(av_methods))
-        infiles = glob(os.path.join(self.outdir, '*.npz'))
-        if method.lower() == 'autocomponents':
+        method = method.lower()
+        if method == 'autocomponents':
             ch = 'av-auto'
-        elif method.lower() in ('betweencomponents', 'crosscomponents'):
+        elif method in ('betweencomponents', 'crosscomponents'):
             ch = 'av-xc'
         else:
             ch = 'av'
-        while len(infiles):
+        if self.rank != 0:
+            # Would only write the same files again
+            self.comm.barrier()
+            return
+        try:
             # Find files belonging to same station
-            pat = '.'.join(infiles[0].split('.')[:-2]) + '*'
-            filtfil = fnmatch.filter(infiles, pat)
-            fffil = []  # Second filter
-            for f in filtfil:
-                if ch in f.split('.'):
-                    # Is already computed for this station
-                    # So let's remove all of them from the initial list
-                    for ff in filtfil:
-                        try:
-                            infiles.remove(ff)
-                        except ValueError:
-                            # Has already been removed by one of the other
-                            # check
-                            pass
-                    filtfil.clear()
-                    fffil.clear()
-                    self.logger.debug('Skipping already averaged dv...%s' % f)
-                    break
-                elif 'av' in f:
-                    # computed by another averaging method
-                    infiles.remove(f)
+            groups = {}
+            for f in sorted(os.listdir(self.outdir)):
+                codes = f[3:-4].split('.')
+                if not (f.startswith('DV-') and f.endswith('.npz')) \
+                        or len(codes) != 3:
                     continue
-                components = f.split('.')[-2].split('-')
-                stations = f.split('.')[-3].split('-')
-                if method.lower() == 'autocomponents':
-                    # Remove those from combined channels
-                    if components[0] != components[1] \
-                            or stations[0] != stations[1]:
-                        infiles.remove(f)
-                        continue
-                elif method.lower() in (
-                        'betweencomponents', 'crosscomponents'):
-                    # Remove those from equal channels
-                    components = f.split('.')[-2].split('-')
-                    if components[0] == components[1] \
-                            or stations[0] != stations[1]:
-                        infiles.remove(f)
-                        continue
-                elif method.lower() == 'stationwide':
-                    if stations[0] != stations[1]:
-                        infiles.remove(f)
-                        continue
-                elif method.lower() in ('betweenstations', 'crossstations'):
-                    if stations[0] == stations[1]:
-                        infiles.remove(f)
-                        continue
-                fffil.append(f)
-            dvs = []
-            for f in fffil:
+                if _selected_for_average(method, *codes):
+                    groups.setdefault((codes[0], codes[1]), []).append(
+                        os.path.join(self.outdir, f))
+            for (net, stat), files in groups.items():
                 try:
-                    dvs.append(read_dv(f))
+                    self._average_files(net, stat, ch, files)
                 except Exception:
                     self.logger.exception(
-                        'An unexpected error has ocurred '
-                        + 'while reading file %s.' % f)
-                # Remove so they are not processed again
-                infiles.remove(f)
-            if not len(dvs):
-                continue
-            elif len(dvs) == 1:
-                self.logger.warn(
-                    'Only component %s found for station %s.%s... Skipping.'
-                    % (dvs[0].stats.channel, dvs[0].stats.network,
-                        dvs[0].stats.station))
-                continue
-            dv_av = average_components(dvs)
-            outf = os.path.join(
-                self.outdir, 'DV-%s.%s.%s' % (
-                    dv_av.stats.network, dv_av.stats.station, ch))
-            dv_av.save(outf)
-            if self.options['dv']['plot_vel_change']:
-                # plot if desired
-                fname = '%s_%s_%s' % (
-                    dv_av.stats.network, dv_av.stats.station, ch)
-                savedir = os.path.join(
-                    self.options['proj_dir'], self.options['fig_subdir'])
-                dv_av.plot(
-                    save_dir=savedir, figure_file_name=fname,
-                    normalize_simmat=True, sim_mat_Clim=[-1, 1])
+                        'An unexpected error has ocurred while averaging the '
+                        + 'components of %s.%s.' % (net, stat))
+        finally:
+            self.comm.barrier()
+
+    def _average_files(self, net: str, stat: str, ch: str, files: List[str]):
+        """
+        Averages the dvs in the files and writes the result to the dv folder
+        unless that had been done before.
+
+        :param net: Network combination code
+        :type net: str
+        :param stat: Station combination code
+        :type stat: str
+        :param ch: Channel code used in the name of the output file.
+        :type ch: str
+        :param files: Files holding the dvs to be averaged.
+        :type files: List[str]
+        """
+        outf = os.path.join(self.outdir, 'DV-%s.%s.%s' % (net, stat, ch))
+        if os.path.isfile(outf + '.npz'):
+            try:
+                read_dv(outf + '.npz')
+                self.logger.debug(
+                    'Skipping already averaged dv...%s' % outf)
+                return
+            except (OSError, MemoryError):
+                # Could not be read now, but might be all right
+                self.logger.exception('Could not read %s.' % outf)
+                return
+            except Exception:
+                self.logger.exception(
+                    'Average %s is corrupt and will be recomputed.' % outf)
+        dvs = []
+        for f in files:
+            try:
+                dvs.append(read_dv(f))
+            except Exception:
+                self.logger.exception(
+                    'An unexpected error has ocurred '
+                    + 'while reading file %s.' % f)
+        if not len(dvs):
+            return
+        elif len(dvs) == 1:
+            self.logger.warning(
+                'Only component %s found for station %s.%s... Skipping.'
+                % (dvs[0].stats.channel, dvs[0].stats.network,
+                    dvs[0].stats.station))
+            return
+        dv_av = average_components(dvs)
+        dv_av.save(outf)
+        if self.options['dv']['plot_vel_change']:
+            # plot if desired
+            fname = '%s_%s_%s' % (net, stat, ch)
+            savedir = os.path.join(
+                self.options['proj_dir'], self.options['fig_subdir'])
+            dv_av.plot(
+                save_dir=savedir, figure_file_name=fname,
+                normalize_simmat=True, sim_mat_Clim=[-1, 1])
 
     def compute_waveform_coherence_bulk(self):
         """
@@ -791,6 +790,48 @@ def _codes_requested(codes: List[str], requested: str | List[str]) -> bool:
         for code in codes)
 
 
+def _selected_for_average(
+        method: str, network: str, station: str, channel: str) -> bool:
+    """
+    Check whether :meth:`Monitor.compute_components_average` uses a dv.
+
+    :param method: Averaging method (in lower case).
+    :type method: str
+    :param network: Network combination code.
+    :type network: str
+    :param station: Station combination code.
+    :type station: str
+    :param channel: Channel combination code.
+    :type channel: str
+    :rtype: bool
+    """
+    if channel in ('av', 'av-auto', 'av-xc'):
+        # is an average itself
+        return False
+    networks, stations, channels = [
+        code.split('-') for code in (network, station, channel)]
+    if not len(networks) == len(stations) == len(channels) == 2:
+        return False
+    same_station = networks[0] == networks[1] and stations[0] == stations[1]
+    if method in ('betweenstations', 'crossstations'):
+        return not same_station
+    elif not same_station:
+        return False
+    elif method == 'autocomponents':
+        return channels[0] == channels[1]
+    elif method in ('betweencomponents', 'crosscomponents'):
+        return channels[0] != channels[1]
+    # StationWide
+    return True
+
+
+def _is_average(stats: CorrStats) -> bool:
+    """ Check whether the header belongs to an average of several dvs. """
+    return any(
+        code in ('av', 'geoav')
+        for code in (stats.channel, stats.station, stats.network))
+
+
 def corr_find_filter(
     indir: str, net: dict, **kwargs) -> Tuple[
         List[str], List[str], List[str]]:
@@ -994,7 +1035,7 @@ def average_components_mem_save(
             dv_processing = dv.dv_processing
         if dv.method != method:
             raise TypeError('DV has to be computed with the same method.')
-        if 'av' in dv.stats.channel+dv.stats.network+dv.stats.station:
+        if _is_average(dv.stats):
             warnings.warn('Averaging of averaged dvs not allowed. Skipping dv')
             continue
         if dv.sim_mat.shape != sim_mat_sum.shape or any(
@@ -1072,7 +1113,7 @@ def average_components(
     for dv in dvs:
         if dv.method != dvs[0].method:
             raise TypeError('DV has to be computed with the same method.')
-        if 'av' in dv.stats.channel+dv.stats.network+dv.stats.station:
+        if _is_average(dv.stats):
             warnings.warn('Averaging of averaged dvs not allowed. Skipping dv')
             continue
         if dv.sim_mat.shape != dvs[0].sim_mat.shape or any(
-- 
2.43.0


From dab1262ac5b6026654342077390a0da95e3d0751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:24 +0000
Subject: [PATCH 47/80] fix: npz files of dvs, coherences and bulks did not
 restore the object

Single times came back as scalars, whole codas and the properties of averages
raised, lists in the header became arrays, and the header of a CorrBulk a
plain dictionary that the methods of CorrBulk cannot handle.
---
 src/seismic/correlate/stream.py | 11 +++++++++--
 src/seismic/monitor/dv.py       | 14 +++++++++-----
 src/seismic/monitor/wfc.py      | 10 ++++------
 src/seismic/utils/miic_utils.py | 26 +++++++++++++++++++++++++-
 4 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 1f48276..7897bdb 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -60,6 +60,9 @@ class CorrBulk(object):
         """
         self.data = A
         if stats:
+            if not isinstance(stats, CorrStats):
+                # as loaded from a file
+                stats = CorrStats(stats)
             self.stats = stats
         elif statlist:
             self.stats = convert_statlist_to_bulk_stats(statlist)
@@ -834,8 +837,12 @@ def read_corr_bulk(path: str) -> CorrBulk:
     :rtype: CorrBulk
     """
     loaded = np.load(path)
-    stats = m3ut.load_header_from_np_array(loaded)
-    return CorrBulk(loaded['data'], stats=stats)
+    stats = m3ut.times_to_list(m3ut.load_header_from_np_array(loaded))
+    cb = CorrBulk(loaded['data'], stats=stats)
+    if 'processing_bulk' in stats:
+        # A new CorrBulk starts without history
+        cb.stats['processing_bulk'] = list(stats['processing_bulk'])
+    return cb
 
 
 class CorrStream(Stream):
diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index b965a3c..7cccde7 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -242,7 +242,7 @@ def read_dv(path: str) -> DV:
                 f'No files that adhere the pattern {path} found.')
         return dvl
     loaded = np.load(path)
-    stats = CorrStats(mu.load_header_from_np_array(loaded))
+    stats = CorrStats(mu.times_to_list(mu.load_header_from_np_array(loaded)))
     # to check that compatibility works
     vt = loaded['vt_array']
     while not isinstance(vt, str):
@@ -254,10 +254,14 @@ def read_dv(path: str) -> DV:
         dv_processing = dict(
             freq_min=float(loaded['freq_min']),
             freq_max=float(loaded['freq_max']),
-            tw_start=float(loaded['tw_start']),
-            tw_len=float(loaded['tw_len']))
-        dv_processing['sides'] = loaded.get('sides', 'unknown')
-        dv_processing['aligned'] = loaded.get('aligned', False)
+            tw_start=float(loaded['tw_start']))
+        tw_len = loaded.get('tw_len', None)
+        # None is the whole coda
+        dv_processing['tw_len'] = None if tw_len is None else float(tw_len)
+        dv_processing['sides'] = np.asarray(
+            loaded.get('sides', 'unknown')).item()
+        dv_processing['aligned'] = np.asarray(
+            loaded.get('aligned', False)).item()
     except KeyError:
         dv_processing = {}
     return DV(
diff --git a/src/seismic/monitor/wfc.py b/src/seismic/monitor/wfc.py
index 05e42ee..d1c5bdb 100644
--- a/src/seismic/monitor/wfc.py
+++ b/src/seismic/monitor/wfc.py
@@ -157,13 +157,11 @@ def read_wfc(path: str) -> WFC:
         else:
             stats[k] = v
     wfc_processing = {
-        'tw_start': stats['tw_start'],
-        'tw_len': stats['tw_len'],
-        'freq_min': stats['freq_min'],
-        'freq_max': stats['freq_max']
-    }
+        k: np.asarray(stats[k]).item()
+        for k in ('tw_start', 'tw_len', 'freq_min', 'freq_max')}
     wfc = WFC(
-        d, stats=CorrStats(mu.load_header_from_np_array(stats)),
+        d, stats=CorrStats(mu.times_to_list(
+            mu.load_header_from_np_array(stats))),
         wfc_processing=wfc_processing)
     wfc.av = av
     wfc.mean = mean
diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index aecfbb9..251ef83 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -246,7 +246,8 @@ no_stats = [
     'data', 'tw_len', 'tw_start', 'freq_min', 'freq_max', 'aligned', 'subdir',
     'plot_vel_change', 'start_date', 'end_date', 'win_len', 'date_inc',
     'sides', 'compute_tt', 'rayleigh_wave_velocity', 'stretch_range',
-    'stretch_steps', 'dt_ref', 'preprocessing', 'postprocessing']
+    'stretch_steps', 'dt_ref', 'preprocessing', 'postprocessing',
+    'stretches', 'corrs', 'n_stat']
 
 
 def save_header_to_np_array(stats: Stats) -> dict:
@@ -317,9 +318,32 @@ def load_header_from_np_array(array_dict: dict) -> dict:
             except IndexError:
                 warnings.warn(
                     f'Key {k} could not be loaded into the header.')
+                continue
+            if isinstance(d[k], np.ndarray):
+                # was a list when it was saved
+                d[k] = d[k].tolist()
     return d
 
 
+def times_to_list(header: dict) -> dict:
+    """
+    The times in the headers of objects that hold several correlations are
+    always lists, even if there is only one. However,
+    :func:`~load_header_from_np_array` cannot know that. The header is altered
+    in-place.
+
+    :param header: The header as returned by
+        :func:`~load_header_from_np_array`.
+    :type header: dict
+    :return: The header
+    :rtype: dict
+    """
+    for k in t_keys:
+        if isinstance(header.get(k), UTCDateTime):
+            header[k] = [header[k]]
+    return header
+
+
 def convert_utc_to_timestamp(
         utcdt: UTCDateTime or List[UTCDateTime]) -> np.ndarray:
     """
-- 
2.43.0


From 6d71efc0fe3afb0fce840bdc1d0f6551c9161e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:24 +0000
Subject: [PATCH 48/80] fix: a damaged file ended reading dvs or coherences
 with wildcards

A truncated or partly overwritten npz file raises more than BadZipFile.
---
 src/seismic/monitor/dv.py       | 3 +--
 src/seismic/monitor/wfc.py      | 9 ++++++++-
 src/seismic/utils/miic_utils.py | 6 ++++++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 7cccde7..55c7728 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -15,7 +15,6 @@ from datetime import datetime
 from glob import glob
 from typing import List, Tuple, Optional
 import warnings
-from zipfile import BadZipFile
 
 import matplotlib.pyplot as plt
 import numpy as np
@@ -235,7 +234,7 @@ def read_dv(path: str) -> DV:
         for p in glob(path):
             try:
                 dvl.append(read_dv(p))
-            except BadZipFile:
+            except mu.npz_errors:
                 warnings.warn(f'File {p} corrupt, skipping..')
         if not len(dvl):
             raise FileNotFoundError(
diff --git a/src/seismic/monitor/wfc.py b/src/seismic/monitor/wfc.py
index d1c5bdb..a274666 100644
--- a/src/seismic/monitor/wfc.py
+++ b/src/seismic/monitor/wfc.py
@@ -12,6 +12,7 @@ Last Modified: Tuesday, 11th July 2023 04:42:52 pm
 '''
 import glob
 from typing import List
+import warnings
 
 import numpy as np
 from matplotlib import pyplot as plt
@@ -142,7 +143,13 @@ def read_wfc(path: str) -> WFC:
     :rtype: WFC
     """
     if '*' in path:
-        return [read_wfc(f) for f in glob.glob(path, recursive=True)]
+        wfcl = []
+        for f in glob.glob(path, recursive=True):
+            try:
+                wfcl.append(read_wfc(f))
+            except mu.npz_errors:
+                warnings.warn(f'File {f} corrupt, skipping..')
+        return wfcl
     loaded = np.load(path)
     d = {}
     av = {}
diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index 251ef83..9eb9a3d 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -15,6 +15,8 @@ import logging
 import os
 import re
 import warnings
+from zipfile import BadZipFile
+import zlib
 
 import numpy as np
 from obspy import Inventory, Stream, Trace, UTCDateTime
@@ -248,6 +250,10 @@ no_stats = [
     'sides', 'compute_tt', 'rayleigh_wave_velocity', 'stretch_range',
     'stretch_steps', 'dt_ref', 'preprocessing', 'postprocessing',
     'stretches', 'corrs', 'n_stat']
+# what reading a damaged (e.g., truncated) npz file can raise
+npz_errors = (
+    BadZipFile, zlib.error, EOFError, KeyError, ValueError,
+    NotImplementedError)
 
 
 def save_header_to_np_array(stats: Stats) -> dict:
-- 
2.43.0


From ab931b3f67cc62ae7d439bd7dde03378a01d6788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 49/80] fix: dvs saved without similarity matrix could not be
 read

measure_shift sets it to None if it was not requested.
---
 src/seismic/monitor/dv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 55c7728..f59021c 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -264,7 +264,7 @@ def read_dv(path: str) -> DV:
     except KeyError:
         dv_processing = {}
     return DV(
-        loaded['corr'], loaded['value'], vt, loaded['sim_mat'],
+        loaded['corr'], loaded['value'], vt, loaded.get('sim_mat', None),
         loaded['second_axis'], method, stats=stats,
         stretches=loaded.get('stretches', None),
         corrs=loaded.get('corrs', None), n_stat=loaded.get('n_stat', None),
-- 
2.43.0


From 6e24c028baa8dfa140d6a1319f9a0fb5e8d06617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 50/80] fix: FS_Client missed files unless the last time
 indicator was the finest

Files named like day.month.year, by %-d, %M or by week were not found across
their borders.
---
 src/seismic/trace_data/waveform.py | 56 ++++++++++++++++--------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index b54cee1..b59e8f8 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -705,35 +705,37 @@ def _adjacent_filepattern(
     :type inc: int
     """
     assert ((inc == 1) or (inc == -1)), " inc must either be 1 or -1"
-    fname = ''
-    flag = 0
     # stays the same if fs does not contain a time indicator
     thistime = starttime
-    # find earlier time by turning back the time by one increment of the
-    # last time indicator in the fs
-    for part in fs[-1::-1]:
-        if not isinstance(part, list):
-            part = [part]
-        for tpart in part[-1::-1]:
-            if (not ((('(' in tpart) and (')' in tpart))
-                or (tpart in IDformat))
-                    and ('%' in tpart) and (flag == 0)):
-                flag = 1
-                if tpart in ['%H', '%I']:
-                    thistime = starttime + inc * datetime.timedelta(hours=1)
-                elif tpart == '%p':
-                    thistime = starttime + inc * datetime.timedelta(hours=12)
-                elif tpart in ['%a', '%A', '%w', '%d', '%j', '%-j']:
-                    thistime = starttime + inc * datetime.timedelta(days=1)
-                elif tpart in ['%U', '%W']:
-                    thistime = starttime + inc * datetime.timedelta(days=7)
-                elif tpart in ['%b', '%B', '%m']:
-                    # first of the month, as months differ in length
-                    month = starttime.month - 1 + inc
-                    thistime = datetime.datetime(
-                        starttime.year + month//12, month % 12 + 1, 1)
-                elif tpart in ['%y', '%Y']:
-                    thistime = datetime.datetime(starttime.year + inc, 1, 1)
+    # time indicators in any order and with or without padding
+    codes = set()
+    for part in fs:
+        for tpart in part if isinstance(part, list) else [part]:
+            tpart = tpart.split('(')[0]
+            if '%' in tpart and tpart not in IDformat:
+                codes.add(tpart.replace('%-', '%'))
+    # find adjacent time by turning the time by one increment of the
+    # finest time indicator in the fs
+    if '%M' in codes:
+        thistime = starttime + inc * datetime.timedelta(minutes=1)
+    elif codes & {'%H', '%I'}:
+        thistime = starttime + inc * datetime.timedelta(hours=1)
+    elif '%p' in codes:
+        thistime = starttime + inc * datetime.timedelta(hours=12)
+    elif codes & {'%a', '%A', '%w', '%d', '%j'}:
+        thistime = starttime + inc * datetime.timedelta(days=1)
+    elif codes & {'%U', '%W'}:
+        # weeks are counted anew every year, so not all have seven days
+        fname = _current_filepattern(ID, starttime, fs)
+        while _current_filepattern(ID, thistime, fs) == fname:
+            thistime += inc * datetime.timedelta(days=1)
+    elif codes & {'%b', '%B', '%m'}:
+        # first of the month, as months differ in length
+        month = starttime.month - 1 + inc
+        thistime = datetime.datetime(
+            starttime.year + month//12, month % 12 + 1, 1)
+    elif codes & {'%y', '%Y'}:
+        thistime = datetime.datetime(starttime.year + inc, 1, 1)
     fname = _current_filepattern(ID, thistime, fs)
     return fname, thistime
 
-- 
2.43.0


From a32c18e2cb17ff94f96af2093e6baf157d5879e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:51 +0000
Subject: [PATCH 51/80] fix: storing metadata of several processes or without
 response lost responses

Processes that fetched the same station used the same temporary file, and
metadata without response replaced known responses.
---
 src/seismic/trace_data/waveform.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index b59e8f8..0253b58 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -11,6 +11,7 @@ Created: Thursday, 18th February 2021 02:30:02 pm
 Last Modified: Monday, 4th March 2024 11:44:40 am
 '''
 
+from copy import deepcopy
 import fnmatch
 import io
 import os
@@ -401,7 +402,7 @@ class Store_Client(object):
         # Save inventory by station name, like this no old information
         # can be deleted
         if self.inventory is not None:
-            self.inventory += ninv
+            self.inventory = update_inventory(self.inventory, ninv)
         else:
             self.inventory = ninv
         if self.read_only:
@@ -412,8 +413,9 @@ class Store_Client(object):
             # might hold other channels or times of that station
             ninv = update_inventory(read_inventory(fname), ninv)
         # If this fails half way, the existing file has to stay intact
+        # Other processes might be writing the same station
         tmpfile = os.path.join(
-            self.inv_dir, f'.{os.path.basename(fname)}.tmp')
+            self.inv_dir, f'.{os.path.basename(fname)}.{os.getpid()}.tmp')
         ninv.write(tmpfile, format="STATIONXML", validate=True)
         os.replace(tmpfile, fname)
 
@@ -791,7 +793,8 @@ def _fs_translate(part: str, ID: str, starttime: datetime.datetime) -> str:
 def update_inventory(old: Inventory, new: Inventory) -> Inventory:
     """
     Adds the information in new to the inventory old. Replaces channel epochs
-    that are defined in both of them.
+    that are defined in both of them, but keeps responses that are only known
+    to old.
 
     :param old: Inventory to be updated
     :type old: Inventory
@@ -803,12 +806,20 @@ def update_inventory(old: Inventory, new: Inventory) -> Inventory:
     def key(net, stat, cha):
         return (
             net.code, stat.code, cha.location_code, cha.code,
-            cha.start_date, cha.end_date)
+            str(cha.start_date), str(cha.end_date))
+    # others might still use it
+    old = deepcopy(old)
     stations = [(net.code, stat.code) for net in new for stat in net]
-    channels = [
-        key(net, stat, cha) for net in new for stat in net for cha in stat]
+    channels = {
+        key(net, stat, cha): cha for net in new for stat in net
+        for cha in stat}
     for net in old:
         for stat in net:
+            for cha in stat:
+                ncha = channels.get(key(net, stat, cha))
+                if ncha is not None and not (
+                        ncha.response and ncha.response.response_stages):
+                    ncha.response = cha.response
             stat.channels = [
                 cha for cha in stat if key(net, stat, cha) not in channels]
         net.stations = [
-- 
2.43.0


From 68cdcce9aa0626f01b89dcf57af729daee150cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:51 +0000
Subject: [PATCH 52/80] fix: one missing response ended the correlation or
 corrupted other channels

If one response was missing, only that of the first station was requested,
traces before it were deconvolved twice, any error of the service ended the
job and left the other processes waiting. Likewise, one channel without
orientation kept the polarity of the following ones from being corrected.
---
 src/seismic/correlate/correlate.py | 69 ++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 17 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 2b03d7f..3df43f0 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -642,7 +642,13 @@ class Correlator(object):
                                 'Stream preprocessing failed for '
                                 'time '
                                 f'{t}.\nThe Original Error Message was {e}.')
-                        continue
+                        win = Stream()
+                    # Only use what all processes could preprocess
+                    ids = set.intersection(*[set(x) for x in (
+                        self.comm.allgather([tr.id for tr in win]))])
+                    for tr in list(win):
+                        if tr.id not in ids:
+                            win.remove(tr)
                     if self.rank == 0:
                         self.options['combinations'] = calc_cross_combis(
                             win, self.ex_dict,
@@ -1382,26 +1388,17 @@ def preprocess_stream(
     st = st.split()
     st.sort(keys=['starttime'])
 
-    inv = store_client.inventory
     if remove_response:
-        try:
-            st.remove_response(taper=False, inventory=inv)
-        except ValueError:
-            print('Station response not found ... loading from remote.')
-            # missing station response
-            ninv = store_client.rclient.get_stations(
-                network=st[0].stats.network, station=st[0].stats.station,
-                channel='*', level='response')
-            st.remove_response(taper=False, inventory=ninv)
-            store_client._write_inventory(ninv)
-            inv += ninv
+        st = _remove_response(st, store_client)
 
     # Sometimes Z has reversed polarity
+    inv = store_client.inventory
     if inv:
-        try:
-            mu.correct_polarity(st, inv)
-        except Exception as e:
-            print(e)
+        for tr in st:
+            try:
+                mu.correct_polarity(Stream([tr]), inv)
+            except Exception as e:
+                print(e)
 
     mu.discard_short_traces(st, subdivision['corr_len']/20)
 
@@ -1426,6 +1423,44 @@ def preprocess_stream(
     return st
 
 
+def _remove_response(st: Stream, store_client: Store_Client) -> Stream:
+    """
+    Removes the instrument response from each trace. Missing responses will be
+    requested from the remote client. Traces, for which there is no
+    response, are discarded.
+    """
+    remote = {}
+    for tr in list(st):
+        try:
+            tr.remove_response(
+                taper=False, inventory=store_client.inventory)
+            continue
+        except ValueError:
+            # missing station response
+            pass
+        code = (tr.stats.network, tr.stats.station)
+        try:
+            if code not in remote:
+                print('Station response not found ... loading from remote.')
+                remote[code] = None
+                remote[code] = store_client.rclient.get_stations(
+                    network=code[0], station=code[1],
+                    channel='*', level='response')
+                try:
+                    store_client._write_inventory(remote[code])
+                except OSError as e:
+                    warnings.warn(f'Response could not be stored. {e}')
+            if remote[code] is None:
+                raise ValueError('No response information')
+            tr.remove_response(taper=False, inventory=remote[code])
+        except Exception as e:
+            warnings.warn(
+                f'Response of {tr.id} could not be removed. Discarding '
+                f'trace. The original error message was: {e}')
+            st.remove(tr)
+    return st
+
+
 def generate_corr_inc(
     st: Stream, subdivision: dict, read_len: int,
         startt: Optional[UTCDateTime] = None, **kwargs) -> Iterator[Stream]:
-- 
2.43.0


From 4a96cbfd00400acc1b203ef002ce51e256d8aa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 53/80] fix: sensitivity kernels failed for many grid
 resolutions and lapse times

---
 src/seismic/monitor/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index d0314ae..f222f3c 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -146,14 +146,16 @@ def sensitivity_kernel(
     atol = vel*dt/2
     if dt <= 0:
         raise ValueError('dt has to be greater than 0.')
-    if np.any(np.diff(x) != x[1]-x[0]) or np.any(np.diff(y) != y[1]-y[0]):
+    # (except for the numerical precision of the axes)
+    if not np.allclose(np.diff(x), x[1]-x[0]) \
+            or not np.allclose(np.diff(y), y[1]-y[0]):
         raise ValueError('x and y have to be monotonously increasing arrays.')
     if x[1]-x[0] < 2*vel*dt:
         warnings.warn(
             'dt is too large for the grid spacing. This can lead to '
             'artefacts in the kernel. dt should be smaller than '
             'dx/(2*vel).')
-    T = np.arange(0, t + dt, dt)
+    T = np.arange(0, t + dt/2, dt)
     dist_s1_s2 = np.linalg.norm(s1-s2)
     denom = probability(dist_s1_s2, t, vel, mf_path, atol=atol)
     dist_s1_x0 = compute_grid_dist(x, y, s1[0], s1[1])
-- 
2.43.0


From b9c8caf89223c7e91e926cf1ef86b09641ffb492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 54/80] fix: aligning dvs to a grid mixed up the shifts if one
 dv had no value

---
 src/seismic/monitor/spatial.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index f222f3c..fb2a5ca 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -1017,7 +1017,16 @@ class DVGrid(object):
             return dvs
         # Compute the foward value at each of the remaining dvs
         if hasattr(self, 'vel_change'):
-            shifts = self.forward_model(self.vel_change, dvs, utc)
+            shifts, available = [], []
+            for dv in dvs:
+                try:
+                    shifts.extend(
+                        self.forward_model(self.vel_change, [dv], utc))
+                except IndexError:
+                    # No value at the given time
+                    continue
+                available.append(dv)
+            dvs = available
             if np.any(np.isnan(shifts)):
                 raise ValueError(
                     'The forward model returned nan values. why?'
-- 
2.43.0


From b2a26eadb1538e2b824f3f4868d0f46e97e10139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:52 +0000
Subject: [PATCH 55/80] fix: dvs without complete processing information could
 not be used for grids or saved

---
 src/seismic/monitor/dv.py      | 14 ++++++++------
 src/seismic/monitor/spatial.py | 18 +++++++++---------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index f59021c..e2d1c0a 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -33,7 +33,7 @@ class DV(object):
         sim_mat: np.ndarray, second_axis: np.ndarray, method: str,
         stats: CorrStats, stretches: np.ndarray = None,
         corrs: np.ndarray = None, n_stat: np.ndarray = None,
-            dv_processing: dict = {}):
+            dv_processing: dict = None):
         """
         Creates an object designed to hold and process velocity changes.
 
@@ -76,7 +76,7 @@ class DV(object):
         self.second_axis = second_axis
         self.method = method
         self.stats = stats
-        self.dv_processing = dv_processing
+        self.dv_processing = {} if dv_processing is None else dv_processing
         # Available indices
         self.avail = ~np.isnan(self.corr)
 
@@ -107,10 +107,10 @@ class DV(object):
         kwargs = mu.save_header_to_np_array(self.stats)
         if self.dv_processing is not None and len(self.dv_processing):
             kwargs.update({
-                'freq_min': self.dv_processing['freq_min'],
-                'freq_max': self.dv_processing['freq_max'],
-                'tw_len': self.dv_processing['tw_len'],
-                'tw_start': self.dv_processing['tw_start'],
+                'freq_min': self.dv_processing.get('freq_min'),
+                'freq_max': self.dv_processing.get('freq_max'),
+                'tw_len': self.dv_processing.get('tw_len'),
+                'tw_start': self.dv_processing.get('tw_start'),
                 'sides': self.dv_processing.get('sides', 'unknown'),
                 'aligned': self.dv_processing.get('aligned', False)
             })
@@ -263,6 +263,8 @@ def read_dv(path: str) -> DV:
             loaded.get('aligned', False)).item()
     except KeyError:
         dv_processing = {}
+        if 'aligned' in loaded:
+            dv_processing['aligned'] = np.asarray(loaded['aligned']).item()
     return DV(
         loaded['corr'], loaded['value'], vt, loaded.get('sim_mat', None),
         loaded['second_axis'], method, stats=stats,
diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index fb2a5ca..327ea1d 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -775,16 +775,16 @@ class DVGrid(object):
         self._add_stations(slat1, slon1)
         vals = np.array(vals)
         corrs = np.array(corrs)
-        if processing is not None:
-            tw = (
-                processing['tw_start'],
-                processing['tw_start'] + processing['tw_len'])
-            freq0 = processing['freq_min']
-            freq1 = processing['freq_max']
-        else:
+        # The information can be incomplete (e.g., if no length was defined)
+        processing = processing or {}
+        freq0 = processing.get('freq_min')
+        freq1 = processing.get('freq_max')
+        tw_start = processing.get('tw_start')
+        tw_len = processing.get('tw_len')
+        if tw_start is None or tw_len is None:
             tw = None
-            freq0 = None
-            freq1 = None
+        else:
+            tw = (tw_start, tw_start + tw_len)
         return vals, corrs, slat0, slon0, slat1, slon1, tw, freq0, freq1
 
     def _add_stations(self, lats: Iterable[float], lons: Iterable[float]):
-- 
2.43.0


From 0ae2a35272eb640dbc01178445e42c84ff5ff3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:58 +0000
Subject: [PATCH 56/80] fix: number of samples in the sensitivity kernels at
 half a sample

---
 src/seismic/monitor/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index 327ea1d..52282b2 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -155,7 +155,8 @@ def sensitivity_kernel(
             'dt is too large for the grid spacing. This can lead to '
             'artefacts in the kernel. dt should be smaller than '
             'dx/(2*vel).')
-    T = np.arange(0, t + dt/2, dt)
+    # up to the sample closest to t
+    T = np.arange(np.ceil(t/dt - .5 - 1e-6) + 1)*dt
     dist_s1_s2 = np.linalg.norm(s1-s2)
     denom = probability(dist_s1_s2, t, vel, mf_path, atol=atol)
     dist_s1_x0 = compute_grid_dist(x, y, s1[0], s1[1])
-- 
2.43.0


From 11ed52c9b49b1e6d07f9e83e73cbe493470407be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:58 +0000
Subject: [PATCH 57/80] fix: saving a dv or stack again destroyed the old file
 if the disk was full

---
 src/seismic/utils/miic_utils.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index 9eb9a3d..8adb479 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -280,25 +280,26 @@ def save_npz(path: str, **arrays):
     """
     Saves arrays to a compressed npz file. Should this fail, no file is left
     behind: numpy would leave a valid file that lacks some of the arrays.
+    A file that existed before is only replaced if everything could be written.
 
     :param path: Output path
     :type path: str
     """
     outf = path if path.endswith('.npz') else f'{path}.npz'
-
-    def state():
-        try:
-            st = os.stat(outf)
-        except FileNotFoundError:
-            return None
-        return st.st_mtime_ns, st.st_size
-
-    before = state()
+    # does not end with npz, so it will not be mistaken for a complete file
+    tmpf = f'{outf}.tmp'
+    replace = os.path.exists(outf)
     try:
-        np.savez_compressed(path, **arrays)
+        if replace:
+            with open(tmpf, 'wb') as fh:
+                np.savez_compressed(fh, **arrays)
+            os.replace(tmpf, outf)
+        else:
+            np.savez_compressed(path, **arrays)
     except BaseException:
-        if state() not in (None, before):
-            os.remove(outf)
+        written = tmpf if replace else outf
+        if os.path.exists(written):
+            os.remove(written)
         raise
 
 
-- 
2.43.0


From 5607772df550d8e11d26053bc906141b8ba4909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 58/80] fix: taper_center on correlations that are one-sided or
 not symmetric

The taper was cut where it begins before the trace, but still applied to as
many samples as before (ValueError). The zero lag was truncated rather than
rounded to a sample.
---
 src/seismic/monitor/post_corr_process.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 592fbb2..dc8a417 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -573,17 +573,18 @@ def corr_mat_taper_center(
     taper[-slope_length:] = tap[:slope_length]
 
     # calculate start end end points of the taper
-    start = int(-stats['start_lag']*stats['sampling_rate'] - length/2)
+    start = int(
+        np.round(-stats['start_lag']*stats['sampling_rate'])) - length//2
+    # the part of the taper that lies on the trace (end is exclusive)
+    end = min(start + length + 1, stats['npts'])
+    if end <= max(start, 0):
+        return data
     if start < 0:
-        taper = taper[np.absolute(start):]
+        taper = taper[-start:]
         start = 0
-
-    end = start + length
-    if end > stats['npts']:
-        end = stats['npts']
-        taper = taper[0:end - start]
+    taper = taper[:end - start]
     # apply taper
-    data[:, start:end + 1] *= \
+    data[:, start:end] *= \
         np.tile(np.atleast_2d(taper), (data.shape[0], 1))
 
     return data
-- 
2.43.0


From e4db88b29165d4e5caa11c3351a4d0a593f8e2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:49 +0000
Subject: [PATCH 59/80] fix: mirroring with a zero sample that is not exactly
 an integer

0.7 s * 10 Hz is 7.000000000000001, for which the function returned 0
instead of data and stats. Without a sample at zero lag it now says so.
---
 src/seismic/monitor/post_corr_process.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index dc8a417..88d8b1e 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -468,9 +468,11 @@ def corr_mat_mirror(data: np.ndarray, stats: CorrStats) -> Tuple[
     if stats['end_lag'] <= 0:
         print('No data present for mirroring: endtime < zerotime.')
         return data, stats
-    if np.fmod(zero_sample, 1) != 0:
-        print('need to shift for mirroring')
-        return 0
+    # start_lag and sampling_rate have a limited floating point precision
+    if np.abs(zero_sample - np.round(zero_sample)) > 1e-3:
+        raise ValueError(
+            'There is no sample at zero lag, need to shift for mirroring.')
+    zero_sample = np.round(zero_sample)
 
     # estimate size of mirrored array
     acausal_samples = int(zero_sample + 1)
-- 
2.43.0


From 292f85dcc54cb17260e2534837e822ac478701ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:50 +0000
Subject: [PATCH 60/80] fix: measuring velocity changes, shifts or coherence
 altered the bulk's stats

corr_mat_stretch and corr_mat_shift trimmed the stats of their caller, so
that start_lag and npts of a CorrBulk with unequal sides no longer described
its data. DV and WFC objects shared their stats with the bulk and changed
with its later processing.
---
 src/seismic/correlate/stream.py          | 2 +-
 src/seismic/monitor/post_corr_process.py | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 7897bdb..d8961ba 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -792,7 +792,7 @@ class CorrBulk(object):
             'freq_min': freq_min,
             'freq_max': freq_max
         }
-        wfc = WFC(wfc_dict, self.stats, wfc_processing)
+        wfc = WFC(wfc_dict, deepcopy(self.stats), wfc_processing)
         return wfc
 
     def _find_slice_index(
diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 88d8b1e..ba3b7c5 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -870,6 +870,8 @@ def corr_mat_stretch(
     """
 
     data = deepcopy(cdata)
+    # trimming alters the stats
+    stats = deepcopy(stats)
 
     dta = -stats['start_lag']
     dte = stats['end_lag']
@@ -972,6 +974,8 @@ def corr_mat_shift(
     """
 
     data = deepcopy(data)
+    # trimming and attaching the reference alter the stats
+    stats = deepcopy(stats)
 
     dta = -stats.start_lag
     dte = stats.end_lag
-- 
2.43.0


From 2688917a87d3e50816ec5d3680f3ead8fbe791ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:10 +0000
Subject: [PATCH 61/80] fix: slicing a CorrBulk with one correlation, or one
 that was processed

With a single correlation the index lost its axis and slicing failed.
Header lists that do not hold one value per correlation were cut, and the
record of the processing was lost.
---
 src/seismic/correlate/stream.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index d8961ba..1f25f2b 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -91,6 +91,7 @@ class CorrBulk(object):
                 stats_out[key] = value[item]
         cb_out = CorrBulk(self.data[item], stats=stats_out)
         cb_out.stats['ntrcs'] = cb_out.data.shape[0]
+        cb_out.stats['processing_bulk'] = list(self.stats['processing_bulk'])
         return cb_out
 
     def plot(self, **kwargs):
@@ -671,16 +672,17 @@ class CorrBulk(object):
         ii = self._find_slice_index(starttime, endtime, include_partial)
         data = self.data[ii, :]
         stats = deepcopy(self.stats)
-        for key, value in stats.items():
-            try:
-                if isinstance(value, list) and key != 'processing_bulk':
-                    stats[key] = [v for jj, v in zip(ii, value) if jj]
-                elif isinstance(value, np.ndarray):
-                    stats[key] = value[ii]
-            except AttributeError:
-                continue
-                # Those will change automatically
-        return CorrBulk(data, stats)
+        # The header fields that hold one value per correlation
+        for key in ('corr_start', 'corr_end', 'location', 'channel'):
+            value = stats[key]
+            if isinstance(value, list):
+                stats[key] = [v for jj, v in zip(ii, value) if jj]
+            elif isinstance(value, np.ndarray):
+                stats[key] = value[ii]
+        processing = list(stats['processing_bulk'])
+        cb = CorrBulk(data, stats)
+        cb.stats['processing_bulk'] = processing
+        return cb
 
     def taper(self, width: float):
         """
@@ -820,7 +822,8 @@ class CorrBulk(object):
             ii = np.logical_and(
                 np.array(self.stats.corr_start) >= starttime,
                 np.array(self.stats.corr_end) <= endtime)
-        ii = np.squeeze(ii)
+        # squeeze, but keep the axis if there is only one correlation
+        ii = np.atleast_1d(np.squeeze(ii))
         if not len(np.nonzero(ii)[0]):
             warnings.warn(
                 'No slices found in the requested time. Returning empty arr.')
-- 
2.43.0


From f7be067ea9f1c6c3d78775067852d859a8c3314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:49 +0000
Subject: [PATCH 62/80] fix: header of a resampled CorrBulk did not describe
 its new rows

Location and channel lists and ntrcs kept the old number of rows, so that
the result could not be converted to a CorrStream. With a single bin, the
end was taken from the last row, which need not be the latest.
---
 src/seismic/monitor/post_corr_process.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index ba3b7c5..aa7364a 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -271,7 +271,7 @@ def corr_mat_resample(
     else:
         if len(start_times) == 1:
             # there is only one start_time given and no end_time => average all
-            etime = np.array([stats['corr_end'][-1].timestamp])
+            etime = np.array([max(stats['corr_end']).timestamp])
         else:
             stime = np.array(stime)  # Cannot be a list for this operation
             etime = stime + (stime[1] - stime[0])
@@ -299,6 +299,17 @@ def corr_mat_resample(
 
     stats['corr_start'] = [UTCDateTime(st) for st in stime]
     stats['corr_end'] = [UTCDateTime(et) for et in etime]
+    # Codes that are given per correlation
+    for key in ('location', 'channel'):
+        codes = stats.get(key)
+        if isinstance(codes, (list, np.ndarray)) and len(codes):
+            # of the first correlation in the bin. Empty bins have none of
+            # their own
+            first = [np.nonzero((otime >= st)*(otime < et))[0][:1]
+                     for st, et in zip(stime, etime)]
+            stats[key] = [codes[ii[0] if len(ii) else 0] for ii in first]
+    if 'ntrcs' in stats:
+        stats['ntrcs'] = data.shape[0]
 
     return data, stats
 
-- 
2.43.0


From 3a7c1bf2f67815a68cf179e826deafc5b56e1c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:49 +0000
Subject: [PATCH 63/80] fix: smoothing and correcting a bulk left it half done
 when they failed

The rows were replaced one by one. A change measured for another number of
rows, a wrong window or a failed allocation left some of them corrected,
and gaps filled with zeros.
---
 src/seismic/monitor/post_corr_process.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index aa7364a..4fe8894 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -144,8 +144,8 @@ def corr_mat_smooth(
     :rtype: :class:`~numpy.ndarray`
     :return: **X**: Filtered matrix
     """
-    # Remove nans
-    np.nan_to_num(data, copy=False)
+    # Remove nans. Works on a copy, the input stays as it is if this fails
+    data = np.nan_to_num(data)
 
     # Degenerated corr_mat: single vector
     try:
@@ -1234,13 +1234,18 @@ def apply_shift(
     :param shifts: shifts in seconds for each trace in 'data'
     """
     times = np.linspace(stats.start_lag, stats.end_lag, stats.npts)
-    # stretch every line
+    if len(shifts) != len(data):
+        raise ValueError('One shift per trace is required, there are '
+                         f'{len(shifts)} for {len(data)} traces.')
+    shifted = np.empty_like(data)
+    # shift every line
     for (ii, line) in enumerate(data):
         # s = UnivariateSpline(times, line, s=0)
         f = interp1d(
             times, line, fill_value='extrapolate')
-        data[ii, :] = f(times+shifts[ii])
-
+        shifted[ii, :] = f(times+shifts[ii])
+    # in-place, but only if everything worked
+    data[:] = shifted
     return data
 
 
@@ -1260,6 +1265,10 @@ def apply_stretch(
     """
     times = np.linspace(stats.start_lag, stats.end_lag, stats.npts)
 
+    if len(stretches) != len(data):
+        raise ValueError('One stretch per trace is required, there are '
+                         f'{len(stretches)} for {len(data)} traces.')
+    stretched = np.empty_like(data)
     # stretch every line
     for (ii, line) in enumerate(data):
         # Extrapolating stretches can lead to weird boundary values
@@ -1268,5 +1277,7 @@ def apply_stretch(
         # dv defined as difference
         # data[ii, :] = s(times * (1 + stretches[ii]))
         # dv defined as logarithmic change
-        data[ii, :] = s(times * np.exp(-stretches[ii]))
+        stretched[ii, :] = s(times * np.exp(-stretches[ii]))
+    # in-place, but only if everything worked
+    data[:] = stretched
     return data, stats
-- 
2.43.0


From cbdef5e3f0c90678f342ea01e8ec9d1f3b623d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:50 +0000
Subject: [PATCH 64/80] fix: correcting the stretch or shift of a single
 correlation

Measurements on one correlation hold a number rather than an array, which
could not be indexed.
---
 src/seismic/correlate/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 1f25f2b..2e50461 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -208,7 +208,7 @@ class CorrBulk(object):
         if dv.value_type != 'stretch':
             raise ValueError('DV object does not hold any stretch values.')
         self.data, self.stats = pcp.apply_stretch(
-            self.data, self.stats, -1.*dv.value)
+            self.data, self.stats, -1.*np.atleast_1d(dv.value))
         self.stats.processing_bulk += ['Applied time stretch']
         return self
 
@@ -225,7 +225,7 @@ class CorrBulk(object):
         """
         self.data = pcp.apply_shift(
             data=self.data, stats=self.stats,
-            shifts=-1.*dt.value)
+            shifts=-1.*np.atleast_1d(dt.value))
         self.stats.processing_bulk += ['Corrected for time shift']
         return self
 
-- 
2.43.0


From e8f7798c468392bb32acb569f0b268622a298036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:44 +0000
Subject: [PATCH 65/80] fix: trimming between two samples shifted the lag axis

start_lag was set to the requested time although the first sample kept is
the closest one, up to half a sample off. Windows for normalising could lose
a sample due to floating point precision.
---
 src/seismic/monitor/post_corr_process.py | 5 +++--
 src/seismic/monitor/trim.py              | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 4fe8894..8bea003 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -421,13 +421,14 @@ def corr_mat_normalize(
     if starttime is not None:
         # first sample
         start = starttime - stats['start_lag']
-        start = int(np.floor(start*stats['sampling_rate']))
+        # (floor, but do not lose a sample due to floating point precision)
+        start = int(np.floor(start*stats['sampling_rate'] + 1e-3))
     else:
         start = None
 
     if endtime is not None:
         end = endtime - stats['start_lag']
-        end = int(np.floor(end*stats['sampling_rate']))
+        end = int(np.floor(end*stats['sampling_rate'] + 1e-3))
     else:
         end = None
 
diff --git a/src/seismic/monitor/trim.py b/src/seismic/monitor/trim.py
index 5c5abf7..95dd779 100644
--- a/src/seismic/monitor/trim.py
+++ b/src/seismic/monitor/trim.py
@@ -65,6 +65,10 @@ def corr_mat_trim(
         stats['npts'] = data.shape[1]
 
     # set starttime, endtime and npts of the new stats
+    # if starttime is between two samples, the first sample is not at starttime
+    offset = start - (starttime-stats['start_lag'])*stats['sampling_rate']
+    if np.abs(offset) > 1e-3:
+        starttime += offset/stats['sampling_rate']
     stats['start_lag'] = starttime
 
     return data, stats
-- 
2.43.0


From 13bb474ad3bcdfba39bcab228cbf98c18ef6faab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:40 +0000
Subject: [PATCH 66/80] fix: codes of reread correlation bulks got lost in
 correlation databases

Strings loaded from npz files are numpy strings, which the database cannot
write to its headers.
---
 src/seismic/utils/miic_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index 8adb479..c9185f8 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -329,6 +329,9 @@ def load_header_from_np_array(array_dict: dict) -> dict:
             if isinstance(d[k], np.ndarray):
                 # was a list when it was saved
                 d[k] = d[k].tolist()
+            elif isinstance(d[k], np.str_):
+                # hdf5 files can only hold python strings
+                d[k] = str(d[k])
     return d
 
 
-- 
2.43.0


From 5525ce8c7cce82af19a87ad61ffb1d7216befa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:37 +0000
Subject: [PATCH 67/80] fix: header of a bulk resampled in time changed in part
 when that failed

---
 src/seismic/monitor/post_corr_process.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 8bea003..ec29155 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -297,8 +297,9 @@ def corr_mat_resample(
     # assign new data
     data = nmat
 
-    stats['corr_start'] = [UTCDateTime(st) for st in stime]
-    stats['corr_end'] = [UTCDateTime(et) for et in etime]
+    new = {
+        'corr_start': [UTCDateTime(st) for st in stime],
+        'corr_end': [UTCDateTime(et) for et in etime]}
     # Codes that are given per correlation
     for key in ('location', 'channel'):
         codes = stats.get(key)
@@ -307,7 +308,10 @@ def corr_mat_resample(
             # their own
             first = [np.nonzero((otime >= st)*(otime < et))[0][:1]
                      for st, et in zip(stime, etime)]
-            stats[key] = [codes[ii[0] if len(ii) else 0] for ii in first]
+            new[key] = [codes[ii[0] if len(ii) else 0] for ii in first]
+    # The header changes as a whole
+    for key, value in new.items():
+        stats[key] = value
     if 'ntrcs' in stats:
         stats['ntrcs'] = data.shape[0]
 
-- 
2.43.0


From 6914d306435ed250a7a571ad5805dffb37590d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:51 +0000
Subject: [PATCH 68/80] fix: preprocess_subdiv discarded all correlation
 windows of up to 80 s

Windows that were preprocessed on their own counted as leftovers between gaps.
Restarts with new stations or times never correlated them.
---
 src/seismic/correlate/correlate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 3df43f0..3bc6363 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -627,9 +627,10 @@ class Correlator(object):
                 # Stream based preprocessing
                 if self.options['preprocess_subdiv']:
                     try:
+                        # Short windows are no leftovers between gaps
                         win = preprocess_stream(
                             win, self.store_client, winstart, winend,
-                            tl, **self.options)
+                            min(tl, (winend-winstart)/20), **self.options)
                     except ValueError as e:
                         if st.count():
                             self.logger.error(
-- 
2.43.0


From 7528fea0a9f1624fd9b55cd43fb1983ddd45a222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 69/80] fix: preprocess_subdiv did not use the same data around
 gaps

Short leftovers between gaps are discarded without preprocess_subdiv. With it
they set the sampling points of the merged trace, so that a restart stored
existing windows a second time, up to half a sample earlier or later.
---
 src/seismic/correlate/correlate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 3bc6363..888c02b 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -562,6 +562,10 @@ class Correlator(object):
                     st = Stream()
 
             else:
+                # The same data (and sampling points) as without
+                # preprocess_subdiv
+                st.merge(method=-1)
+                mu.discard_short_traces(st, tl*4)
                 # All processes have to loop over the same time windows
                 st.merge()
                 for tr in st:
-- 
2.43.0


From 7ab7aa60a38c5e72c8808e13199814c9ac6f3296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:13 +0000
Subject: [PATCH 70/80] fix: existing correlations of requested combinations
 were not found

if the combination was given in other than alphabetical order or with channel
codes. Everything was computed again and preprocess_subdiv switched off.
---
 src/seismic/correlate/correlate.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 888c02b..44b0613 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -1310,11 +1310,13 @@ def compute_network_station_combinations(
                 s2 = statlist[jj]
                 if n != n2 or s != s2:
                     nc, sc, _ = sort_comb_name_alphabetically(n, s, n2, s2)
-                    # Check requested combinations
-                    if (
-                        combis is not None
-                        and f'{nc[0]}-{nc[1]}.{sc[0]}-{sc[1]}' not in combis
-                    ):
+                    # Check requested combinations. They can be given in any
+                    # order and may contain the channels
+                    if combis is not None and not any(
+                        fnmatch.fnmatch(code, '.'.join(c.split('.')[:2]))
+                        for c in combis for code in (
+                            f'{nc[0]}-{nc[1]}.{sc[0]}-{sc[1]}',
+                            f'{nc[1]}-{nc[0]}.{sc[1]}-{sc[0]}')):
                         continue
                     netcombs.append('%s-%s' % (nc[0], nc[1]))
                     statcombs.append('%s-%s' % (sc[0], sc[1]))
-- 
2.43.0


From 2b658fef1256b3c5a653cfaf0e7ba3ac5af0eaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:56 +0000
Subject: [PATCH 71/80] fix: select_time selected correlations that cross
 midnight

e.g., the one from 23 to 0 h for 1 to 5 h, and nothing after midnight for parts
of the day that comprise midnight.
---
 src/seismic/correlate/stream.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 2e50461..2771b09 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -16,7 +16,6 @@ from typing import Iterator, List, Tuple, Optional
 from copy import deepcopy
 import warnings
 from matplotlib import pyplot as plt
-import datetime
 
 
 import numpy as np
@@ -1105,11 +1104,18 @@ class CorrStream(Stream):
         :rtype: CorrStream
         """
         cst_select = CorrStream()
-        start = datetime.time(*start)
-        end = datetime.time(*end)
+
+        def seconds(h, m, s):
+            return h*3600 + m*60 + s
+        start = seconds(*start)
+        # the selected part of the day can comprise midnight
+        length = (seconds(*end) - start) % 86400
         for tr in self:
-            if tr.stats.corr_start.time >= start \
-                    and tr.stats.corr_end.time <= end:
+            t = tr.stats.corr_start
+            t = seconds(t.hour, t.minute, t.second + t.microsecond*1e-6)
+            t = (t - start) % 86400
+            if t + (tr.stats.corr_end - tr.stats.corr_start) \
+                    <= length + 1e-6:
                 if not exclude:
                     cst_select.append(tr)
             else:
-- 
2.43.0


From e72d32b469cf1ea6153b21e29e1e475c4f5ed458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:15 +0000
Subject: [PATCH 72/80] fix: smoothing a dv left stale, invented or half-done
 results

DV.smooth_sim_mat gave windows without data the lowest value of the
second axis instead of nan, did not update which windows are available
(stitching and averaging the smoothed object therefore differed from
doing so after saving and reading it), and left the object with points
excluded but not smoothed if it failed.
---
 src/seismic/monitor/dv.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index e2d1c0a..e64669b 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -209,14 +209,20 @@ class DV(object):
             This action is perfomed in-place and irreversible as the original
             data are not accesible any more.
         """
+        sim_mat = self.sim_mat
         if exclude_corr_below is not None:
-            self.sim_mat[self.sim_mat < exclude_corr_below] = np.nan
-        self.sim_mat = mu.nan_moving_av(self.sim_mat, int(win_len/2), axis=0)
+            sim_mat = np.where(sim_mat < exclude_corr_below, np.nan, sim_mat)
+        sim_mat = mu.nan_moving_av(sim_mat, int(win_len/2), axis=0)
 
         # Compute the dependencies again
-        self.corr = np.nanmax(self.sim_mat, axis=1)
-        self.value = self.second_axis[
-            np.argmax(np.nan_to_num(self.sim_mat), axis=1)]
+        corr = np.nanmax(sim_mat, axis=1)
+        value = self.second_axis[
+            np.argmax(np.nan_to_num(sim_mat), axis=1)]
+        avail = ~np.isnan(corr)
+        # There is no value where there are no data
+        value = np.where(avail, value, np.nan)
+        self.sim_mat, self.corr, self.value, self.avail = \
+            sim_mat, corr, value, avail
         return self
 
 
-- 
2.43.0


From b9efa368a633cff12c4ee5c83d3e8885f0ba27cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:41 +0000
Subject: [PATCH 73/80] fix: the last common window was not used to stitch dvs

correct_dv_shift compared all but the last of the windows in which both
measured. With a single common window nothing was left to compare and
the dvs were not stitched at all.
---
 src/seismic/monitor/monitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 2e93629..22cccef 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -929,8 +929,8 @@ def correct_dv_shift(
             'n_overlap, i.e., '
             f'{n_overlap*(dv0.stats.starttime[1]-dv0.stats.starttime[0])/3600}'
             'hours. The result would not make sense.')
-    if stop >= len(dv0.value):
-        stop = len(dv0.value) - 1
+    # The last point belongs to the points that are compared
+    stop += 1
     if start < 0:
         start = 0
     dv0c = dv0.corr[start:stop]
-- 
2.43.0


From e3b6e08828b6772f281bfc320b6224a2d0178799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:16 +0000
Subject: [PATCH 74/80] fix: stitching dvs invented velocity changes in windows
 without data

correct_dv_shift moved similarities of neighbouring windows into windows
without data and gave those a value. The average of stitched dvs then
comprised them.
---
 src/seismic/monitor/monitor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 22cccef..bdddaad 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -946,9 +946,11 @@ def correct_dv_shift(
     else:
         raise ValueError('Method has to be either mean or median')
     roll = int(round(-shift/(dv0.second_axis[1]-dv0.second_axis[0])))
-    dv0.sim_mat = np.roll(dv0.sim_mat, (roll, 0))
-    dv0.value = dv0.second_axis[
-        np.nanargmax(np.nan_to_num(dv0.sim_mat), axis=1)]
+    sim_mat = np.roll(dv0.sim_mat, (roll, 0))
+    # There still are no data in these windows
+    sim_mat[~dv0.avail] = np.nan
+    value = dv0.second_axis[np.nanargmax(np.nan_to_num(sim_mat), axis=1)]
+    dv0.sim_mat, dv0.value = sim_mat, np.where(dv0.avail, value, np.nan)
     return dv0, dv1
 
 
-- 
2.43.0


From 6628e748dc4e2c442c5b78c7823d297e32d912e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:47 +0000
Subject: [PATCH 75/80] fix: memory saving average of dvs

average_components_mem_save counted undefined similarities as zeros
(e.g., after smoothing with a threshold), and took header and processing
from the first dv even if that was skipped.
---
 src/seismic/monitor/monitor.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index bdddaad..4822158 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -1028,6 +1028,7 @@ def average_components_mem_save(
     for ii, dv in enumerate(dvs):
         if ii == 0:
             sim_mat_sum = np.zeros_like(dv.sim_mat)
+            n_val = np.zeros_like(dv.sim_mat)
             n_stat = np.zeros_like(dv.corr)
 
             stats = deepcopy(dv.stats)
@@ -1049,15 +1050,20 @@ def average_components_mem_save(
                 + 'and stretch steps.\n\nThis dv will be skipped'
             )
             continue
+        if not len(statsl):
+            # The first one might have been skipped
+            stats = deepcopy(dv.stats)
+            value_type = dv.value_type
+            dv_processing = dv.dv_processing
         sim_mat_sum += np.nan_to_num(dv.sim_mat)
-        n_stat[~np.isnan(dv.value)] += 1
+        n_val += ~np.isnan(dv.sim_mat)
+        n_stat[dv.avail] += 1
         if save_scatter:
             corrs.append(dv.corr)
             stretches.append(dv.value)
         statsl.append(dv.stats)
-    # Now inf where it was nan before
-    av_sim_mat = (sim_mat_sum.T/n_stat).T
-    av_sim_mat[np.isinf(av_sim_mat)] = np.nan
+    # Now nan where all were nan before
+    av_sim_mat = sim_mat_sum/n_val
     # Now we would have to recompute the dv value and corr value
     iimax = np.nanargmax(np.nan_to_num(av_sim_mat), axis=1)
     corr = np.nanmax(av_sim_mat, axis=1)
-- 
2.43.0


From bcc5e72c984f3e8898f7e25f6eccfb244a48c3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:19 +0000
Subject: [PATCH 76/80] fix: the Correlator altered the options it was given,
 so that neither Monitor nor another Correlator could be created with them

---
 src/seismic/correlate/correlate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 44b0613..cfd9648 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -119,7 +119,8 @@ class Correlator(object):
                     logdir, 'params%s.txt' % tstr), 'w') as file:
                 file.write(json.dumps(opt_dump, indent=1))
 
-        self.options = options['co']
+        # altered below, but the user might need the dictionary again
+        self.options = deepcopy(options['co'])
 
         # requested combis?
         if 'xcombinations' in self.options:
-- 
2.43.0


From ca775f2ca53ba2fd4bfb61219c508855f31b3736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:09 +0000
Subject: [PATCH 77/80] fix: averages of dvs of which one could not be read for
 the moment were kept for good

---
 src/seismic/monitor/monitor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 4822158..4f7f6d2 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -474,6 +474,12 @@ class Monitor(object):
         for f in files:
             try:
                 dvs.append(read_dv(f))
+            except (OSError, MemoryError):
+                # Might be readable the next time. An average without it would
+                # be kept then.
+                self.logger.exception(
+                    'Could not read %s. The average is not computed.' % f)
+                return
             except Exception:
                 self.logger.exception(
                     'An unexpected error has ocurred '
-- 
2.43.0


From 1a3e2ec6106daa1aae1da366feb1637676f39649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:53 +0000
Subject: [PATCH 78/80] fix: Monitor refused log levels in lower case, which
 Correlator accepts

---
 src/seismic/monitor/monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 4f7f6d2..6b48932 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -75,7 +75,7 @@ class Monitor(object):
             os.makedirs(logdir, exist_ok=True)
 
         # Logging - rank dependent
-        loglvl = log_lvl[self.options['log_level']]
+        loglvl = log_lvl[self.options['log_level'].upper()]
 
         if self.rank == 0:
             tstr = UTCDateTime.now().strftime('%Y-%m-%d-%H:%M')
-- 
2.43.0


From aaf51017b0425bc5b14cb97ec515d9216edc4741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:30 +0000
Subject: [PATCH 79/80] fix: velocity changes and shifts of a single time
 window lost their time axis

---
 src/seismic/monitor/post_corr_process.py |  6 +++---
 src/seismic/monitor/stretch_mod.py       | 24 +++++++++++++-----------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index ec29155..e601eb9 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -1213,13 +1213,13 @@ def measure_shift(
     # assemble results
     dt = {
         'stats': stats,
-        'corr': np.squeeze(corr),
-        'value': np.squeeze(value),
+        'corr': corr,
+        'value': value,
         'second_axis': shifts,
         'value_type': np.array(['shift']),
         'method': np.array(['absolute_shift'])}
     if return_sim_mat:
-        dt.update({'sim_mat': np.squeeze(sim_mat)})
+        dt.update({'sim_mat': sim_mat})
     else:
         dt.update({'sim_mat': None})
     return DV(**dt)
diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index f9e91a5..d6e8ef1 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -329,14 +329,18 @@ def velocity_change_estimate(
         # to one of the two stretch_range limits
         dt[ii, np.isnan(tmp_corr_vect)] = np.nan
 
-    dv = {'corr': np.squeeze(corr),
-          'value': np.squeeze(dt),
+    if len(tw) == 1:
+        # Not more, a single trace still has a time axis
+        corr, dt, sim_mat = corr[0], dt[0], sim_mat[:, :, 0]
+
+    dv = {'corr': corr,
+          'value': dt,
           'second_axis': strvec,
           'value_type': 'stretch',
           'method': 'single_ref'}
 
     if return_sim_mat:
-        dv.update({'sim_mat': np.squeeze(sim_mat)})
+        dv.update({'sim_mat': sim_mat})
 
     return dv
 
@@ -761,10 +765,10 @@ def estimate_reftr_shifts_from_dt_corr(
                        if reftr != reftr1]
             for reftr2 in ref_idx:
                 ccorr, sshift = est_shift_from_dt_corr(
-                    np.squeeze(multi_ref_panel[reftr1]['value']),
-                    np.squeeze(multi_ref_panel[reftr2]['value']),
-                    np.squeeze(multi_ref_panel[reftr1]['corr']),
-                    np.squeeze(multi_ref_panel[reftr2]['corr']))
+                    multi_ref_panel[reftr1]['value'],
+                    multi_ref_panel[reftr2]['value'],
+                    multi_ref_panel[reftr1]['corr'],
+                    multi_ref_panel[reftr2]['corr'])
                 corr.append(ccorr)
                 shift.append(sshift)
 
@@ -799,7 +803,7 @@ def estimate_reftr_shifts_from_dt_corr(
         m = np.around(m / delta)  # , out=np.zeros_like(m, dtype='int32'))
         m = np.require(m, dtype='int32')
 
-        row, col = np.squeeze(multi_ref_panel['reftr_0']['sim_mat']).shape
+        row, col = multi_ref_panel['reftr_0']['sim_mat'].shape
 
         stmp = np.zeros((row, col, n_ref))
 
@@ -807,9 +811,7 @@ def estimate_reftr_shifts_from_dt_corr(
         for (i, reftr) in enumerate(np.sort(list(multi_ref_panel.keys()))):
 
             stmp[:, :, i] = \
-                np.roll(np.squeeze(multi_ref_panel[reftr]['sim_mat']),
-                        m[i],
-                        axis=1)
+                np.roll(multi_ref_panel[reftr]['sim_mat'], m[i], axis=1)
 
         # Create a msked array to evaluate the mean
         stmp_masked = np.ma.masked_array(
-- 
2.43.0


From fd8afcfa86b3902964454738d23c429acdd66c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:30 +0000
Subject: [PATCH 80/80] fix: with several references, time windows without data
 were given the lowest velocity change

---
 src/seismic/monitor/stretch_mod.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index d6e8ef1..b204ede 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -837,10 +837,8 @@ def estimate_reftr_shifts_from_dt_corr(
         except Exception:
             pass
 
-        try:
-            dt = dt.filled(np.nan).astype('int')
-        except Exception:
-            pass
+        # As for a single reference, there is no value without correlation
+        dt[np.isnan(corr)] = np.nan
 
         ret_dict = {'corr': corr,
                     'value': dt,
-- 
2.43.0

