From 8c949d8cae3ede7eb82da64476b246e082b58247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 01/70] fix: sidx reference_ID is the ID of the segment's track

---
 dashlivesim/dashlib/mediasegmentfilter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index cb13265..aef66d2 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -61,6 +61,7 @@ class MediaSegmentFilter(MP4Filter):
         self.offset = offset
         self.track_timescale = track_timescale
         self.rel_path = rel_path
+        self.track_id = None
         self.lmsg = lmsg
         self.size_change = 0
         self.new_saio_value = None
@@ -130,6 +131,7 @@ class MediaSegmentFilter(MP4Filter):
     def process_tfhd(self, data):
         "Process tfhd (assuming that we know the ttml size size)."
         tf_flags = str_to_uint32(data[8:12]) & 0xffffff
+        self.track_id = str_to_uint32(data[12:16])
         pos = 16
         if tf_flags & 0x01:
             raise MediaSegmentFilterError("base-data-offset-present not supported in ttml segments")
@@ -267,7 +269,7 @@ class MediaSegmentFilter(MP4Filter):
         This is optional, but some clients require it to present."""
         output = uint32_to_str(52)  # Size of box
         output += b'sidx\x01\x00\x00\x00'  # type, version and flags
-        output += b'\x00\x00\x00\x01'  # refID
+        output += uint32_to_str(self.track_id)  # refID
         output += uint32_to_str(self.track_timescale)
         output += uint64_to_str(self.tfdt_value)  # decode_time for now
         output += uint64_to_str(0)  # first_offset = 0
-- 
2.43.0


From 2b8707d7e170ccf2b68c1c3e8d37aee32fdff519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 02/70] fix: sidx duration when sample durations come from the
 trex defaults

---
 dashlivesim/dashlib/dash_proxy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 4b354a0..bee6a20 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -62,7 +62,7 @@ For infinite content, the default is startNumber = 0, availabilityStartTime = 19
 #  ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 #  POSSIBILITY OF SUCH DAMAGE.
 
-from os.path import splitext, join
+from os.path import splitext, join, isfile
 from math import ceil
 from collections import namedtuple
 
@@ -311,6 +311,9 @@ def filter_media_segment(dashProv, rep, rel_path, vod_nr, seg_nr, seg_ext, offse
     timescale = rep['timescale']
     scte35_per_minute = (rep['content_type'] == 'video') and cfg.scte35_per_minute or 0
     is_ttml = rep['content_type'] == 'subtitles'
+    if trex_data is None and cfg.insert_sidx:  # The sidx duration may depend on the trex defaults
+        if isfile(join(dashProv.content_dir, cfg.content_name, rel_path, "init.mp4")):
+            trex_data = get_trex_data(dashProv, rel_path)
     default_sample_duration = trex_data.default_sample_duration if trex_data is not None else None
     seg_filter = MediaSegmentFilter(media_seg_file, seg_nr, cfg.seg_duration, offset_at_loop_start, lmsg, timescale,
                                     scte35_per_minute, rel_path,
-- 
2.43.0


From 0e58a6798beb079af5575fbafecc4be0ec5381ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 03/70] fix: last segment of a time-limited session respects
 the start number

---
 dashlivesim/dashlib/configprocessor.py | 2 +-
 dashlivesim/dashlib/dash_proxy.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 10353bc..228c952 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -73,7 +73,7 @@ class Config(object):
         self.minimum_update_period_in_s = None
         self.chunk_duration_in_s = None
         self.modulo_period = None
-        self.last_segment_numbers = []  # The last segment number in every period.
+        self.last_segment_numbers = []  # The last segment number in every period (relative to the first segment).
         self.init_seg_avail_offset = 0  # The number of secs before AST that one can fetch the init segments
         self.tfdt32_flag = False  # Restart every 3 hours make tfdt fit into 32 bits.
         self.cont = False  # Continuous update of MPD AST and seg_nr.
diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index bee6a20..4d8f560 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -240,10 +240,10 @@ def process_media_segment(dashProv, now_float, chunk):
     if stop_number and seg_nr >= stop_number:
         return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
-        very_last_segment = cfg.last_segment_numbers[-1]
+        very_last_segment = cfg.last_segment_numbers[-1] + seg_start_nr
         if seg_nr > very_last_segment:
             return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
-    lmsg = seg_nr in cfg.last_segment_numbers
+    lmsg = (seg_nr - seg_start_nr) in cfg.last_segment_numbers
     # print cfg.last_segment_numbers
     timescale = 1
     media_time_at_ast = cfg.adjusted_pto(0, timescale)
-- 
2.43.0


From 06d291bded2168a238c3f482c9449c6fe5c01ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 04/70] fix: modulo sessions end at their last segment, counted
 from availabilityStartTime

---
 dashlivesim/dashlib/configprocessor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 228c952..d98c832 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -170,7 +170,8 @@ class Config(object):
         self.availability_start_time_in_s = modulo_period.availability_start_time
         self.media_presentation_duration = modulo_period.media_presentation_duration
         self.availability_end_time = modulo_period.availability_end_time
-        self.last_segment_numbers.append(modulo_period.calc_last_segment_number(seg_dur))
+        # Segments are numbered from availabilityStartTime, not from the epoch
+        self.last_segment_numbers.append(int(modulo_period.media_presentation_duration // seg_dur) - 1)
 
     def update_with_aet(self, now_int, availability_end_times, media_presentation_durations):
         "Find the proper availabilityEndTime and mediaPresentation duration for now and set in cfg."
-- 
2.43.0


From dca6a140a31c6ffaa0571a7cd4199f5a9e0c1b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:06 +0000
Subject: [PATCH 05/70] fix: availabilityTimeOffset and multiple BaseURLs also
 when the VoD MPD has a BaseURL

---
 dashlivesim/dashlib/mpdprocessor.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index a6bfa36..8e79859 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -150,17 +150,12 @@ class MpdProcessor(object):
             if child.tag != add_ns('ProgramInformation'):
                 break
             pos += 1
-        next_child = list(mpd)[pos]
         set_baseurl = SET_BASEURL
         if self.cfg and self.cfg.add_location:
             set_baseurl = False  # Cannot have both BASEURL and Location
-        if next_child.tag == add_ns('BaseURL'):
-            if 'BaseURL' not in data or not set_baseurl:
-                self.root.remove(next_child)
-            else:
-                self.modify_baseurl(next_child, data['BaseURL'])
-                pos += 1
-        elif ('BaseURL' in data) and set_baseurl:
+        for old_baseurl in mpd.findall(add_ns('BaseURL')):  # Replaced by the ones for the live service
+            mpd.remove(old_baseurl)
+        if ('BaseURL' in data) and set_baseurl:
             if 'urls' in data and data['urls']:  # check if we have to set multiple URLs
                 url_header, url_body = data['BaseURL'].split('//')
                 url_parts = url_body.split('/')
@@ -221,10 +216,6 @@ class MpdProcessor(object):
             baseurl_elem.set('availabilityTimeComplete', new_atc)
         mpd.insert(pos, baseurl_elem)
 
-    def modify_baseurl(self, baseurl_elem, new_baseurl):
-        "Modify the text of an existing BaseURL"
-        baseurl_elem.text = new_baseurl
-
     def insert_ato(self, baseurl_elem, new_ato):
         "Add availabilityTimeOffset to BaseURL element"
         baseurl_elem.set('availabilityTimeOffset', new_ato)
-- 
2.43.0


From cc716388ce65e5b673fd42a5837d05f7999b3652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 06/70] fix: default startNumber (snr_-1) together with
 timeoffset

---
 dashlivesim/dashlib/configprocessor.py | 2 ++
 dashlivesim/dashlib/dash_proxy.py      | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index d98c832..9850099 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -232,6 +232,8 @@ class Config(object):
     def adjusted_start_number(self):
         start_nr = self.start_nr
         if self.timeoffset is not None:
+            if start_nr == -1:  # Default value, which is 1
+                start_nr = 1
             start_nr += ((self.availability_start_time_in_s - self.timeoffset)
                          // self.seg_duration)
         return start_nr
diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 4d8f560..0f7c8fa 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -233,7 +233,7 @@ def process_media_segment(dashProv, now_float, chunk):
         seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
     else:
         seg_nr = int(seg_base)
-    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.adjusted_start_number
+    seg_start_nr = cfg.adjusted_start_number == -1 and 1 or cfg.adjusted_start_number
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     stop_number = cfg.stop_number
-- 
2.43.0


From 8dd8e110e53c849b9728ba363299076c39cb26e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 07/70] fix: multiple or offset periods follow
 availabilityStartTime, startNumber and timeoffset

---
 dashlivesim/dashlib/mpd_proxy.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 4d9c43e..2ae5cf5 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -207,6 +207,9 @@ def generate_period_data(mpd_data, now, cfg):
         raise Exception("Bad nr of periods per hour %d" % nr_periods_per_hour)
 
     seg_dur = mpd_data['segDuration']
+    # Number and media time of the segment presented at availabilityStartTime (a start number -1 means default, i.e. 1)
+    ast_number = 1 if mpd_data['startNumber'] == -1 else mpd_data['startNumber']
+    ast_pto = mpd_data['presentationTimeOffset']
     period_data = []
     ad_frequency = -1
     if mpd_data['insertAd'] > 0:
@@ -221,8 +224,8 @@ def generate_period_data(mpd_data, now, cfg):
         period_data.append(data)
     elif nr_periods_per_hour == 0:  # nrPeriodsPerHour == 0, make one old period but starting 1000h after AST
         start = 3600 * 1000
-        data = {'id': "p0", 'start': 'PT%dS' % start, 'startNumber': "%d" % (start // seg_dur),
-                'duration': seg_dur, 'presentationTimeOffset': "%d" % start, 'start_s': start}
+        data = {'id': "p0", 'start': 'PT%dS' % start, 'startNumber': "%d" % (ast_number + start // seg_dur),
+                'duration': seg_dur, 'presentationTimeOffset': "%d" % (ast_pto + start), 'start_s': start}
         period_data.append(data)
     else:  # nr_periods_per_hour > 0
         period_duration = 3600 // nr_periods_per_hour
@@ -233,15 +236,16 @@ def generate_period_data(mpd_data, now, cfg):
         minimum_update_period = "PT%dS" % minimum_update_period_s
         mpd_data['minimumUpdatePeriod'] = minimum_update_period
         # this_period_nr = now // period_duration
-        last_period_nr = (now + half_period_duration) // period_duration
+        time_since_ast = now - mpd_data['availability_start_time_in_s']
+        last_period_nr = max((time_since_ast + half_period_duration) // period_duration, 0)
         # this_period_start = this_period_nr * period_duration
-        first_period_nr = (now - mpd_data['timeShiftBufferDepthInS'] - seg_dur) // period_duration
+        first_period_nr = max((time_since_ast - mpd_data['timeShiftBufferDepthInS'] - seg_dur) // period_duration, 0)
         counter = 0
         for period_nr in range(first_period_nr, last_period_nr+1):
             start_time = period_nr * period_duration
             data = {'id': "p%d" % period_nr, 'start': 'PT%dS' % start_time,
-                    'startNumber': "%d" % (start_time//seg_dur), 'duration': seg_dur,
-                    'presentationTimeOffset': period_nr*period_duration,
+                    'startNumber': "%d" % (ast_number + start_time//seg_dur), 'duration': seg_dur,
+                    'presentationTimeOffset': ast_pto + start_time,
                     'start_s': start_time}
             if mpd_data['etpPeriodsPerHour'] > 0:
                 # Check whether the early terminated feature is enabled or not.
-- 
2.43.0


From 077769cdea09e1036c7a7a37939ccb294bf16af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 08/70] fix: keep timeShiftBufferDepth in the MPD of
 time-limited sessions with a sliding window

---
 dashlivesim/dashlib/mpdprocessor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 8e79859..cc9e734 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -119,7 +119,8 @@ class MpdProcessor(object):
                     'mediaPresentationDuration', 'suggestedPresentationDelay']
         if mpd_data.get('type', 'dynamic') == 'static':
             key_list.remove('minimumUpdatePeriod')
-        if (mpd_data.get('type', 'dynamic') == 'static' or mpd_data.get('mediaPresentationDuration')):
+        # With a stop time, all segments stay available. Other time-limited sessions still have a sliding window.
+        if mpd_data.get('type', 'dynamic') == 'static' or (self.cfg is not None and self.cfg.stop_time is not None):
             key_list.remove('timeShiftBufferDepth')
         set_values_from_dict(mpd, key_list, mpd_data)
         if 'mediaPresentationDuration' in mpd.attrib and 'mediaPresentationDuration' not in mpd_data:
-- 
2.43.0


From 9e115517ba91bd34dbe35205114f0e2e1e952272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 09/70] fix: SegmentTimeline run lengths over loop wraps, and
 start of the listed window

---
 dashlivesim/dashlib/segtimeline.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index cf7640b..801e517 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -115,30 +115,21 @@ class SegmentTimeLineGenerator(object):
         # print("start time %d %d %d" % (start_tics, start, start - start_tics))
         repeat_index = end_index
         nr_wraps = end_wraps
+        last_repeat = end_repeats  # The last repeat to include in the entry
         # Create the S elements in backwards order
         while repeat_index != start_index or nr_wraps != start_wraps:
             seg_data = self.segtimedata[repeat_index]
-            # print(repeat_index, start_index, nr_wraps, start_wraps)
-            if repeat_index == end_index:
-                s_elem = self.generate_s_elem(None, seg_data.duration, end_repeats)
-            else:
-                s_elem = self.generate_s_elem(None, seg_data.duration, seg_data.repeats)
+            s_elem = self.generate_s_elem(None, seg_data.duration, last_repeat)
             seg_timeline.insert(0, s_elem)
             repeat_index -= 1
             if repeat_index < 0:
                 nr_wraps -= 1
                 repeat_index = len(self.segtimedata) - 1
+            last_repeat = self.segtimedata[repeat_index].repeats
         # Now at first entry corresponding to start_index and start_wraps
         seg_data = self.segtimedata[start_index]
         seg_start_time = self.get_seg_starttime(nr_wraps, start_index, start_repeats)
-        if start_index != end_index:
-            nr_repeats = seg_data.repeats - start_repeats
-        elif len(self.segtimedata) == 1 and end_repeats < start_repeats:
-            nr_repeats = (self.segtimedata[0].repeats + end_repeats -
-                          start_repeats)
-        else:  # There was only one entry which was repeated
-            nr_repeats = end_repeats - start_repeats
-        s_elem = self.generate_s_elem(seg_start_time, seg_data.duration, nr_repeats)
+        s_elem = self.generate_s_elem(seg_start_time, seg_data.duration, last_repeat - start_repeats)
         seg_timeline.insert(0, s_elem)
         self.start_number = self.get_seg_number(nr_wraps, start_index,
                                                 start_repeats)
@@ -169,7 +160,7 @@ class SegmentTimeLineGenerator(object):
         seg_data = self.segtimedata[index]
         repeats = 0
         accumulated_end_time = seg_data.start_time + seg_data.duration
-        while accumulated_end_time < rel_time:
+        while accumulated_end_time <= rel_time and repeats < seg_data.repeats:
             accumulated_end_time += seg_data.duration
             repeats += 1
         return index, repeats, nr_wraps
@@ -196,7 +187,7 @@ class SegmentTimeLineGenerator(object):
         if index >= len(self.interval_starts):
             index = 0
             nr_wraps += 1
-        return index, self.segtimedata[index].repeats, nr_wraps
+        return index, 0, nr_wraps
 
     def find_closest_end(self, act_time):
         "Find "
-- 
2.43.0


From 5b101ae35bfd603c3e4c6fd1528608c17a884c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 10/70] fix: empty SegmentTimeline before the first segment is
 complete

---
 dashlivesim/dashlib/mpdprocessor.py | 2 +-
 dashlivesim/dashlib/segtimeline.py  | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index cc9e734..0cf3992 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -388,7 +388,7 @@ class MpdProcessor(object):
                         if self.segtimeline:
                             media_template = media_template.replace('$Number$', 't$Time$')
                             remove_attribs(seg_template, ['startNumber'])
-                        elif self.segtimeline_nr:
+                        elif self.segtimeline_nr and segtime_gen.start_number is not None:
                             # Set number to the first number listed
                             set_attribs(seg_template,
                                         ('startNumber',),
diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 801e517..e65a963 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -75,6 +75,9 @@ class SegmentTimeLineGenerator(object):
 
         start = start_time * self.timescale
         end = end_time * self.timescale
+        self.start_number = None
+        if end < max(start, 0):
+            return seg_timeline  # Nothing available yet
 
         # The start segment is the latest one that starts before or at start
         # The end segment is the latest one that ends before or at end.
@@ -96,7 +99,7 @@ class SegmentTimeLineGenerator(object):
                 end_index = len(self.segtimedata) - 1
                 end_repeats = self.segtimedata[end_index].repeats
                 if (end_wraps < 0):
-                    return (None, None, None)
+                    return seg_timeline  # No segment is complete yet
             end_tics = self.get_seg_endtime(end_wraps, end_index, end_repeats)
 
         # print "end_time2 %d %d %d" % (end, end_tics, (end-end_tics)/(self.timescale*1.0))
-- 
2.43.0


From a504a841f6a0fd684e2c0a7847aa7b2fb4aa82d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 11/70] fix: SegmentTimeline numbers and time addresses with a
 start number

---
 dashlivesim/dashlib/configprocessor.py | 5 +++++
 dashlivesim/dashlib/dash_proxy.py      | 4 ++--
 dashlivesim/dashlib/mpdprocessor.py    | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 9850099..9d8be97 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -228,6 +228,11 @@ class Config(object):
     def set_timeoffset(self, new_offset):
         self.timeoffset = new_offset
 
+    @property
+    def first_number(self):
+        "Number of the segment with media time 0. The start number -1 signals the default value, which is 1."
+        return 1 if self.start_nr == -1 else self.start_nr
+
     @property
     def adjusted_start_number(self):
         start_nr = self.start_nr
diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 0f7c8fa..b0e4c6d 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -230,7 +230,7 @@ def process_media_segment(dashProv, now_float, chunk):
     timescale = get_timescale(cfg)
     if seg_base[0] == 't':
         # TODO. Make a more accurate test here that the timestamp is a correct one
-        seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
+        seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale)) + cfg.first_number
     else:
         seg_nr = int(seg_base)
     seg_start_nr = cfg.adjusted_start_number == -1 and 1 or cfg.adjusted_start_number
@@ -350,7 +350,7 @@ def process_thumbnail(dashProv, now_float):
     timescale = get_timescale(cfg)
     if seg_base[0] == 't':
         # TODO. Make a more accurate test here that the timestamp is a correct one
-        seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
+        seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale)) + cfg.first_number
     else:
         seg_nr = int(seg_base)
     seg_start_nr = cfg.start_nr == -1 and 1 or cfg.start_nr
diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 0cf3992..38d549f 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -392,7 +392,7 @@ class MpdProcessor(object):
                             # Set number to the first number listed
                             set_attribs(seg_template,
                                         ('startNumber',),
-                                        {'startNumber': segtime_gen.start_number})
+                                        {'startNumber': segtime_gen.start_number + self.cfg.first_number})
                         seg_template.set('media', media_template)
                         seg_template.text = "\n"
                         seg_template.insert(0, seg_timeline)
-- 
2.43.0


From 45837ecd55283772137ca040fabeea32c5464da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 12/70] fix: SegmentTimeline window with timeoffset, stop time
 and session durations

---
 dashlivesim/dashlib/configprocessor.py | 11 ++++++++++
 dashlivesim/dashlib/mpdprocessor.py    | 28 ++++++++++++++++----------
 dashlivesim/dashlib/segtimeline.py     |  9 ++++++---
 3 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 9d8be97..911f50a 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -250,6 +250,17 @@ class Config(object):
         else:
             return pto
 
+    @property
+    def last_number(self):
+        "Number of the last segment of a time-limited session, counted from the first segment. None if unlimited."
+        last_number = None
+        if len(self.last_segment_numbers) > 0:
+            last_number = self.last_segment_numbers[-1]
+        if self.stop_time is not None:
+            stop_last = self.stop_time // self.seg_duration - self.start_time // self.seg_duration - 1
+            last_number = stop_last if last_number is None else min(last_number, stop_last)
+        return last_number
+
     @property
     def stop_number(self):
         if self.stop_time is None:
diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 38d549f..b9c1fea 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -364,20 +364,26 @@ class MpdProcessor(object):
                         now = self.mpd_proc_cfg['now']
                         tsbd = self.cfg.timeshift_buffer_depth_in_s
                         ast = self.cfg.availability_start_time_in_s
-                        start_time = max(ast + pdata['start_s'], now - tsbd)
+                        period_start = ast + pdata['start_s']
+                        end_time = now
                         if 'period_duration_s' in pdata:
-                            end_time = min(ast + pdata['start_s'] + pdata['period_duration_s'], now)
+                            end_time = min(period_start + pdata['period_duration_s'], end_time)
+                        if self.cfg.stop_time is not None:  # All segments of the programme stay available
+                            start_time = period_start
                         else:
-                            end_time = now
-                        start_time -= self.cfg.availability_start_time_in_s
-                        end_time -= self.cfg.availability_start_time_in_s
-                        use_closest = False
-                        if self.cfg.stop_time and self.cfg.timeoffset == 0:
-                            start_time = self.cfg.start_time
-                            end_time = min(now, self.cfg.stop_time)
-                            use_closest = True
+                            start_time = max(period_start, now - tsbd)
+                        last_number = self.cfg.last_number
+                        if last_number is not None:  # Some margin since segments may be longer than the nominal duration
+                            session_end = ast + (last_number + 1) * self.cfg.seg_duration
+                            end_time = min(session_end + self.cfg.seg_duration, end_time)
+                        use_closest = (start_time == ast)
+                        media_time_at_ast = self.cfg.adjusted_pto(0, 1)
+                        start_time += media_time_at_ast - ast
+                        end_time += media_time_at_ast - ast
+                        if last_number is not None:
+                            last_number += media_time_at_ast // self.cfg.seg_duration
                         seg_timeline = segtime_gen.create_segtimeline(
-                            start_time, end_time, use_closest)
+                            start_time, end_time, use_closest, last_number)
                         remove_attribs(seg_template, ['duration'])
                         seg_template.set('timescale', str(self.cfg.media_data[content_type]['timescale']))
                         if pto != "0" and not offset_at_period_level:
diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index e65a963..08c3332 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -67,8 +67,10 @@ class SegmentTimeLineGenerator(object):
         self.first_segment_number = cfg.vod_first_segment_in_loop
         self.start_number = None
 
-    def create_segtimeline(self, start_time, end_time, use_closest=False):
-        "Create and insert a new <SegmentTimeline> element and S entries."
+    def create_segtimeline(self, start_time, end_time, use_closest=False, last_number=None):
+        """Create and insert a new <SegmentTimeline> element and S entries.
+
+        No segment after last_number (counted from media time 0) is included."""
         seg_timeline = ElementTree.Element(add_ns('SegmentTimeline'))
         seg_timeline.text = "\n"
         seg_timeline.tail = "\n"
@@ -88,7 +90,8 @@ class SegmentTimeLineGenerator(object):
         end_tics = self.get_seg_endtime(end_wraps, end_index, end_repeats)
         # print("end_time %d %d" % (end, end_tics))
 
-        while end_tics > end:
+        while (end_tics > end or
+               (last_number is not None and self.get_seg_number(end_wraps, end_index, end_repeats) > last_number)):
             if end_repeats > 0:
                 end_repeats -= 1  # Just move one segment back in the repeat
             elif end_index > 0:
-- 
2.43.0


From 00d44f091c82726638cdf01b621946d29dfd74d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 13/70] fix: SegmentTimeline MPD for content with
 AdaptationSets lacking timing data

---
 dashlivesim/dashlib/mpdprocessor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index b9c1fea..803aa70 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -303,8 +303,9 @@ class MpdProcessor(object):
         if self.segtimeline or self.segtimeline_nr:
             segtimeline_generators = {}
             for content_type in ('video', 'audio'):
-                segtimeline_generators[content_type] = SegmentTimeLineGenerator(self.cfg.media_data[content_type],
-                                                                                self.cfg)
+                if 'dat_file' in self.cfg.media_data.get(content_type, {}):  # There is timing data
+                    segtimeline_generators[content_type] = SegmentTimeLineGenerator(self.cfg.media_data[content_type],
+                                                                                    self.cfg)
         periods = mpd.findall(add_ns('Period'))
         BaseURL = mpd.findall(add_ns('BaseURL'))
         if len(BaseURL) > 0:
@@ -358,7 +359,8 @@ class MpdProcessor(object):
                     if pdata.get('startNumber') == '-1':  # Default to 1
                         remove_attribs(seg_template, ['startNumber'])
 
-                    if self.segtimeline or self.segtimeline_nr:
+                    # AdaptationSets without timing data, e.g. subtitles, are still described by number and duration.
+                    if (self.segtimeline or self.segtimeline_nr) and content_type in segtimeline_generators:
                         # add SegmentTimeline block in SegmentTemplate with timescale and window.
                         segtime_gen = segtimeline_generators[content_type]
                         now = self.mpd_proc_cfg['now']
-- 
2.43.0


From ea25454eb69577e509ebdf8b04342b36c87e7f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 14/70] fix: SegmentTimeline segments at Period boundaries
 belong to the closest Period

---
 dashlivesim/dashlib/mpdprocessor.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 803aa70..2bfde0f 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -366,24 +366,26 @@ class MpdProcessor(object):
                         now = self.mpd_proc_cfg['now']
                         tsbd = self.cfg.timeshift_buffer_depth_in_s
                         ast = self.cfg.availability_start_time_in_s
+                        seg_duration = self.cfg.seg_duration
                         period_start = ast + pdata['start_s']
-                        end_time = now
-                        if 'period_duration_s' in pdata:
-                            end_time = min(period_start + pdata['period_duration_s'], end_time)
                         if self.cfg.stop_time is not None:  # All segments of the programme stay available
                             start_time = period_start
                         else:
                             start_time = max(period_start, now - tsbd)
+                        end_time = now
                         last_number = self.cfg.last_number
+                        if 'period_duration_s' in pdata:  # The next period starts with the segment closest to its start
+                            period_end = pdata['start_s'] + pdata['period_duration_s']
+                            last_in_period = -((seg_duration - 2 * period_end) // (2 * seg_duration)) - 1
+                            last_number = last_in_period if last_number is None else min(last_number, last_in_period)
                         if last_number is not None:  # Some margin since segments may be longer than the nominal duration
-                            session_end = ast + (last_number + 1) * self.cfg.seg_duration
-                            end_time = min(session_end + self.cfg.seg_duration, end_time)
-                        use_closest = (start_time == ast)
+                            end_time = min(ast + (last_number + 2) * seg_duration, end_time)
+                        use_closest = (start_time == period_start)
                         media_time_at_ast = self.cfg.adjusted_pto(0, 1)
                         start_time += media_time_at_ast - ast
                         end_time += media_time_at_ast - ast
                         if last_number is not None:
-                            last_number += media_time_at_ast // self.cfg.seg_duration
+                            last_number += media_time_at_ast // seg_duration
                         seg_timeline = segtime_gen.create_segtimeline(
                             start_time, end_time, use_closest, last_number)
                         remove_attribs(seg_template, ['duration'])
-- 
2.43.0


From 5a8cd0e94c0f439fe101087af348d785dfc25e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 15/70] fix: the Period duration of the VoD MPD does not limit
 the live Period

---
 dashlivesim/dashlib/mpdprocessor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 2bfde0f..280103a 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -316,6 +316,7 @@ class MpdProcessor(object):
         last_period_id = '-1'
         for (period, pdata) in zip(periods, period_data):
             set_attribs(period, ('id', 'start'), pdata)
+            remove_attribs(period, ['duration'])  # The VoD duration does not apply to the live period
             if 'etpDuration' in pdata:
                 period.set('duration', "PT%dS" % pdata['etpDuration'])
             if 'periodDuration' in pdata:
-- 
2.43.0


From 7a16433b619a9a9701586b3fc861fda6a5c8c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 16/70] fix: xlink Periods are found by their id attribute,
 also with attributes on BaseURL

---
 dashlivesim/dashlib/mpd_proxy.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 2ae5cf5..a621287 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -1,4 +1,4 @@
-from re import findall
+from re import escape, findall, search
 from math import ceil
 from xml.etree import ElementTree as ET
 
@@ -123,6 +123,11 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
     # 2. When the xlink period is accessed, it extracts the corresponding period from .mpd file this function generates,
     # adds some information and returns the appropriate .xml document to the java client.
     # pylint: disable=too-many-locals, too-many-statements
+    def find_period(text, period_id):
+        "Find start of period with specific id. Returns -1 if not present."
+        match = search('<Period [^>]*id="%s"' % escape(period_id), text)
+        return match.start() if match else -1
+
     if cfg == ".mpd":
         root = ET.fromstring(response)
         period_id_all = []
@@ -133,11 +138,11 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         one_xlinks_for_how_many_periods = nr_periods_per_hour // nr_xlink_periods_per_hour
         period_id_xlinks = [x for x in period_id_all if int(x[1:]) % one_xlinks_for_how_many_periods == 0]
         # Periods that will be replaced with links.
-        base_url = findall('<BaseURL>([^"]*)</BaseURL>', response)
+        base_url = findall('<BaseURL[^>]*>([^<]*)</BaseURL>', response)
         counter = 0
         for period_id in period_id_all:
             # Start replacing only if this condition is met.
-            start_pos_period = response.find(period_id) - 12
+            start_pos_period = find_period(response, period_id)
             # Find the position in the string file of the period that has be replaced
             end_pos_period = response.find("</Period>", start_pos_period) + 9
             # End position of the corresponding period.
@@ -163,7 +168,7 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
                 else:
                     xlink_period = '<Period xlink:href="%s%s+%s.period" xlink:actuate="onLoad" ' \
                                    'xmlns:xlink="http://www.w3.org/1999/xlink"></Period>' % (
-                                       base_url[0], filename, period_id)
+                                       base_url[0] if base_url else "", filename, period_id)
                 if insert_ad > 0 and counter == 1:  # This condition ensures that the first period in the mpd is not
                     # replaced when the ads are enabled.
                     response = insert_asset_identifier(response, start_pos_period)
@@ -184,8 +189,10 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         # Second part of string has the period id.
         start_pos_xmlns = response.find("xmlns=")
         end_pos_xmlns = response.find('"', start_pos_xmlns + 7) + 1
-        start_pos_period = response.find(filename[:-7]) - 12
+        start_pos_period = find_period(response, filename[:-7])
         # Find the position in the string file of the period that has be replaced.
+        if start_pos_period < 0:
+            raise ValueError("There is no period %s" % filename[:-7])
         end_pos_period = response.find("</Period>", start_pos_period) + 9
         # End position of the corresponding period.
         original_period = response[start_pos_period:end_pos_period]
-- 
2.43.0


From c076c13aba70598969a4135642d2f3ca856ddfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 17/70] fix: keep mediaPresentationDuration in the MPD at the
 end of a time-limited session

---
 dashlivesim/dashlib/configprocessor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 911f50a..73bca25 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -179,6 +179,7 @@ class Config(object):
         media_presentation_duration = None
         if len(availability_end_times) > 0:
             end_time = availability_end_times[-1]
+            media_presentation_duration = media_presentation_durations[-1]
             for aet, media_pre_dur in zip(availability_end_times[::-1], media_presentation_durations[::-1]):
                 if now_int > aet - 2*self.minimum_update_period_in_s:
                     break
-- 
2.43.0


From cd35aa8dfaa7c5654058d4389765f37d071fb508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:47 +0000
Subject: [PATCH 18/70] fix: last segment of a start-over session with the
 default start number (snr_-1)

---
 dashlivesim/dashlib/configprocessor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 73bca25..1c5812d 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -267,6 +267,8 @@ class Config(object):
         if self.stop_time is None:
             return None
         start = self.adjusted_start_number
+        if start == -1:  # Default value, which is 1
+            start = 1
         return start + self.media_presentation_duration // self.seg_duration
 
 
-- 
2.43.0


From bb5c72d203fe81224b62e4e1c1e56528ff4c2e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 19/70] fix: MPD with a relative start time but no stop time

---
 dashlivesim/dashlib/mpdprocessor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 280103a..c0bd03a 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -181,8 +181,9 @@ class MpdProcessor(object):
         if self.cfg and self.cfg.add_location and self.full_url is not None:
             loc_url = re.sub(r"/startrel_[-\d]+", "/start_%d" %
                              self.cfg.start_time, self.full_url)
-            loc_url = re.sub(r"/stoprel_[-\d]+", "/stop_%d" %
-                             self.cfg.stop_time, loc_url)
+            if self.cfg.stop_time is not None:
+                loc_url = re.sub(r"/stoprel_[-\d]+", "/stop_%d" %
+                                 self.cfg.stop_time, loc_url)
             self.insert_location(mpd, pos, loc_url)
             pos += 1
 
-- 
2.43.0


From 4b59d622c9d429d20397ba9253af7e69b1697aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 20/70] fix: set the movie fragment duration (mehd) to 0 in
 live init segments

---
 dashlivesim/dashlib/initsegmentfilter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dashlivesim/dashlib/initsegmentfilter.py b/dashlivesim/dashlib/initsegmentfilter.py
index cad01e3..570ea3d 100644
--- a/dashlivesim/dashlib/initsegmentfilter.py
+++ b/dashlivesim/dashlib/initsegmentfilter.py
@@ -142,3 +142,12 @@ class InitLiveFilter(MP4Filter):
             output += b'\x00' * 4  # duration
             output += data[28:]
         return output
+
+    def process_mehd(self, data):
+        "Set fragment duration."
+        version = data[8]
+        if version == 1:
+            output = data[:12] + b'\x00' * 8 + data[20:]
+        else:  # version = 0
+            output = data[:12] + b'\x00' * 4 + data[16:]
+        return output
-- 
2.43.0


From 6fc956857b727201dd931fab0f38fff66d0eaaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 21/70] fix: track timescale of init segments with a 64-bit
 media header

---
 dashlivesim/dashlib/initsegmentfilter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/initsegmentfilter.py b/dashlivesim/dashlib/initsegmentfilter.py
index 570ea3d..f4c5827 100644
--- a/dashlivesim/dashlib/initsegmentfilter.py
+++ b/dashlivesim/dashlib/initsegmentfilter.py
@@ -61,7 +61,11 @@ class InitFilter(MP4Filter):
 
     def process_mdhd(self, data):
         "Process mdhd to get track_timscale."
-        self._track_timescale = str_to_uint32(data[20:24])
+        version = data[8]
+        if version == 1:
+            self._track_timescale = str_to_uint32(data[28:32])
+        else:  # version = 0
+            self._track_timescale = str_to_uint32(data[20:24])
         return data
 
     def process_trex(self, data):
-- 
2.43.0


From 70e1029294020022fecf10e7e847b33e933b0dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 22/70] fix: multiplex media segments without a segment type
 box

---
 dashlivesim/dashlib/segmentmuxer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index c4bca6d..ae9cef0 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -218,7 +218,8 @@ class MultiplexMediaSegments(object):
         mdat_size = len(self.mstruct1.mdat) + len(self.mstruct2.mdat) - 8
 
         data = []
-        data.append(self.mstruct1.styp)
+        if self.mstruct1.styp is not None:
+            data.append(self.mstruct1.styp)
         data.append(uint32_to_str(moof_size))
         data.append(b'moof')
         data.append(self.mstruct1.mfhd)
-- 
2.43.0


From fa43ace0851f26d9462b5a6918f7037f5778bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 23/70] fix: set the durations to 0 also in multiplexed live
 init segments

---
 dashlivesim/dashlib/dash_proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index b0e4c6d..137ddbe 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -201,7 +201,7 @@ def process_init_segment(dashProv):
         init1 = "%s/%s/%s/%s/%s" % (dashProv.content_dir, cfg.content_name, com_path, cfg.reps[0]['id'], cfg.filename)
         init2 = "%s/%s/%s/%s/%s" % (dashProv.content_dir, cfg.content_name, com_path, cfg.reps[1]['id'], cfg.filename)
         muxed_inits = segmentmuxer.MultiplexInits(init1, init2)
-        data = muxed_inits.construct_muxed()
+        data = InitLiveFilter(data=muxed_inits.construct_muxed()).filter()
     else:
         data = error_response(dashProv, "Bad nr of representations: %d" % nr_reps)
     return data
-- 
2.43.0


From 7d7139c33ae1530ec02c6dfd008364223279c3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 24/70] fix: keep the sample flags in low-latency chunks

---
 dashlivesim/dashlib/boxes.py   | 18 +++++++++++-------
 dashlivesim/dashlib/chunker.py | 12 +++++++++---
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/dashlivesim/dashlib/boxes.py b/dashlivesim/dashlib/boxes.py
index 9b30936..9f67b2a 100644
--- a/dashlivesim/dashlib/boxes.py
+++ b/dashlivesim/dashlib/boxes.py
@@ -61,7 +61,7 @@ def serialize_bytes(x, n):
     return serialize_u8(x) * n
 
 
-TRUNSample = namedtuple('TRUNSample', 'duration size sync offset')
+TRUNSample = namedtuple('TRUNSample', 'duration size sync offset flags')
 
 
 SAIZSample = namedtuple('SAIZSample', 'sample_info_size')
@@ -88,12 +88,13 @@ SIDXReference = namedtuple('SIDXReference', 'reference_type '
 
 class Sample:
 
-    def __init__(self, data, time=0, duration=0, sync=True, time_offset=0):
+    def __init__(self, data, time=0, duration=0, sync=True, time_offset=0, flags=None):
         self.data = data
         self.time = time
         self.duration = duration
         self.sync = sync
         self.time_offset = time_offset
+        self.flags = flags  # Sample flags. If None, they are derived from sync
 
     @property
     def size(self):
@@ -949,8 +950,8 @@ class TRUNBox(Box):
         self.data_offset = data_offset
         self.use_comp_off = False  # Needs to be true for dash.js
 
-    def add_sample(self, duration, size, sync, offset):
-        self.samples.append(TRUNSample(duration, size, sync, offset))
+    def add_sample(self, duration, size, sync, offset, flags=None):
+        self.samples.append(TRUNSample(duration, size, sync, offset, flags))
         if offset != 0:
             self.use_comp_off = True
 
@@ -988,8 +989,10 @@ class TRUNBox(Box):
             # 3bits sample_padding_value
             # 1bit sample_is_non_sync_sample (0 or 1, match sync samples)
             # 16bits sample_degradation_priority (0)
-            sync_flag = 0x02000000 if sample.sync else 0x01010000
-            yield serialize_u32(sync_flag)
+            sample_flags = sample.flags
+            if sample_flags is None:
+                sample_flags = 0x02000000 if sample.sync else 0x01010000
+            yield serialize_u32(sample_flags)
 
             if self.use_comp_off:
                 yield serialize_u32(sample.offset)
@@ -1795,7 +1798,8 @@ def create_moof(segment_no, track_id, samples, encryptor=None):
         trun.add_sample(sample.duration,
                         sample.size,
                         sample.sync,
-                        sample.time_offset)
+                        sample.time_offset,
+                        sample.flags)
     traf.add_box(trun)
 
     # set data_offset in trun
diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index 3aa6293..2e3124f 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -55,15 +55,21 @@ def decode_fragment(data, trex):
                            trex.default_sample_size)
     default_sample_flags = (tfhd.default_sample_flags if tfhd.has_default_sample_flags else
                             trex.default_sample_flags)
-    for entry in map(trun.sample_entry, range(trun.sample_count)):
+    for i, entry in enumerate(map(trun.sample_entry, range(trun.sample_count))):
         duration = entry['duration'] if trun.has_sample_duration else default_sample_duration
         size = entry['size'] if trun.has_sample_size else default_sample_size
-        flags = entry['flags'] if trun.has_sample_flags else default_sample_flags
+        if trun.has_sample_flags:
+            flags = int(entry['flags'], 16)
+        elif i == 0 and trun.has_first_sample_flags:
+            flags = trun.first_sample_flags
+        else:
+            flags = default_sample_flags
         time_offset = entry['time_offset'] if trun.has_sample_composition_time_offset else 0
         begin, end = end, end + size
         data = root.fmap[base_data_offset+data_offset:][begin:end]
         t0, t1 = t1, t1 + duration
-        yield Sample(data, t0, duration, flags, time_offset)
+        sync = not flags & 0x00010000
+        yield Sample(data, t0, duration, sync, time_offset, flags)
 
 
 def partition(samples, duration):
-- 
2.43.0


From 68e2a49091da32ffbce3cd312eeaf3a9a3f67740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 25/70] fix: negative composition offsets in low-latency chunks

---
 dashlivesim/dashlib/boxes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/boxes.py b/dashlivesim/dashlib/boxes.py
index 9f67b2a..d076002 100644
--- a/dashlivesim/dashlib/boxes.py
+++ b/dashlivesim/dashlib/boxes.py
@@ -972,7 +972,8 @@ class TRUNBox(Box):
 
         yield serialize_u32(self.size())
         yield serialize_name(b'trun')
-        yield serialize_u32(flags)  # version and flags
+        version = 1 if any(sample.offset < 0 for sample in self.samples) else 0  # Signed offsets need version 1
+        yield serialize_u32((version << 24) | flags)  # version and flags
         yield serialize_u32(len(self.samples))  # sample_count
         yield serialize_u32(self.data_offset)  # data_offset
 
-- 
2.43.0


From dd1115f10c696fc8393fc337741dc2c2a8168648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 26/70] fix: low-latency chunks are paced relative to
 availabilityStartTime and start number

---
 dashlivesim/dashlib/dash_proxy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 137ddbe..28dcba5 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -272,11 +272,11 @@ def process_media_segment(dashProv, now_float, chunk):
             trex_data = get_trex_data(dashProv, rel_path)
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
                                                offset_at_loop_start, lmsg, trex_data)
-            # Here we shall return seg_time (when the segment start to be produced)
-            # and then each chunk should be delivered at seg_time + (i+1) * chunk_dur
+            # Here we shall return the wall-clock time at which the segment starts to be produced
+            # and then each chunk should be delivered at that time + (i+1) * chunk_dur
             dur = int(cfg.chunk_duration_in_s * cfg.reps[0]['timescale'])
             chunks = [chk for chk in chunker.chunk(seg_content, dur, trex_data)]
-            return ChunkedSegment(seg_time, chunks)
+            return ChunkedSegment(seg_ast - seg_dur, chunks)
         else:
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
                                                offset_at_loop_start, lmsg)
-- 
2.43.0


From a0e0eb0f72c4cf9846ddee5048fe6356fc604f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 27/70] fix: the last low-latency chunk is not delayed beyond
 the end of its segment

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index de91a39..c2780aa 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -218,7 +218,8 @@ def application(environment, start_response):
             margin = 0.1  # Make available 100ms before the formal time
             for i, chunk in enumerate(payload_out.chunks, start=1):
                 now_float = time()  # Update time
-                chunk_availability_time = seg_start + i * chunk_dur - margin
+                # The last chunk is complete at the end of the segment
+                chunk_availability_time = seg_start + min(i * chunk_dur, cfg.seg_duration) - margin
                 time_until_available = chunk_availability_time - now_float
                 # print("%d time_until_available %.3f" % (i, time_until_available))
                 if time_until_available > 0:
-- 
2.43.0


From a2ed92b9aa7d084297f647035422acd6c872e275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 28/70] fix: an infinite availabilityTimeOffset in low-latency
 MPDs is INF

---
 dashlivesim/dashlib/mpd_proxy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index a621287..e2a2b9e 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -100,7 +100,8 @@ def generate_dynamic_mpd(dashProv, mpd_filename, in_data, now):
         if not cfg.availability_time_complete:
             mpd_data['availabilityTimeComplete'] = 'false'
     else:  # Set these values in the ll_data
-        ll_data['availabilityTimeOffset'] = '%f' % in_data['availability_time_offset_in_s']
+        ato = in_data['availability_time_offset_in_s']
+        ll_data['availabilityTimeOffset'] = 'INF' if ato == -1 else '%f' % ato  # -1 is infinity
         ll_data['availabilityTimeComplete'] = 'false'
 
     if cfg.chunk_duration_in_s is not None and cfg.chunk_duration_in_s > 0:
-- 
2.43.0


From 21ecee29de9d8515ce6f8e46d8cc3c4da8e03c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 29/70] fix: answer malformed, multiple and overlong byte
 ranges correctly

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index c2780aa..817e1b1 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -32,6 +32,7 @@
 # Note that VOD_CONF_DIR and CONTENT_ROOT directories must be set in environment
 # For Apache mod_wsgi, this is done using setEnv
 
+import re
 import traceback
 from os.path import splitext
 from urllib.parse import urlparse, parse_qs
@@ -243,17 +244,15 @@ def get_mime_type(ext):
 def handle_byte_range(payload, range_line):
     """Handle byte range and return data and range-header value.
     If range is strange, return empty string."""
-    range_parts = range_line.split("=")[-1]
-    ranges = range_parts.split(",")
-    if len(ranges) > 1:
-        return (payload, None)
+    match = re.match(r"^bytes=(\d{0,999})-(\d{0,999})$", range_line.strip(), re.ASCII | re.IGNORECASE)
+    if match is None:  # Malformed, or several ranges
+        return (payload, "")
     length = len(payload)
-    range_interval = ranges[0]
-    range_start, range_end = range_interval.split("-")
+    range_start, range_end = match.groups()
     bad_range = False
     if range_start == "" and range_end != "":
         # This is the rangeStart lasts bytes
-        range_start = length - int(range_end)
+        range_start = max(length - int(range_end), 0)
         range_end = length - 1
     elif range_start != "":
         range_start = int(range_start)
@@ -262,7 +261,7 @@ def handle_byte_range(payload, range_line):
         else:
             range_end = length-1
     else:
-        bad_range = True
+        return (payload, "")
     if range_end < range_start:
         bad_range = True
     if bad_range:
-- 
2.43.0


From 9bac83f233dd30e42d0aa15f66d524f9f716cbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 30/70] fix: thumbnails follow the same timeline, limits and
 refusals as media segments

---
 dashlivesim/dashlib/dash_proxy.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 28dcba5..b33b546 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -353,28 +353,31 @@ def process_thumbnail(dashProv, now_float):
         seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale)) + cfg.first_number
     else:
         seg_nr = int(seg_base)
-    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.start_nr
+    seg_start_nr = cfg.adjusted_start_number == -1 and 1 or cfg.adjusted_start_number
     if seg_nr < seg_start_nr:
-        return error_response("Request for segment %d before first %d" % (seg_nr, seg_start_nr))
+        return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
+    stop_number = cfg.stop_number
+    if stop_number and seg_nr >= stop_number:
+        return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
-        very_last_segment = cfg.last_segment_numbers[-1]
+        very_last_segment = cfg.last_segment_numbers[-1] + seg_start_nr
         if seg_nr > very_last_segment:
-            return error_response("Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
+            return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
     # lmsg = seg_nr in cfg.last_segment_numbers
     # print cfg.last_segment_numbers
-    seg_time = (seg_nr - seg_start_nr) * seg_dur + cfg.availability_start_time_in_s
-    seg_ast = seg_time + seg_dur
+    media_time_at_ast = cfg.adjusted_pto(0, 1)
+    seg_time = (seg_nr - seg_start_nr) * seg_dur + media_time_at_ast
+    seg_ast = (seg_time + seg_dur - media_time_at_ast) + cfg.availability_start_time_in_s
 
     if cfg.availability_time_offset_in_s != -1:  # -1 is infinity
         if now_float < seg_ast - cfg.availability_time_offset_in_s:
-            return error_response("Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
-        if (now_float > seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s):
+            return error_response(dashProv, "Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
+        if ((now_float > seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s) and not stop_number):
             diff = now_float - (seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s)
-            return error_response("Request for %s was %.1fs too late" % (seg_name, diff))
+            return error_response(dashProv, "Request for %s was %.1fs too late" % (seg_name, diff))
 
-    time_since_ast = seg_time - cfg.availability_start_time_in_s
     loop_duration = cfg.seg_duration * cfg.vod_nr_segments_in_loop
-    nr_loops_done, time_in_loop = divmod(time_since_ast, loop_duration)
+    nr_loops_done, time_in_loop = divmod(seg_time, loop_duration)
     seg_nr_in_loop = time_in_loop // seg_dur
     vod_nr = seg_nr_in_loop + cfg.vod_first_segment_in_loop
     assert 0 <= vod_nr - cfg.vod_first_segment_in_loop < cfg.vod_nr_segments_in_loop
-- 
2.43.0


From 78032a884c6a28f5982ed4333d2af6364bb1911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 31/70] fix: content type of thumbnails

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index 817e1b1..9f06142 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -237,6 +237,8 @@ def get_mime_type(ext):
         return "video/iso.segment"
     elif ext == ".mp4":
         return "video/mp4"
+    elif ext == ".jpg":
+        return "image/jpeg"
 
     return "text/plain"
 
-- 
2.43.0


From 3b749bf43476a6432adfff2076129bc6990e250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 32/70] fix: SCTE-35 announces all splices, on the media
 timeline, also in segments without styp

---
 dashlivesim/dashlib/dash_proxy.py         |  4 +-
 dashlivesim/dashlib/mediasegmentfilter.py | 55 ++++++++++++-----------
 2 files changed, 31 insertions(+), 28 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index b33b546..33f923a 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -315,12 +315,14 @@ def filter_media_segment(dashProv, rep, rel_path, vod_nr, seg_nr, seg_ext, offse
         if isfile(join(dashProv.content_dir, cfg.content_name, rel_path, "init.mp4")):
             trex_data = get_trex_data(dashProv, rel_path)
     default_sample_duration = trex_data.default_sample_duration if trex_data is not None else None
+    seg_start_time = offset_at_loop_start + (vod_nr - cfg.vod_first_segment_in_loop) * cfg.seg_duration
     seg_filter = MediaSegmentFilter(media_seg_file, seg_nr, cfg.seg_duration, offset_at_loop_start, lmsg, timescale,
                                     scte35_per_minute, rel_path,
                                     is_ttml,
                                     default_sample_duration,
                                     insert_sidx=cfg.insert_sidx, emsg_last_seg=cfg.emsg_last_seg,
-                                    now=dashProv.now)
+                                    now=dashProv.now,
+                                    seg_start_time=seg_start_time)
     seg_content = seg_filter.filter()
     dashProv.new_tfdt_value = seg_filter.get_tfdt_value()  # Why set this in dashProv?? TODO
     return seg_content
diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index aef66d2..f2e54f2 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -52,12 +52,14 @@ class MediaSegmentFilter(MP4Filter):
     # pylint: disable=too-many-instance-attributes, too-many-arguments
     def __init__(self, file_name, seg_nr=None, seg_duration=1, offset=0, lmsg=False, track_timescale=None,
                  scte35_per_minute=0, rel_path=None, is_ttml=False,
-                 default_sample_duration=None, insert_sidx=False, emsg_last_seg=False, now=False):
+                 default_sample_duration=None, insert_sidx=False, emsg_last_seg=False, now=False,
+                 seg_start_time=None):
         MP4Filter.__init__(self, file_name)
         self.top_level_boxes_to_parse = [b'styp', b'sidx', b'moof', b'mdat']
         self.composite_boxes_to_parse = [b'moof', b'traf']
         self.seg_nr = seg_nr
         self.seg_duration = seg_duration
+        self.seg_start_time = seg_start_time  # Start on the media timeline in seconds
         self.offset = offset
         self.track_timescale = track_timescale
         self.rel_path = rel_path
@@ -102,6 +104,8 @@ class MediaSegmentFilter(MP4Filter):
             emsg_box = self.create_emsg()
             self.output = (self.output[:moof_start] + emsg_box +
                            self.output[moof_start:])
+        if b'styp' not in [box for _, box in self.output_top_level_boxes]:  # Otherwise inserted after styp
+            self.output = self.create_scte35box() + self.output
 
     # pylint: disable=no-self-use
 
@@ -353,37 +357,34 @@ class MediaSegmentFilter(MP4Filter):
         ad_duration = 10
         if self.scte35_per_minute < 1 or self.scte35_per_minute > 8:
             return b""
-        seg_starttime = self.seg_nr*self.seg_duration  # StartTime in seconds
-        sec_modulo_minute = seg_starttime % 60
-        minute_start = seg_starttime - sec_modulo_minute
-        splice_insert_times = [minute_start + 10]
+        seg_starttime = self.seg_start_time  # StartTime in seconds
+        if seg_starttime is None:
+            seg_starttime = self.seg_nr*self.seg_duration
+        splice_offsets = [10]
         if self.scte35_per_minute == 2:
-            splice_insert_times.append(minute_start+40)
+            splice_offsets.append(40)
         elif self.scte35_per_minute == 3:
-            splice_insert_times.append(minute_start+36)
-            splice_insert_times.append(minute_start+46)
+            splice_offsets.append(36)
+            splice_offsets.append(46)
         elif self.scte35_per_minute == 8:
-            splice_insert_times.append(minute_start+30)
+            splice_offsets.append(30)
             ad_duration = 20
-        found_splice_time = -1
-        splice_time = None
-        seg_endtime = seg_starttime + self.seg_duration
-        for splice_time in splice_insert_times:
-            # Assume that there are events 8s and 6s before the actual splice
-            for pre_warning_time in (splice_time - 6, splice_time-8):
-                if seg_starttime <= pre_warning_time <= seg_endtime:
-                    found_splice_time = splice_time
-                    break
-            if found_splice_time >= 0:
-                break
-        if found_splice_time < 0:
-            return b""  # Nothing for this segment
         timescale = 90000  # Timescale
-        emsg_id = splice_id = splice_time//10
-        emsg = scte35.create_scte35_emsg(timescale, seg_starttime*timescale, found_splice_time*timescale,
-                                         ad_duration*timescale, emsg_id, splice_id)
-        # print "Made scte35 emsg %d" % len(emsg)
-        return emsg
+        boxes = b""
+        seg_endtime = seg_starttime + self.seg_duration
+        # The segment may also announce the splices of the following minutes
+        for minute_start in range(seg_starttime - seg_starttime % 60, seg_endtime + 60, 60):
+            for splice_offset in splice_offsets:
+                splice_time = minute_start + splice_offset
+                # Assume that there are events 8s and 6s before the actual splice
+                if not any(seg_starttime <= splice_time - pre_warning_time <= seg_endtime
+                           for pre_warning_time in (6, 8)):
+                    continue
+                emsg_id = splice_id = splice_time//10
+                boxes += scte35.create_scte35_emsg(timescale, seg_starttime*timescale, splice_time*timescale,
+                                                   ad_duration*timescale, emsg_id, splice_id)
+        # print "Made scte35 emsg %d" % len(boxes)
+        return boxes
 
     def find_and_process_mdat(self, data):
         "Change the ttml part of mdat and update mdat size. Return full new data."
-- 
2.43.0


From b37df15c3cb21fd7bc6d2d2c6dc5d621891aca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 33/70] fix: BaseURLs with loss patterns put the option before
 the content

---
 dashlivesim/dashlib/mpdprocessor.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index c0bd03a..87a0b06 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -160,20 +160,11 @@ class MpdProcessor(object):
             if 'urls' in data and data['urls']:  # check if we have to set multiple URLs
                 url_header, url_body = data['BaseURL'].split('//')
                 url_parts = url_body.split('/')
-                i = -1
-                for part in url_parts:
-                    i += 1
-                    if part.find("_") < 0:  # Not a configuration
-                        continue
-                    cfg_parts = part.split("_", 1)
-                    key, _ = cfg_parts
-                    if key == "baseurl":
-                        url_parts[i] = ""  # Remove all the baseurl elements
-                url_parts = [p for p in url_parts if p is not None]
+                url_parts = [p for p in url_parts if p.split("_", 1)[0] != "baseurl"]  # Remove all the baseurl elements
                 for url in data['urls']:
-                    url_parts.insert(-1, "baseurl_" + url)
-                    self.insert_baseurl(mpd, pos, url_header + "//" + "/".join(url_parts) + "/", ato, atc)
-                    del url_parts[-2]
+                    url_parts.insert(-2, "baseurl_" + url)  # Options come before the content
+                    self.insert_baseurl(mpd, pos, url_header + "//" + "/".join(url_parts), ato, atc)
+                    del url_parts[-3]
                     pos += 1
             else:
                 self.insert_baseurl(mpd, pos, data['BaseURL'], ato, atc)
-- 
2.43.0


From 4922bb5e19b8a769dce1a82d4cabe8255336ed90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:47 +0000
Subject: [PATCH 34/70] fix: do not share response headers between requests

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index 9f06142..12fb9a3 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -45,8 +45,6 @@ from dashlivesim import SERVER_AGENT
 MAX_SESSION_LENGTH = 0  # If non-zero,  limit sessions via redirect
 
 # Helper for HTTP responses
-# pylint: disable=dangerous-default-value
-
 status_string = {
     200: 'OK',
     206: 'Partial Content',
@@ -56,8 +54,9 @@ status_string = {
     }
 
 
-def start_reply(status_code, response, length=-1, headers={}):
+def start_reply(status_code, response, length=-1, headers=None):
     "Start reply by writing headers reply."
+    headers = {} if headers is None else headers  # Never share headers between requests
     status = "%d %s" % (status_code, status_string[status_code])
 
     # Add default headers to all requests
@@ -80,7 +79,7 @@ def start_reply(status_code, response, length=-1, headers={}):
     response(status, list(headers.items()))
 
 
-def full_reply(status_code, response, body=b"", headers={}):
+def full_reply(status_code, response, body=b"", headers=None):
     "A full reply including body and content-length."
     start_reply(status_code, response, len(body), headers)
     return [body]
-- 
2.43.0


From a785dd703cc9c2d875727c4bcca90a11f4977cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:51 +0000
Subject: [PATCH 35/70] fix: answer requests without a Host header or with an
 unparsable URL

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index 12fb9a3..e6674ab 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -89,8 +89,15 @@ def full_reply(status_code, response, body=b"", headers=None):
 def application(environment, start_response):
     "WSGI Entrypoint"
 
-    hostname = environment['HTTP_HOST']
-    url = urlparse(environment['REQUEST_URI'])
+    # The Host header is optional in HTTP/1.0
+    hostname = environment.get('HTTP_HOST') or environment.get('SERVER_NAME', '')
+    try:
+        url = urlparse(environment['REQUEST_URI'])
+    except ValueError as exc:
+        body = "Bad URL: {0}".format(exc).encode('utf-8')
+        start_reply(404, start_response, len(body))
+        yield body
+        return
     vod_conf_dir = environment['VOD_CONF_DIR']
     content_root = environment['CONTENT_ROOT']
     is_https = environment.get('wsgi.url_scheme', False) and environment['wsgi.url_scheme'] == 'https'
-- 
2.43.0


From fa3b89decbe80e216dce78131ba2893db193c113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:52 +0000
Subject: [PATCH 36/70] fix: refuse paths that leave the content root

---
 dashlivesim/dashlib/configprocessor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 1c5812d..ce6d769 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -123,7 +123,7 @@ class Config(object):
         "Find the content_name, file_name, and representations (if muxed as signalled by MUX_DIVIDER)."
         self.content_name = url_parts[url_pos]
         self.base_url += "/".join(url_parts[:url_pos+1]) + "/"
-        rel_path_parts = url_parts[url_pos+1:-1]
+        rel_path_parts = [part for part in url_parts[url_pos+1:-1] if part]  # Never make the path absolute
         self.rel_path = "/".join(rel_path_parts)
         self.filename = url_parts[-1]
         self.ext = splitext(self.filename)[1]
@@ -415,6 +415,9 @@ class ConfigProcessor(object):
         cfg = self.cfg
         add_location = False
 
+        if any(part.split("+")[0] == ".." for part in url_parts):  # The MPD of a period is named before +
+            raise ConfigProcessorError("Path components '..' are not allowed")
+
         url_pos = 0
         for part in url_parts:  # Should be listed in self.configParts to make sure it works.
             cfg_parts = part.split("_", 1)
-- 
2.43.0


From 1a571db9153e2ca8cd87d3c89ad58fa11d325a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 37/70] fix: ISO durations of whole days, and parsing of days
 and fractional seconds

---
 dashlivesim/dashlib/timeformatconversions.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dashlivesim/dashlib/timeformatconversions.py b/dashlivesim/dashlib/timeformatconversions.py
index e63815c..814e8c2 100644
--- a/dashlivesim/dashlib/timeformatconversions.py
+++ b/dashlivesim/dashlib/timeformatconversions.py
@@ -32,7 +32,7 @@
 import time
 import re
 
-RE_DURATION = re.compile(r"PT((?P<hours>\d+)H)?((?P<minutes>\d+)M)?((?P<seconds>\d+)S)?")
+RE_DURATION = re.compile(r"P(?=.)((?P<days>\d+)D)?(T(?=.)((?P<hours>\d+)H)?((?P<minutes>\d+)M)?((?P<seconds>\d+)(\.\d+)?S)?)?$")
 
 
 class TimeFormatConversionError(Exception):
@@ -45,6 +45,8 @@ def iso_duration_to_seconds(duration):
     if not match_obj:
         raise TimeFormatConversionError("%s does not match a duration" % duration)
     secs = 0
+    if match_obj.group("days"):
+        secs += int(match_obj.group("days"))*3600*24
     if match_obj.group("hours"):
         secs += int(match_obj.group("hours"))*3600
     if match_obj.group("minutes"):
@@ -62,13 +64,15 @@ def seconds_to_iso_duration(nr_secs):
     period = "P"
     if days > 0:
         period += "%dD" % days
-    period += "T"
+    time_part = ""
     if hours > 0:
-        period += "%dH" % hours
+        time_part += "%dH" % hours
     if minutes > 0:
-        period += "%dM" % minutes
-    if seconds > 0 or period == "PT":
-        period += "%dS" % seconds
+        time_part += "%dM" % minutes
+    if seconds > 0 or (period == "P" and not time_part):
+        time_part += "%dS" % seconds
+    if time_part:  # There must be no T without a time part
+        period += "T" + time_part
     return period
 
 
-- 
2.43.0


From 93835845be87d6623504df8b956f3bc6519733d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:42 +0000
Subject: [PATCH 38/70] fix: mup_0 together with a start time

---
 dashlivesim/dashlib/configprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index ce6d769..dc2b048 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -220,7 +220,7 @@ class Config(object):
     def update_publish_time(self, now_int):
         """The publishTime to be written in the MPD. Changed according to the rules:
             if availabilityStartTimeInS == DEFAULT_AVAILABILITY_STARTTIME_IN_S."""
-        if self.availability_start_time_in_s != DEFAULT_AVAILABILITY_STARTTIME_IN_S:
+        if self.availability_start_time_in_s != DEFAULT_AVAILABILITY_STARTTIME_IN_S and self.minimum_update_period_in_s > 0:
             publish_time = quantize(now_int, self.minimum_update_period_in_s)
         else:
             publish_time = DEFAULT_AVAILABILITY_STARTTIME_IN_S
-- 
2.43.0


From 4741a33007a0f99048800fdcd892c54558470377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:42 +0000
Subject: [PATCH 39/70] fix: multiple periods when other elements precede
 Period in the VoD MPD

---
 dashlivesim/dashlib/mpdprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 87a0b06..f4e3ef9 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -185,7 +185,7 @@ class MpdProcessor(object):
         children = list(mpd)
         for ch_nr in range(pos, len(children)):
             if children[ch_nr].tag == add_ns("Period"):
-                period = list(mpd)[pos]
+                period = children[ch_nr]
                 pos = ch_nr
                 break
         else:
-- 
2.43.0


From 6f1b491bac54c2c08bdc5bf8eb9aac412bbd6c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:42 +0000
Subject: [PATCH 40/70] fix: presentationTimeOffset in the timescale of the
 SegmentTemplate

---
 dashlivesim/dashlib/mpdprocessor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index f4e3ef9..672f0cf 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -345,6 +345,9 @@ class MpdProcessor(object):
                 seg_templates = ad_set.findall(add_ns('SegmentTemplate'))
                 for seg_template in seg_templates:
                     set_attribs(seg_template, segmenttemplate_attribs, pdata)
+                    if 'presentationTimeOffset' in segmenttemplate_attribs and int(pto) != 0:
+                        # The value in pdata is in seconds
+                        seg_template.set('presentationTimeOffset', str(int(pto) * int(seg_template.get('timescale', 1))))
                     if ll_data:
                         set_attribs(seg_template,
                                     ('availabilityTimeOffset', 'availabilityTimeComplete'),
-- 
2.43.0


From 2ca3875e7d76fa713c94738aaa6128acca7cacc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 41/70] fix: let the VoD analyzer describe only the segments
 all representations have

The loop length was the smallest number of segments, but the timing table
and total duration of a type with more segments covered all of them, and a
shorter second representation was not considered at all.
---
 dashlivesim/vodanalyzer/dashanalyzer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/vodanalyzer/dashanalyzer.py b/dashlivesim/vodanalyzer/dashanalyzer.py
index 299821b..a4744da 100644
--- a/dashlivesim/vodanalyzer/dashanalyzer.py
+++ b/dashlivesim/vodanalyzer/dashanalyzer.py
@@ -148,6 +148,8 @@ class DashAnalyzer(object):
     def checkAndUpdateMediaData(self):
         """Check all segments for good values and return startTimes and total duration."""
         lastGoodSegments = []
+        # Only segment numbers available for all representations can be part of the loop
+        lastCommonNr = min(rep_data['lastNumber'] for as_data in self.as_data.values() for rep_data in as_data['reps'])
 
         print("Checking all the media segment durations for deviations.")
 
@@ -191,7 +193,7 @@ class DashAnalyzer(object):
                     lastDuration = 0
                     while (True):
                         segmentPath = rep_data['absMediaPath'] % segNr
-                        if not os.path.exists(segmentPath):
+                        if segNr > lastCommonNr or not os.path.exists(segmentPath):
                             if self.verbose:
                                 print("\nLast good %s segment is %d, endTime=%.3fs, totalTime=%.3fs" % (
                                       rep_id, rep_data['endNr'], rep_data['endTime'],
-- 
2.43.0


From 2509815bbbc864adf3de1ed8b70c55336a1393a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:02 +0000
Subject: [PATCH 42/70] fix: subtitle segment generator works on bytes and is
 importable with Python 3

---
 dashlivesim/dashlib/stpp_generator/make_stpp_segments.py | 2 +-
 dashlivesim/dashlib/stpp_generator/stpp_creator.py       | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
index 1a148b8..f1c9120 100644
--- a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
+++ b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
@@ -33,7 +33,7 @@ import os
 from argparse import ArgumentParser
 from jinja2 import Template
 
-from stpp_creator import StppInitFilter, create_media_segment, TTML_TEMPLATE
+from dashlivesim.dashlib.stpp_generator.stpp_creator import StppInitFilter, create_media_segment, TTML_TEMPLATE
 
 BODY_TEMPLATE = '''
     <div region="r0">
diff --git a/dashlivesim/dashlib/stpp_generator/stpp_creator.py b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
index 26858c9..a6cdcf9 100644
--- a/dashlivesim/dashlib/stpp_generator/stpp_creator.py
+++ b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
@@ -35,7 +35,7 @@ from dashlivesim.dashlib.mp4filter import MP4Filter
 from dashlivesim.dashlib.structops import uint32_to_str, str_to_uint32, uint64_to_str
 
 
-TTML_MEDIA_TMPL = '\x00\x00\x00\x18stypmsdh\x00\x00\x00\x00msdhdash\x00\x00\x00`moof\x00\x00\x00\x10mfhd\x00\x00\
+TTML_MEDIA_TMPL = b'\x00\x00\x00\x18stypmsdh\x00\x00\x00\x00msdhdash\x00\x00\x00`moof\x00\x00\x00\x10mfhd\x00\x00\
 \x00\x00\x00\x00\x00\x01\x00\x00\x00Htraf\x00\x00\x00\x18tfhd\x00\x02\x00\x18\x00\x00\x00\x03\x00\x00\x03\xe8\x00\
 \x00\x00\t\x00\x00\x00\x14tfdt\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x14trun\x00\x00\x00\
 \x01\x00\x00\x00\x01\x00\x00\x00h\x00\x00\x00\x08mdat'
@@ -43,7 +43,7 @@ TTML_MEDIA_TMPL = '\x00\x00\x00\x18stypmsdh\x00\x00\x00\x00msdhdash\x00\x00\x00`
 TIMESCALE = 1000  # This is the units for tfdt time and durations.
 TRACK_ID = 3
 # The init has sample_time_scale and trackID according to the values above
-TTML_INIT = '\x00\x00\x00\x18ftypiso6\x00\x00\x00\x01isomdash\x00\x00\x02\x9dmoov\x00\x00\x00lmvhd\x00\x00\x00\x00\
+TTML_INIT = b'\x00\x00\x00\x18ftypiso6\x00\x00\x00\x01isomdash\x00\x00\x02\x9dmoov\x00\x00\x00lmvhd\x00\x00\x00\x00\
 \x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xc8\x00\x00\x00\x00\x00\x01\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\
 \x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\
 \x00\x00\x00\x00\x00\x00@\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\
@@ -146,7 +146,7 @@ class StppMediaFilter(MP4Filter):
 
     def process_tfdt(self, data):
         "Process a tfdt box and set the baseMediaDecodeTime."
-        version = ord(data[8])
+        version = data[8]
         assert version == 1, "Can only handle tfdt version 1 (64-bit tfdt)."
         output = data[:12]
         output += uint64_to_str(self.tfdt_time)
@@ -228,7 +228,8 @@ class StppInitFilter(MP4Filter):
         hdlr_name = data[32:-1]  # Actually UTF-8 encoded
         print("Found hdlr %s: %s" % (hdlr, hdlr_name))
         if self.handler_name:
-            output = uint32_to_str(len(self.handler_name) + 33) + data[4:32] + self.handler_name + '\x00'
+            name = self.handler_name.encode('utf-8')
+            output = uint32_to_str(len(name) + 33) + data[4:32] + name + b'\x00'
             print("Wrote hdlr %s" % self.handler_name)
         else:
             output = data
-- 
2.43.0


From 5c157540cf8528844723395f09c5c83dd8710a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:02 +0000
Subject: [PATCH 43/70] fix: trex of generated subtitle init segments refers to
 the track

---
 dashlivesim/dashlib/stpp_generator/stpp_creator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/stpp_generator/stpp_creator.py b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
index a6cdcf9..068e5b6 100644
--- a/dashlivesim/dashlib/stpp_generator/stpp_creator.py
+++ b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
@@ -171,7 +171,7 @@ class StppInitFilter(MP4Filter):
         self.creation_modfication_time = creation_modfication_time  # Measured from 1904-01-01 in seconds
         self.handler_name = hdlr_name
         self.top_level_boxes_to_parse = [b'moov']
-        self.composite_boxes_to_parse = [b'moov', b'trak', b'mdia', b'minf', b'dinf']
+        self.composite_boxes_to_parse = [b'moov', b'mvex', b'trak', b'mdia', b'minf', b'dinf']
 
     def process_mvhd(self, data):
         "Set nextTrackId and time and movie timescale."
@@ -181,6 +181,10 @@ class StppInitFilter(MP4Filter):
         output += uint32_to_str(self.track_id + 1)  # next_track_ID
         return output
 
+    def process_trex(self, data):
+        "Set trackID."
+        return data[:12] + uint32_to_str(self.track_id) + data[16:]
+
     def process_tkhd(self, data):
         "Set trackID and time."
         version = data[8]
-- 
2.43.0


From af8fd9cdb3275b4c943c02632867a71335710b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:02 +0000
Subject: [PATCH 44/70] fix: timescale of generated subtitles does not depend
 on the time stamp resolution

---
 dashlivesim/dashlib/stpp_generator/make_stpp_segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
index f1c9120..c7f9456 100644
--- a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
+++ b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
@@ -80,7 +80,7 @@ class SegmentCreator(object):
         # Create init segment
         init_segment_path = os.path.join(self.output_path, "init.mp4")
         with open(init_segment_path, 'wb') as iof:
-            initfilter = StppInitFilter(self.language, self.trackid, self.resolution)
+            initfilter = StppInitFilter(self.language, self.trackid)
             initseg = initfilter.filter()
             iof.write(initseg)
 
-- 
2.43.0


From 3e093baa8452f3557ef2eaba64a0f78c3043cb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 45/70] fix: caption inserter keeps the first sample flags

---
 dashlivesim/cc_inserter/cc_inserter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index a64f107..e12c16f 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -121,8 +121,9 @@ class CCInsertFilter(MP4Filter):
             self.trun_offset = str_to_uint32(data[16:20])
             output += uint32_to_str(self.trun_offset)
             pos += 4
-        if flags & 0x4:
-            pos += 4  # First sample flags present
+        if flags & 0x4:  # First sample flags present
+            output += data[pos:pos+4]
+            pos += 4
 
         sample_duration_present = flags & 0x100
         sample_size_present = flags & 0x200
-- 
2.43.0


From dd6e1041d20645347059648a63d01b32bc8c6485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 46/70] fix: caption inserter uses the default sample duration
 of the track fragment

---
 dashlivesim/cc_inserter/cc_inserter.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index e12c16f..29a26a6 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -104,8 +104,21 @@ class CCInsertFilter(MP4Filter):
         self.tfdt = tfdt
         self.field = field
         self.trun_offset = 0
+        self.default_sample_duration = 0
         self.scc_map = []
 
+    def process_tfhd(self, data):
+        """Find the default sample duration."""
+        flags = str_to_uint32(data[8:12]) & 0xffffff
+        pos = 16
+        if flags & 0x1:  # Base data offset present
+            pos += 8
+        if flags & 0x2:  # Sample description index present
+            pos += 4
+        if flags & 0x8:
+            self.default_sample_duration = str_to_uint32(data[pos:pos+4])
+        return data
+
     def process_trun(self, data):
         """Process trun box."""
         # pylint: disable=too-many-locals,too-many-branches,too-many-statements
@@ -134,7 +147,7 @@ class CCInsertFilter(MP4Filter):
         orig_sample_pos = 0
 
         for i in range(sample_count):
-            duration = 0
+            duration = self.default_sample_duration
             size = 0
             flags = 0
             comp_time = 0
-- 
2.43.0


From 33c764651e6c4986372e9ea2756e3636c369d308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 47/70] fix: caption inserter reports the missing segment

---
 dashlivesim/cc_inserter/cc_inserter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 29a26a6..8ec1ce1 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -321,7 +321,8 @@ def get_segment_range(rep_data):
     numbers.sort()
     for i in range(1, len(numbers)):
         if numbers[i] != numbers[i-1] + 1:
-            raise CCInserterError("%s segment missing between %d and %d" % rep_id, numbers[i], numbers[i-1])
+            raise CCInserterError("%s segment missing between %d and %d" %
+                                  (rep_id, numbers[i-1], numbers[i]))
     print("Found %s segments %d - %d" % (rep_id, numbers[0], numbers[-1]))
     rep_data['firstNumber'] = numbers[0]
     rep_data['lastNumber'] = numbers[-1]
-- 
2.43.0


From 71c63f3a64e4370c0e0b7ca41a70f39eeb104c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 48/70] fix: caption inserter processes at most the given
 number of segments

---
 dashlivesim/cc_inserter/cc_inserter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 8ec1ce1..5ce01cb 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -497,7 +497,7 @@ class CCInserter(object):
                         seg_nr += 1
                         if self.verbose:
                             sys.stdout.write(".")
-                        if seg_nr - rep_data['firstNumber'] > self.max_nr_segments > 0:
+                        if seg_nr - rep_data['firstNumber'] >= self.max_nr_segments > 0:
                             print("Reached max nr segments")
                             break
 
-- 
2.43.0


From 056a212f1529e6156547c8c9d0b8963fc1d21803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 49/70] fix: insert MPD elements at the position which the MPD
 schema prescribes

---
 dashlivesim/dashlib/mpdprocessor.py | 33 +++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 672f0cf..f4e661f 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -46,6 +46,17 @@ UTC_TIMING_NTP_SERVER = '1.de.pool.ntp.org'
 UTC_TIMING_SNTP_SERVER = 'time.kfki.hu'
 UTC_TIMING_HTTP_SERVER = 'http://time.akamai.com/?iso'
 
+# Siblings that come before an inserted element according to the sequences of the MPD schema
+ELEMENTS_BEFORE = {'SegmentBase': ['BaseURL']}
+ELEMENTS_BEFORE['EventStream'] = ELEMENTS_BEFORE['SegmentBase'] + ['SegmentBase', 'SegmentList', 'SegmentTemplate',
+                                                                   'AssetIdentifier']
+ELEMENTS_BEFORE['SupplementalProperty'] = ['FramePacking', 'AudioChannelConfiguration', 'ContentProtection',
+                                           'OutputProtection', 'EssentialProperty']
+ELEMENTS_BEFORE['InbandEventStream'] = ELEMENTS_BEFORE['SupplementalProperty'] + ['SupplementalProperty']
+ELEMENTS_BEFORE['ProducerReferenceTime'] = ELEMENTS_BEFORE['InbandEventStream'] + ['InbandEventStream', 'Switching',
+                                                                                   'RandomAccess', 'GroupLabel', 'Label']
+ELEMENTS_BEFORE['UTCTiming'] = ['Period', 'Metrics', 'EssentialProperty', 'SupplementalProperty']
+
 
 def set_value_from_dict(element, key, data):
     "Set attribute key of element to value data[key], if present."
@@ -60,6 +71,12 @@ def set_values_from_dict(element, keys, data):
             element.set(key, str(data[key]))
 
 
+def schema_position(parent, name):
+    "Position at which a new child element called name is to be inserted to follow the MPD schema."
+    before = [add_ns(tag) for tag in ELEMENTS_BEFORE[name]]
+    return max([pos + 1 for pos, child in enumerate(parent) if child.tag in before], default=0)
+
+
 class MpdModifierError(Exception):
     "Generic MpdModifier error."
     pass
@@ -193,7 +210,7 @@ class MpdProcessor(object):
         for i in range(1, len(period_data)):
             new_period = copy.deepcopy(period)
             mpd.insert(pos+i, new_period)
-        self.insert_utc_timings(mpd, pos+len(period_data))
+        self.insert_utc_timings(mpd, schema_position(mpd, 'UTCTiming'))
         self.update_periods(mpd, period_data, data['periodOffset'] >= 0, ll_data)
 
     def insert_baseurl(self, mpd, pos, new_baseurl, new_ato, new_atc):
@@ -276,7 +293,7 @@ class MpdProcessor(object):
             segmentbase_elem = ElementTree.Element(add_ns('SegmentBase'))
             if presentation_time_offset != 0:
                 segmentbase_elem.set('presentationTimeOffset', str(presentation_time_offset))
-            period.insert(0, segmentbase_elem)
+            period.insert(schema_position(period, 'SegmentBase'), segmentbase_elem)
 
         def create_inband_scte35stream_elem():
             "Create an InbandEventStream element for SCTE-35."
@@ -323,25 +340,23 @@ class MpdProcessor(object):
             if 'mpdCallback' in pdata:
                 # Add the mpdCallback element only if the flag is raised.
                 mpdcallback_elem = create_inline_mpdcallback_elem(BaseURLSegmented)
-                period.insert(0, mpdcallback_elem)
+                period.insert(schema_position(period, 'EventStream'), mpdcallback_elem)
             adaptation_sets = period.findall(add_ns('AdaptationSet'))
             for ad_set in adaptation_sets:
-                ad_pos = 0
                 content_type = ad_set.get('contentType')
                 if self.emsg_last_seg:
                     inband_event_elem = create_inband_stream_elem()
-                    ad_set.insert(0, inband_event_elem)
+                    ad_set.insert(schema_position(ad_set, 'InbandEventStream'), inband_event_elem)
                 if content_type == 'video' and self.scte35_present:
                     scte35_elem = create_inband_scte35stream_elem()
-                    ad_set.insert(0, scte35_elem)
-                    ad_pos += 1
+                    ad_set.insert(schema_position(ad_set, 'InbandEventStream'), scte35_elem)
                 if self.continuous and last_period_id != '-1':
                     supplementalprop_elem = self.create_descriptor_elem("SupplementalProperty",
                                                                         "urn:mpeg:dash:period_continuity:2014",
                                                                         last_period_id)
-                    ad_set.insert(ad_pos, supplementalprop_elem)
+                    ad_set.insert(schema_position(ad_set, 'SupplementalProperty'), supplementalprop_elem)
                 if ll_data:
-                    self.insert_producer_reference(ad_set, ad_pos)
+                    self.insert_producer_reference(ad_set, schema_position(ad_set, 'ProducerReferenceTime'))
                 seg_templates = ad_set.findall(add_ns('SegmentTemplate'))
                 for seg_template in seg_templates:
                     set_attribs(seg_template, segmenttemplate_attribs, pdata)
-- 
2.43.0


From d81d0ecd3db4d0c5e78a73a1caa5a60358c43aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 50/70] fix: BaseURLs inside Periods do not apply to links to
 remote Periods

---
 dashlivesim/dashlib/mpd_proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index e2a2b9e..ebd5095 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -139,7 +139,7 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         one_xlinks_for_how_many_periods = nr_periods_per_hour // nr_xlink_periods_per_hour
         period_id_xlinks = [x for x in period_id_all if int(x[1:]) % one_xlinks_for_how_many_periods == 0]
         # Periods that will be replaced with links.
-        base_url = findall('<BaseURL[^>]*>([^<]*)</BaseURL>', response)
+        base_url = findall('<BaseURL[^>]*>([^<]*)</BaseURL>', response[:response.find("<Period")])
         counter = 0
         for period_id in period_id_all:
             # Start replacing only if this condition is met.
-- 
2.43.0


From af4035ed419b9ad1e39529aaee36a712f7fa37ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 51/70] fix: remote Periods declare all XML namespaces which
 they use

---
 dashlivesim/dashlib/mpd_proxy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index ebd5095..ed637fb 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -188,8 +188,7 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         # Start manipulating the original period so that it looks like .period in the static xlink file.
         filename = filename.split('+')[1]
         # Second part of string has the period id.
-        start_pos_xmlns = response.find("xmlns=")
-        end_pos_xmlns = response.find('"', start_pos_xmlns + 7) + 1
+        xmlns_declarations = findall('xmlns(?::[^=\\s]+)?="[^"]*"', response[:response.find("<Period")])
         start_pos_period = find_period(response, filename[:-7])
         # Find the position in the string file of the period that has be replaced.
         if start_pos_period < 0:
@@ -197,7 +196,7 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         end_pos_period = response.find("</Period>", start_pos_period) + 9
         # End position of the corresponding period.
         original_period = response[start_pos_period:end_pos_period]
-        original_period = original_period.replace('">', '" ' + response[start_pos_xmlns:end_pos_xmlns] + '>', 1)
+        original_period = original_period.replace('">', '" ' + " ".join(xmlns_declarations) + '>', 1)
         # xml_intro = '<?xml version="1.0" encoding="utf-8"?>\n'
         # response = xml_intro + original_period
         response = original_period
-- 
2.43.0


From 84a614ae52e3429f22a732b7c49a2faf7d4c7d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:42 +0000
Subject: [PATCH 52/70] fix: insert AssetIdentifier at its position in the MPD
 schema, and only once

---
 dashlivesim/dashlib/mpd_proxy.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index ed637fb..80fd7e8 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -303,7 +303,12 @@ def generate_period_data(mpd_data, now, cfg):
 
 
 def insert_asset_identifier(response, start_pos_period):
-    ad_pos = response.find(">", start_pos_period) + 1
-    response = response[:ad_pos] + "\n<AssetIdentifier schemeIdUri=\"urn:org:dashif:asset-id:2013\" value=\"md:cid:" \
-                                   "EIDR:10.5240%2f0EFB-02CD-126E-8092-1E49-W\"></AssetIdentifier>" + response[ad_pos:]
+    # Period children which, according to the MPD schema, come after an AssetIdentifier (there is at most one).
+    match = search("<(AssetIdentifier|EventStream|ServiceDescription|ContentProtection|AdaptationSet)[ >]",
+                   response[start_pos_period:])
+    if match is None or match.group(1) == "AssetIdentifier":
+        return response
+    ad_pos = start_pos_period + match.start()
+    response = response[:ad_pos] + "<AssetIdentifier schemeIdUri=\"urn:org:dashif:asset-id:2013\" value=\"md:cid:" \
+                                   "EIDR:10.5240%2f0EFB-02CD-126E-8092-1E49-W\"></AssetIdentifier>\n" + response[ad_pos:]
     return response
-- 
2.43.0


From 07a6625309baee14ca213101432dc389b7cb0825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 53/70] fix: MPD callback events in start-over sessions, whose
 MPDs have Location instead of BaseURL

---
 dashlivesim/dashlib/mpdprocessor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index f4e661f..ebc9079 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -99,6 +99,7 @@ class MpdProcessor(object):
         self.full_url = full_url
         self.root = self.tree.getroot()
         self.availability_start_time_in_s = None
+        self.base_url = None
         self.emsg_last_seg = cfg.emsg_last_seg if cfg is not None else False
         self.segtimelineloss = cfg.segtimelineloss if cfg is not None else False
 
@@ -107,6 +108,7 @@ class MpdProcessor(object):
         mpd = self.root
         self.availability_start_time_in_s = mpd_data[
             'availability_start_time_in_s']
+        self.base_url = mpd_data.get('BaseURL')
         self.process_mpd(mpd, mpd_data)
         self.process_mpd_children(mpd, mpd_data, period_data, ll_data)
 
@@ -316,9 +318,8 @@ class MpdProcessor(object):
                     segtimeline_generators[content_type] = SegmentTimeLineGenerator(self.cfg.media_data[content_type],
                                                                                     self.cfg)
         periods = mpd.findall(add_ns('Period'))
-        BaseURL = mpd.findall(add_ns('BaseURL'))
-        if len(BaseURL) > 0:
-            BaseURLParts = BaseURL[0].text.split('/')
+        if self.base_url is not None:  # Also needed for MPDs with Location instead of BaseURL
+            BaseURLParts = self.base_url.split('/')
             if len(BaseURLParts) > 3:
                 BaseURLSegmented = BaseURLParts[0] + '//' + BaseURLParts[2] + '/' + BaseURLParts[3] + '/mpdcallback/'
         # From the Base URL
-- 
2.43.0


From 9c57daf8fcff1f1a3c519e56023e40d1b7c0902c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:27 +0000
Subject: [PATCH 54/70] fix: limit SegmentTimelines to the configured number of
 segments in the loop

The installation guide tells users to edit the configuration to include fewer
segments. The dat file then still describes the whole asset, and the timelines
listed segments beyond the loop, with overlapping times.
---
 dashlivesim/dashlib/segtimeline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 08c3332..c267ab4 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -55,11 +55,14 @@ class SegmentTimeLineGenerator(object):
             print("Error for %s: %s" % (media_data, e))
         dat_file_path = os.path.join(self.cfg.vod_cfg_dir, dat_file)
         self.segtimedata = []  # Tuples corresponding to SegTimeEntry
+        loop_end_nr = cfg.vod_first_segment_in_loop + cfg.vod_nr_segments_in_loop
         with open(dat_file_path, "rb") as ifh:
             data = ifh.read(12)
             while data:
                 ste = SegTimeEntry(*unpack(SEGTIMEFORMAT, data))
-                self.segtimedata.append(ste)
+                if ste.start_nr >= loop_end_nr:
+                    break  # The configuration may include fewer segments than the dat file
+                self.segtimedata.append(ste._replace(repeats=min(ste.repeats, loop_end_nr - ste.start_nr - 1)))
                 data = ifh.read(12)
         self.interval_starts = [std.start_time for std in self.segtimedata]
         self.wrap_duration = cfg.vod_wrap_seconds * self.timescale
-- 
2.43.0


From b5d6535c86c63fa96f1203ce3c9232847d077778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:49 +0000
Subject: [PATCH 55/70] fix: the duration of a segment is that of all its track
 runs

---
 dashlivesim/dashlib/mediasegmentfilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index f2e54f2..0803348 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -196,7 +196,7 @@ class MediaSegmentFilter(MP4Filter):
                 pos += 4
             if sample_comp_time_present:
                 pos += 4
-        self.duration = duration
+        self.duration = (self.duration or 0) + duration  # There may be several track runs
 
         # Modify data_offset
         output = data[:16]
-- 
2.43.0


From ba8979ba77f0589f62ad331184a783b1b3c820dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:49 +0000
Subject: [PATCH 56/70] fix: low-latency chunks contain the samples of all
 track runs

---
 dashlivesim/dashlib/chunker.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index 2e3124f..21635bd 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -41,10 +41,10 @@ def decode_fragment(data, trex):
     moof = root.find(b'moof')
     tfhd = moof.find(b'traf.tfhd')
     tfdt = moof.find(b'traf.tfdt')
-    trun = moof.find(b'traf.trun')
+    truns = moof.find_all(b'traf.trun')
 
     base_data_offset = tfhd.base_data_offset if tfhd.has_base_data_offset else moof.offset
-    data_offset = trun.data_offset if trun.has_data_offset else 0
+    data_offset = 0
     base_media_decode_time = tfdt.decode_time
 
     t0, t1 = base_media_decode_time, base_media_decode_time
@@ -55,7 +55,10 @@ def decode_fragment(data, trex):
                            trex.default_sample_size)
     default_sample_flags = (tfhd.default_sample_flags if tfhd.has_default_sample_flags else
                             trex.default_sample_flags)
-    for i, entry in enumerate(map(trun.sample_entry, range(trun.sample_count))):
+    for trun, i in ((trun, i) for trun in truns for i in range(trun.sample_count)):
+        entry = trun.sample_entry(i)
+        if i == 0 and trun.has_data_offset:  # Otherwise, the data follows that of the previous track run
+            data_offset, end = trun.data_offset, 0
         duration = entry['duration'] if trun.has_sample_duration else default_sample_duration
         size = entry['size'] if trun.has_sample_size else default_sample_size
         if trun.has_sample_flags:
-- 
2.43.0


From b70a05d93fcc4ace6768f3c7f1b1962d1a8e2cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:49 +0000
Subject: [PATCH 57/70] fix: data offsets of all track runs in multiplexed
 segments

---
 dashlivesim/dashlib/segmentmuxer.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index ae9cef0..87c10d7 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -127,8 +127,7 @@ class MediaSegmentStructure(MP4Filter):
     def __init__(self, filename=None, data=None):
         MP4Filter.__init__(self, filename, data)
         self.top_level_boxes_to_parse = [b'styp', b'moof', b'mdat']
-        self.trun_data_offset = None
-        self.trun_data_offset_in_traf = None
+        self.trun_data_offsets = []  # Pairs of data_offset and its position in traf
         self.traf_start = None
         self.styp = None
         self.mfhd = None
@@ -141,8 +140,7 @@ class MediaSegmentStructure(MP4Filter):
         flags = str_to_uint32(data[8:12]) & 0xffffff
         data_offset_present = flags & 1
         if data_offset_present:
-            self.trun_data_offset = str_to_uint32(data[16:20])
-            self.trun_data_offset_in_traf = pos + 16 - self.traf_start
+            self.trun_data_offsets.append((str_to_uint32(data[16:20]), pos + 16 - self.traf_start))
 
     def filter_box(self, boxtype, data, file_pos, path=b""):
         "Filter box or tree of boxes recursively."
@@ -202,12 +200,11 @@ class MultiplexMediaSegments(object):
 
         def get_traf_with_mod_offset(mstruct, delta_offset):
             "Get a traf box but with modified offset."
-            if mstruct.trun_data_offset is None:
-                return mstruct.traf
-            new_data_offset = mstruct.trun_data_offset + delta_offset
             traf = mstruct.traf
-            offset = mstruct.trun_data_offset_in_traf
-            return traf[:offset] + uint32_to_str(new_data_offset) + traf[offset+4:]
+            for trun_data_offset, offset in mstruct.trun_data_offsets:
+                new_data_offset = trun_data_offset + delta_offset
+                traf = traf[:offset] + uint32_to_str(new_data_offset) + traf[offset+4:]
+            return traf
 
         delta_offset1 = len(self.mstruct2.traf)
         delta_offset2 = len(self.mstruct1.traf) + len(self.mstruct1.mdat) - 8
-- 
2.43.0


From 0e70ef31536b67462173c35c228177adf8e6593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:21 +0000
Subject: [PATCH 58/70] fix: sidx and event message go before the first
 fragment of a segment

---
 dashlivesim/dashlib/mediasegmentfilter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index 0803348..c2b9208 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -86,7 +86,8 @@ class MediaSegmentFilter(MP4Filter):
             moof_start = 0
             for size, box in self.output_top_level_boxes:
                 if box == b'moof':
-                    moof_start = pos
+                    if seg_size == 0:  # First fragment
+                        moof_start = pos
                     seg_size += size
                 elif box == b'mdat':
                     seg_size += size
@@ -100,6 +101,7 @@ class MediaSegmentFilter(MP4Filter):
             for size, box in self.output_top_level_boxes:
                 if box == b'moof':
                     moof_start = pos
+                    break
                 pos += size
             emsg_box = self.create_emsg()
             self.output = (self.output[:moof_start] + emsg_box +
@@ -334,7 +336,8 @@ class MediaSegmentFilter(MP4Filter):
             base_media_decode_time = str_to_uint64(data[12:20])
             new_base_media_decode_time = base_media_decode_time + tfdt_offset
             output += uint64_to_str(new_base_media_decode_time)
-        self.tfdt_value = new_base_media_decode_time
+        if self.tfdt_value is None:  # First fragment
+            self.tfdt_value = new_base_media_decode_time
         return output
 
     def get_tfdt_value(self):
-- 
2.43.0


From ade8140d9f6ec47feeb133509d2207988cb83a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:09 +0000
Subject: [PATCH 59/70] fix: SegmentTimelines of content that does not start at
 time 0

---
 dashlivesim/dashlib/segtimeline.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index c267ab4..0986f8f 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -160,11 +160,17 @@ class SegmentTimeLineGenerator(object):
         seg_data = self.segtimedata[index]
         return nr_wraps*self.wrap_duration + seg_data.start_time + (repeats+1)*seg_data.duration
 
+    def find_wrap(self, act_time):
+        "Find the loop and the time inside it. A loop starts with its first segment, which may start after time 0."
+        first_start = self.interval_starts[0]
+        nr_wraps, rel_time = divmod(act_time - first_start, self.wrap_duration)
+        return nr_wraps, rel_time + first_start
+
     def find_latest_starting_before(self, act_time):
         "Find the latest segment starting before act_time."
-        nr_wraps, rel_time = divmod(act_time, self.wrap_duration)
+        nr_wraps, rel_time = self.find_wrap(act_time)
         if nr_wraps < 0:
-            return (None, None, None)  # This is before AST
+            return (0, 0, 0)  # This is before the first segment
         index = bisect.bisect(self.interval_starts, rel_time) - 1
         seg_data = self.segtimedata[index]
         repeats = 0
@@ -175,9 +181,9 @@ class SegmentTimeLineGenerator(object):
         return index, repeats, nr_wraps
 
     def find_closest_start(self, act_time):
-        nr_wraps, rel_time = divmod(act_time, self.wrap_duration)
+        nr_wraps, rel_time = self.find_wrap(act_time)
         if nr_wraps < 0:
-            return (None, None, None)  # This is before AST
+            return (0, 0, 0)  # This is before the first segment
         index = bisect.bisect(self.interval_starts, rel_time) - 1
         seg_data = self.segtimedata[index]
         repeats = 0
-- 
2.43.0


From c9b0e26bca1a3a6342e35544f9b20a12165089e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 60/70] fix: add the SCTE-35 profile to an MPD with a longer
 profile name containing it

---
 dashlivesim/dashlib/mpdprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index ebc9079..3e34da6 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -118,7 +118,7 @@ class MpdProcessor(object):
         mpd.set('type', mpd_data.get('type', 'dynamic'))
         if self.scte35_present:
             old_profiles = mpd.get('profiles')
-            if not old_profiles.find(scte35.PROFILE) >= 0:
+            if scte35.PROFILE not in old_profiles.split(","):
                 new_profiles = old_profiles + "," + scte35.PROFILE
                 mpd.set('profiles', new_profiles)
         if self.segtimelineloss:
-- 
2.43.0


From e84cce9eb47059019900d0007670462387666478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 61/70] fix: list a segment of a timeline in one Period only
 when Period starts are not at segment boundaries

---
 dashlivesim/dashlib/mpdprocessor.py | 3 ++-
 dashlivesim/dashlib/segtimeline.py  | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 3e34da6..0bd9c4b 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -396,10 +396,11 @@ class MpdProcessor(object):
                         media_time_at_ast = self.cfg.adjusted_pto(0, 1)
                         start_time += media_time_at_ast - ast
                         end_time += media_time_at_ast - ast
+                        period_start += media_time_at_ast - ast
                         if last_number is not None:
                             last_number += media_time_at_ast // seg_duration
                         seg_timeline = segtime_gen.create_segtimeline(
-                            start_time, end_time, use_closest, last_number)
+                            start_time, end_time, use_closest, last_number, period_start)
                         remove_attribs(seg_template, ['duration'])
                         seg_template.set('timescale', str(self.cfg.media_data[content_type]['timescale']))
                         if pto != "0" and not offset_at_period_level:
diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 0986f8f..3bac92e 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -70,10 +70,11 @@ class SegmentTimeLineGenerator(object):
         self.first_segment_number = cfg.vod_first_segment_in_loop
         self.start_number = None
 
-    def create_segtimeline(self, start_time, end_time, use_closest=False, last_number=None):
+    def create_segtimeline(self, start_time, end_time, use_closest=False, last_number=None, period_start=None):
         """Create and insert a new <SegmentTimeline> element and S entries.
 
-        No segment after last_number (counted from media time 0) is included."""
+        No segment after last_number (counted from media time 0) is included, and none before the one
+        closest to period_start."""
         seg_timeline = ElementTree.Element(add_ns('SegmentTimeline'))
         seg_timeline.text = "\n"
         seg_timeline.tail = "\n"
@@ -115,6 +116,9 @@ class SegmentTimeLineGenerator(object):
             result = self.find_closest_start(start)
         else:
             result = self.find_latest_starting_before(start)
+            if period_start is not None:
+                first = self.find_closest_start(period_start * self.timescale)
+                result = max(result, first, key=lambda res: self.get_seg_starttime(res[2], res[0], res[1]))
         (start_index, start_repeats, start_wraps) = result
         # print("start %d %d %d" % (start_index, start_repeats, start_wraps))
         start_tics = self.get_seg_starttime(start_wraps, start_index, start_repeats)
-- 
2.43.0


From 80bc7c9d52dfdb1c4110edff27226b48f52f6458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 62/70] fix: keep the event messages of both segments in a
 multiplexed segment

---
 dashlivesim/dashlib/segmentmuxer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index 87c10d7..10a002e 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -126,10 +126,11 @@ class MediaSegmentStructure(MP4Filter):
 
     def __init__(self, filename=None, data=None):
         MP4Filter.__init__(self, filename, data)
-        self.top_level_boxes_to_parse = [b'styp', b'moof', b'mdat']
+        self.top_level_boxes_to_parse = [b'styp', b'emsg', b'moof', b'mdat']
         self.trun_data_offsets = []  # Pairs of data_offset and its position in traf
         self.traf_start = None
         self.styp = None
+        self.emsgs = []
         self.mfhd = None
         self.traf = None
         self.moof = None
@@ -146,6 +147,8 @@ class MediaSegmentStructure(MP4Filter):
         "Filter box or tree of boxes recursively."
         if boxtype == b"styp":
             self.styp = data
+        elif boxtype == b"emsg":
+            self.emsgs.append(data)
         elif boxtype == b"moof":
             self.moof = data
         elif boxtype == b"mdat":
@@ -217,6 +220,8 @@ class MultiplexMediaSegments(object):
         data = []
         if self.mstruct1.styp is not None:
             data.append(self.mstruct1.styp)
+        data.extend(self.mstruct1.emsgs)
+        data.extend(emsg for emsg in self.mstruct2.emsgs if emsg not in self.mstruct1.emsgs)
         data.append(uint32_to_str(moof_size))
         data.append(b'moof')
         data.append(self.mstruct1.mfhd)
-- 
2.43.0


From 8300c16274a83aacff87a8daabb0043704ea6ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 63/70] fix: keep the brands and event messages of a segment
 when it is sent in chunks

---
 dashlivesim/dashlib/chunker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index 21635bd..0b42be2 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -110,6 +110,8 @@ def chunk(data, duration, trex_box):
     chunks = []
     for moof, mdat in fragments:
         chunks.append(moof.serialize() + mdat.serialize())
+    if chunks:  # Brands and events come first. An index of the segment does not fit to the chunks
+        chunks[0] = b"".join(box.raw_data for box in root.children if box.type in (b'styp', b'emsg')) + chunks[0]
     return chunks
 
 
-- 
2.43.0


From 5806b68c35aa62bf679ac33d6180fe6b4fc8afd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:02 +0000
Subject: [PATCH 64/70] fix: chunk all fragments of a segment, not only the
 first one

---
 dashlivesim/dashlib/chunker.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index 0b42be2..85b4763 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -35,10 +35,15 @@ from dashlivesim.dashlib.mp4 import mp4
 from dashlivesim.dashlib.boxes import create_moof, create_mdat, Sample
 
 
-def decode_fragment(data, trex):
-    "Extract samples from a segment."
+def decode_fragments(data, trex):
+    "Extract samples from all fragments of a segment."
     root = mp4(data)
-    moof = root.find(b'moof')
+    for moof in root.find_all(b'moof'):
+        yield from decode_fragment(root, moof, trex)
+
+
+def decode_fragment(root, moof, trex):
+    "Extract samples from a fragment of a segment."
     tfhd = moof.find(b'traf.tfhd')
     tfdt = moof.find(b'traf.tfdt')
     truns = moof.find_all(b'traf.trun')
@@ -105,7 +110,7 @@ def chunk(data, duration, trex_box):
 
     fragments = encode_chunked(seqno,
                                track_id,
-                               decode_fragment(data, trex_box),
+                               decode_fragments(data, trex_box),
                                duration)
     chunks = []
     for moof, mdat in fragments:
-- 
2.43.0


From 111cada701e246277a456f02510cf23299a1ce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:02 +0000
Subject: [PATCH 65/70] fix: multiplex all fragments of the segments, not only
 the last ones

---
 dashlivesim/dashlib/segmentmuxer.py | 82 ++++++++++++++++-------------
 1 file changed, 46 insertions(+), 36 deletions(-)

diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index 10a002e..5d9e957 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -30,6 +30,8 @@
 #  ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 #  POSSIBILITY OF SUCH DAMAGE.
 
+from itertools import zip_longest
+
 from dashlivesim.dashlib.mp4filter import MP4Filter
 from dashlivesim.dashlib.structops import uint32_to_str, str_to_uint32
 
@@ -120,6 +122,19 @@ class MultiplexInits(object):
         return b"".join(data)
 
 
+class Fragment(object):
+    "Holds the box structure of one fragment (moof and mdat) of a media segment."
+    # pylint: disable=too-few-public-methods
+
+    def __init__(self, moof):
+        self.moof = moof
+        self.mfhd = None
+        self.traf = None
+        self.traf_start = None
+        self.trun_data_offsets = []  # Pairs of data_offset and its position in traf
+        self.mdat = None
+
+
 class MediaSegmentStructure(MP4Filter):
     "Holds the box structure of a media segment."
     # pylint: disable=too-many-instance-attributes
@@ -127,21 +142,17 @@ class MediaSegmentStructure(MP4Filter):
     def __init__(self, filename=None, data=None):
         MP4Filter.__init__(self, filename, data)
         self.top_level_boxes_to_parse = [b'styp', b'emsg', b'moof', b'mdat']
-        self.trun_data_offsets = []  # Pairs of data_offset and its position in traf
-        self.traf_start = None
         self.styp = None
         self.emsgs = []
-        self.mfhd = None
-        self.traf = None
-        self.moof = None
-        self.mdat = None
+        self.fragments = []
 
     def parse_trun(self, data, pos):
         "Parse trun box and find position of data_offset."
         flags = str_to_uint32(data[8:12]) & 0xffffff
         data_offset_present = flags & 1
         if data_offset_present:
-            self.trun_data_offsets.append((str_to_uint32(data[16:20]), pos + 16 - self.traf_start))
+            fragment = self.fragments[-1]
+            fragment.trun_data_offsets.append((str_to_uint32(data[16:20]), pos + 16 - fragment.traf_start))
 
     def filter_box(self, boxtype, data, file_pos, path=b""):
         "Filter box or tree of boxes recursively."
@@ -150,14 +161,14 @@ class MediaSegmentStructure(MP4Filter):
         elif boxtype == b"emsg":
             self.emsgs.append(data)
         elif boxtype == b"moof":
-            self.moof = data
+            self.fragments.append(Fragment(data))
         elif boxtype == b"mdat":
-            self.mdat = data
+            self.fragments[-1].mdat = data
         elif boxtype == b"mfhd":
-            self.mfhd = data
+            self.fragments[-1].mfhd = data
         elif boxtype == b"traf":
-            self.traf = data
-            self.traf_start = file_pos
+            self.fragments[-1].traf = data
+            self.fragments[-1].traf_start = file_pos
         elif boxtype == b"trun":
             self.parse_trun(data, file_pos)
         if path == b"":
@@ -192,44 +203,43 @@ class MultiplexMediaSegments(object):
         "Multiplex on frgment level."
         data = []
         data.append(self.mstruct1.styp)
-        data.append(self.mstruct1.moof)
-        data.append(self.mstruct1.mdat)
-        data.append(self.mstruct2.moof)
-        data.append(self.mstruct2.mdat)
+        for frag1, frag2 in zip_longest(self.mstruct1.fragments, self.mstruct2.fragments):
+            data.extend(frag.moof + frag.mdat for frag in (frag1, frag2) if frag is not None)
         return b"".join(data)
 
     def mux_on_sample_level(self):
         "Mux media samples into one mdata. This is done by simple concatenation."
 
-        def get_traf_with_mod_offset(mstruct, delta_offset):
+        def get_traf_with_mod_offset(fragment, delta_offset):
             "Get a traf box but with modified offset."
-            traf = mstruct.traf
-            for trun_data_offset, offset in mstruct.trun_data_offsets:
+            traf = fragment.traf
+            for trun_data_offset, offset in fragment.trun_data_offsets:
                 new_data_offset = trun_data_offset + delta_offset
                 traf = traf[:offset] + uint32_to_str(new_data_offset) + traf[offset+4:]
             return traf
 
-        delta_offset1 = len(self.mstruct2.traf)
-        delta_offset2 = len(self.mstruct1.traf) + len(self.mstruct1.mdat) - 8
-        traf1 = get_traf_with_mod_offset(self.mstruct1, delta_offset1)
-        traf2 = get_traf_with_mod_offset(self.mstruct2, delta_offset2)
-
-        moof_size = 8 + len(self.mstruct1.mfhd) + len(self.mstruct1.traf) + len(self.mstruct2.traf)
-        mdat_size = len(self.mstruct1.mdat) + len(self.mstruct2.mdat) - 8
-
         data = []
         if self.mstruct1.styp is not None:
             data.append(self.mstruct1.styp)
         data.extend(self.mstruct1.emsgs)
         data.extend(emsg for emsg in self.mstruct2.emsgs if emsg not in self.mstruct1.emsgs)
-        data.append(uint32_to_str(moof_size))
-        data.append(b'moof')
-        data.append(self.mstruct1.mfhd)
-        data.append(traf1)
-        data.append(traf2)
-        data.append(uint32_to_str(mdat_size))
-        data.append(b'mdat')
-        data.append(self.mstruct1.mdat[8:])
-        data.append(self.mstruct2.mdat[8:])
+        for fragments in zip_longest(self.mstruct1.fragments, self.mstruct2.fragments):
+            fragments = [fragment for fragment in fragments if fragment is not None]
+            trafs_size = sum(len(fragment.traf) for fragment in fragments)
+            moof_size = 8 + len(fragments[0].mfhd) + trafs_size
+            trafs = []
+            mdat_size = 8
+            for fragment in fragments:
+                delta_offset = trafs_size - len(fragment.traf) + mdat_size - 8
+                trafs.append(get_traf_with_mod_offset(fragment, delta_offset))
+                mdat_size += len(fragment.mdat) - 8
+
+            data.append(uint32_to_str(moof_size))
+            data.append(b'moof')
+            data.append(fragments[0].mfhd)
+            data.extend(trafs)
+            data.append(uint32_to_str(mdat_size))
+            data.append(b'mdat')
+            data.extend(fragment.mdat[8:] for fragment in fragments)
 
         return b"".join(data)
-- 
2.43.0


From 9ee54e8e213d3d68bb65b317e4418fcbb65f4297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:58 +0000
Subject: [PATCH 66/70] fix: insert captions in segments of several track runs
 or fragments

---
 dashlivesim/cc_inserter/cc_inserter.py | 30 +++++++++++++++++---------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 5ce01cb..c232880 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -101,9 +101,11 @@ class CCInsertFilter(MP4Filter):
         self.composite_boxes_to_parse = [b"moof", b"traf"]
         self.scc_data = scc_data
         self.time_scale = time_scale
-        self.tfdt = tfdt
+        self.sample_time = tfdt  # Start of next sample
         self.field = field
-        self.trun_offset = 0
+        self.trun_offset = None  # Data offset of the first track run of the fragment
+        self.sample_pos = 0  # Position of next sample, relative to trun_offset
+        self.inserted_size = 0  # Number of bytes inserted in the fragment so far
         self.default_sample_duration = 0
         self.scc_map = []
 
@@ -131,8 +133,11 @@ class CCInsertFilter(MP4Filter):
 
         if flags & 0x1:  # Data offset present
             # data_offset_present = True
-            self.trun_offset = str_to_uint32(data[16:20])
-            output += uint32_to_str(self.trun_offset)
+            data_offset = str_to_uint32(data[16:20])
+            if self.trun_offset is None:
+                self.trun_offset = data_offset
+            self.sample_pos = data_offset - self.trun_offset
+            output += uint32_to_str(data_offset + self.inserted_size)
             pos += 4
         if flags & 0x4:  # First sample flags present
             output += data[pos:pos+4]
@@ -142,9 +147,7 @@ class CCInsertFilter(MP4Filter):
         sample_size_present = flags & 0x200
         sample_flags_present = flags & 0x400
         sample_comp_time_present = flags & 0x800
-        sample_time_tfdt = self.tfdt
-
-        orig_sample_pos = 0
+        sample_time_tfdt = self.sample_time
 
         for i in range(sample_count):
             duration = self.default_sample_duration
@@ -184,10 +187,11 @@ class CCInsertFilter(MP4Filter):
                 #      "num SCC samples to add: ", len(scc_samples))
                 scc_generated_data = generate_data(scc_samples, self.field)
                 self.scc_map.append(
-                    {'pos': orig_sample_pos,
+                    {'pos': self.sample_pos,
                      'size': size,
                      'scc_nalu': scc_generated_data})
                 output_size += len(scc_generated_data)
+                self.inserted_size += len(scc_generated_data)
             if sample_duration_present:
                 output += uint32_to_str(duration)
             if sample_size_present:
@@ -197,13 +201,14 @@ class CCInsertFilter(MP4Filter):
             if sample_comp_time_present:
                 output += uint32_to_str(comp_time)
             sample_time_tfdt += duration
-            orig_sample_pos += size
+            self.sample_pos += size
+        self.sample_time = sample_time_tfdt
         return output
 
     def process_mdat(self, data):
         """Process mdat box and insert cea608 data before the video nal units."""
         pos = 0
-        offset = self.trun_offset - (self.mdat_start - self.moof_start)
+        offset = (self.trun_offset or 0) - (self.mdat_start - self.moof_start)
         mdat_end = len(data)
         new_mdat_size = len(data)
         for scc_data in self.scc_map:
@@ -237,6 +242,11 @@ class CCInsertFilter(MP4Filter):
             offset = end
         if offset < mdat_end:
             output += data[offset:]
+        # The next fragment starts from scratch
+        self.trun_offset = None
+        self.sample_pos = 0
+        self.inserted_size = 0
+        self.scc_map = []
         return output
 
     def get_scc_data(self, start_time, end_time):
-- 
2.43.0


From 0f993db15dc25c835fd5bc3640aa957025aaeae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:49 +0000
Subject: [PATCH 67/70] fix: keep sample offsets of multiplexed fragments with
 further boxes in moof

---
 dashlivesim/dashlib/segmentmuxer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index 5d9e957..49d49f7 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -230,7 +230,7 @@ class MultiplexMediaSegments(object):
             trafs = []
             mdat_size = 8
             for fragment in fragments:
-                delta_offset = trafs_size - len(fragment.traf) + mdat_size - 8
+                delta_offset = moof_size - len(fragment.moof) + mdat_size - 8
                 trafs.append(get_traf_with_mod_offset(fragment, delta_offset))
                 mdat_size += len(fragment.mdat) - 8
 
-- 
2.43.0


From f686dc0ae29c2db4bcf9f89f1a3ca3a4c13e40c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:25 +0000
Subject: [PATCH 68/70] fix: address samples of multiplexed segments without
 default-base-is-moof

---
 dashlivesim/dashlib/segmentmuxer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index 49d49f7..16b8b99 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -131,6 +131,7 @@ class Fragment(object):
         self.mfhd = None
         self.traf = None
         self.traf_start = None
+        self.tfhd_pos = None  # Position in traf
         self.trun_data_offsets = []  # Pairs of data_offset and its position in traf
         self.mdat = None
 
@@ -169,6 +170,8 @@ class MediaSegmentStructure(MP4Filter):
         elif boxtype == b"traf":
             self.fragments[-1].traf = data
             self.fragments[-1].traf_start = file_pos
+        elif boxtype == b"tfhd":
+            self.fragments[-1].tfhd_pos = file_pos - self.fragments[-1].traf_start
         elif boxtype == b"trun":
             self.parse_trun(data, file_pos)
         if path == b"":
@@ -211,8 +214,10 @@ class MultiplexMediaSegments(object):
         "Mux media samples into one mdata. This is done by simple concatenation."
 
         def get_traf_with_mod_offset(fragment, delta_offset):
-            "Get a traf box but with modified offset."
-            traf = fragment.traf
+            "Get a traf box but with modified offset. All offsets are relative to the moof box (default-base-is-moof)."
+            flags_pos = fragment.tfhd_pos + 8
+            tfhd_flags = str_to_uint32(fragment.traf[flags_pos:flags_pos+4]) | 0x020000
+            traf = fragment.traf[:flags_pos] + uint32_to_str(tfhd_flags) + fragment.traf[flags_pos+4:]
             for trun_data_offset, offset in fragment.trun_data_offsets:
                 new_data_offset = trun_data_offset + delta_offset
                 traf = traf[:offset] + uint32_to_str(new_data_offset) + traf[offset+4:]
-- 
2.43.0


From c92593e8b28287993e58e5d0bf4faf3f738ccee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:32 +0000
Subject: [PATCH 69/70] fix: give the time of a segment in SegmentTimelines
 wherever it is not the end of the one before

The media is usually not exactly as long as the loop. Without an explicit time
after the wrap, all later segments were listed with wrong times, which changed
with the time-shift buffer from one MPD to the next.
---
 dashlivesim/dashlib/segtimeline.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 3bac92e..ee4d584 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -134,11 +134,14 @@ class SegmentTimeLineGenerator(object):
             seg_data = self.segtimedata[repeat_index]
             s_elem = self.generate_s_elem(None, seg_data.duration, last_repeat)
             seg_timeline.insert(0, s_elem)
+            entry_start = self.get_seg_starttime(nr_wraps, repeat_index, 0)
             repeat_index -= 1
             if repeat_index < 0:
                 nr_wraps -= 1
                 repeat_index = len(self.segtimedata) - 1
             last_repeat = self.segtimedata[repeat_index].repeats
+            if entry_start != self.get_seg_endtime(nr_wraps, repeat_index, last_repeat):
+                s_elem.set("t", str(entry_start))  # E.g. when the media is not exactly as long as the loop
         # Now at first entry corresponding to start_index and start_wraps
         seg_data = self.segtimedata[start_index]
         seg_start_time = self.get_seg_starttime(nr_wraps, start_index, start_repeats)
-- 
2.43.0


From 8c87b3c0c8c32643e68b0730165c49066e0d44dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:18 +0000
Subject: [PATCH 70/70] fix: do not merge segments of equal duration with gaps
 between them in the timing file

---
 dashlivesim/vodanalyzer/dashanalyzer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/vodanalyzer/dashanalyzer.py b/dashlivesim/vodanalyzer/dashanalyzer.py
index a4744da..5f51643 100644
--- a/dashlivesim/vodanalyzer/dashanalyzer.py
+++ b/dashlivesim/vodanalyzer/dashanalyzer.py
@@ -206,7 +206,8 @@ class DashAnalyzer(object):
                         tfdt = msf.get_tfdt_value()
                         duration = msf.get_duration()
                         print("{0} {1:8d} {2}  {3}".format(content_type, segNr, tfdt, duration))
-                        if duration == lastDuration:
+                        expectedTime = firstStartTimeInRepeat + (repeatCount + 1)*duration
+                        if duration == lastDuration and tfdt == expectedTime:
                             repeatCount += 1
                         else:
                             if lastDuration != 0 and rep_nr == 0:
-- 
2.43.0

