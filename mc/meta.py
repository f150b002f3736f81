"""Properties: statements, anchors and how each check decides them (source of properties.jsonl and MANIFEST.json)."""
D = "dashlivesim/dashlib/"
W = "dashlivesim/mod_wsgi/mod_dashlivesim.py"
P = []


def prop(pid, title, statement, over, quant, why, files, mech, technique, note, state=(), observe=("WSGI application()",)):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=list(over), text=quant), why_tests_cant=why,
                  anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None),
                  technique=technique, note=note))


prop("C01", "Media segments are served exactly inside their availability window",
     "A media segment requested by number is served (200) from the instant its interval ends, counted from availabilityStartTime and start number "
     "and moved earlier by availabilityTimeOffset (with 'inf': from availabilityStartTime on), until one segment duration plus the time-shift buffer "
     "depth after that end. At every other instant, and for every number below the first or beyond the last segment of the session, the answer is a "
     "404 that says so; availability of a segment never depends on which representation is asked for.",
     ("inputs", "configurations", "histories"),
     "for every asset, every combination of start/snr/ato/tsbd/timeoffset/stop/dur, every segment number and every (fractional) instant",
     "Tests sample a handful of (now, segment) pairs of one asset; boundary instants, fractional clocks and option combinations are not reached.",
     [D + "dash_proxy.py", D + "configprocessor.py", W],
     [("time window test", D + "dash_proxy.py process_media_segment/get_media"), ("option parsing", D + "configprocessor.py process_url")],
     "explicit-state exploration of the served timeline against a reference availability model",
     "Every segment x boundary instant of each explored session is requested from the real WSGI entry point under a virtual clock and compared with an exact rational-arithmetic model.",
     [("now", "wall clock", "time.time")])

prop("C02", "Live segments are the looped VoD samples, byte for byte",
     "The media segment for number n carries, unchanged and in order, all samples (payload bytes, durations, composition offsets, effective sample flags) of VoD segment "
     "first + (interval index modulo loop length), where the interval index counts segment durations from the media time at the session start. "
     "Nothing else of the stored segment's payload is lost, duplicated or altered by loop wrap-around, start number, time offset or inserted boxes.",
     ("inputs", "configurations"),
     "for every representation, segment number (several loops, far future), start number, start time, time offset and packaging of the stored segment",
     "Tests compare a few segments of one recording and never check payload identity across the loop wrap.",
     [D + "dash_proxy.py", D + "mediasegmentfilter.py"],
     [("loop arithmetic", D + "dash_proxy.py process_media_segment"), ("box rewriting", D + "mediasegmentfilter.py MediaSegmentFilter")],
     "exhaustive enumeration of segment numbers x options; independent ISO-BMFF parser compares samples with the generated source",
     "Exhaustive within the stated bounds; the source assets and the parser are independent of the code under test.")

prop("C03", "Decode timeline is continuous, monotonic and wall-clock anchored",
     "Within a session the base media decode time of consecutive live segments of a representation advances by exactly the sum of the sample durations served, including across loop "
     "boundaries, without gap, overlap or wrap below 2^64. The decode time of a segment equals its VoD decode time plus completed loops times loop duration in the representation's timescale, "
     "independent of when or with which start number it is requested; the sequence number equals the requested number.",
     ("inputs", "configurations", "histories"),
     "for every representation timescale, every run of consecutive numbers over several loops from epoch to beyond 32-bit tick counts, every start/snr/timeoffset",
     "Tests look at single segments; the 32/64-bit decode-time boundary and the wrap of irregular audio segments are not sampled.",
     [D + "mediasegmentfilter.py", D + "dash_proxy.py", D + "structops.py"],
     [("tfdt rewrite", D + "mediasegmentfilter.py process_tfdt"), ("loop offset", D + "dash_proxy.py process_media_segment")],
     "walk of consecutive segments (state = decode time) with an invariant on every transition",
     "Walks cover wraps and 32-bit boundaries; sequence numbers below 2^32 only.")

prop("C04", "Rewritten segments stay structurally valid ISO-BMFF",
     "For every supported packaging of a stored media segment (styp or not, sidx versions, tfdt 32/64 bit, defaults in trun/tfhd/trex, encryption auxiliary data, inserted sidx or emsg), the live "
     "segment is a well-formed sequence of boxes whose sizes nest exactly, whose data offsets address exactly the sample payload, and whose auxiliary information offsets still address the original auxiliary bytes. "
     "A sidx, present or inserted on request, describes exactly the segment it precedes (track, timescale, earliest time, duration, byte size), and 'lmsg' is added to the brands only on the last segment of a session or period.",
     ("inputs", "configurations"),
     "for every combination of box-packaging options x rewriting options (32/64-bit tfdt growth, sidx_1, emsg insertion, lmsg)",
     "The test asset has a single packaging; offsets that shift when boxes grow are never parsed back.",
     [D + "mediasegmentfilter.py", D + "boxes.py", D + "emsg.py"],
     [("offset fix-ups", D + "mediasegmentfilter.py process_trun/process_saio/process_traf"), ("sidx insertion", D + "mediasegmentfilter.py insert_sidx")],
     "exhaustive enumeration of packaging combinations checked by a strict independent parser",
     "All subsets of the packaging options listed in DESIGN.md are enumerated.")

prop("C05", "Whatever the MPD advertises, the server delivers ($Number$)",
     "At every instant, each segment that a conforming client derives from the single-Period MPD just fetched (addresses, start number, presentation time offset, duration, availability offset, time-shift buffer, BaseURL) "
     "is served, has the sequence number and media time the MPD implies, and the segment after the derived live edge is refused; the newest complete segment is always among those derived. Initialization segments advertised by an MPD are served from availabilityStartTime on.",
     ("inputs", "configurations", "histories"),
     "for every instant and every combination of start, snr (including the default), ato, tsbd, timeoffset, and single extras, for every asset and VoD MPD layout",
     "Tests check MPD text and segment timing separately for single configurations; the cross-product with a client's derivation rules is not tested.",
     [D + "mpd_proxy.py", D + "mpdprocessor.py", D + "dash_proxy.py", D + "configprocessor.py"],
     [("MPD values", D + "mpd_proxy.py generate_dynamic_mpd"), ("segment lookup", D + "dash_proxy.py process_media_segment")],
     "exhaustive MPD x instant enumeration with an independent DASH client model driving the real server",
     "The client model derives all segments from the MPD and fetches the window edges, middle, and the one beyond the live edge.")

prop("C06", "SegmentTimeline MPDs list exactly the servable segments",
     "With segtimeline_1 or segtimelinenr_1, for every AdaptationSet with timing data, the listed segments are exactly those complete at the current instant whose interval overlaps the time-shift buffer (contiguous, "
     "except where the stored media itself leaves a gap or overlap, inside the loop or where it starts again; without unfinished segments; empty before the first one completes); each S entry gives the exact decode time and duration of the segment. Every listed segment is served through its $Time$ or $Number$ address, "
     "with exactly that decode time and total duration.",
     ("inputs", "configurations", "histories"),
     "for every instant over several loops, every asset (regular, irregular, single-entry tables), tsbd, start time, start number and time offset",
     "Tests compare one MPD at a few instants and never fetch the listed segments; run-length merging and wraps have many cases.",
     [D + "segtimeline.py", D + "mpdprocessor.py", D + "dash_proxy.py"],
     [("timeline generation", D + "segtimeline.py create_segtimeline"), ("time address lookup", D + "dash_proxy.py process_media_segment")],
     "exhaustive instants x options; listed S entries compared with a reference list and fetched",
     "Instants are enumerated at every segment boundary (and around it) over more than two loops.")

prop("C07", "SegmentTimeline updates only slide: old entries never change",
     "Between any two fetches of a SegmentTimeline MPD of the same session, every segment listed in both has identical time, duration, number and address; the first and last listed segments never move backwards, and consecutive lists "
     "cover the timeline without skipping a segment.",
     ("histories", "inputs"),
     "for every pair of fetch instants in an update history (all adjacent segment-boundary instants and larger jumps)",
     "Existing tests look at one MPD at a time; stability is a relation between successive MPDs.",
     [D + "segtimeline.py", D + "mpdprocessor.py"], [("timeline generation", D + "segtimeline.py create_segtimeline")],
     "exploration of all update histories (pairs of fetch instants) with a relational invariant",
     "All pairs within a bounded horizon of instants.")

prop("C08", "Multi-period MPDs partition one continuous presentation",
     "With periods_n (also with continuous_1, early-terminated periods, segmentTimeline, start, snr or timeoffset) the MPD's Periods tile the session timeline in order without gap or overlap, cover the whole time-shift buffer up to and beyond the current time, "
     "and keep their id, start and content from one MPD to the next. Every segment derivable from any Period is served with the presentation time its Period implies; period-continuity descriptors name the directly preceding Period, and MPD-callback events appear exactly in the requested fraction of Periods. "
     "periods_0 gives one Period starting 1000 h after the session's start; numbers of Periods that are not offered, and fractions or early terminations that do not fit, are refused.",
     ("inputs", "configurations", "histories"),
     "for every period rate, every instant around period boundaries, combined with start/snr/timeoffset/etp/mpdcallback/continuous",
     "Tests cover two rates at single instants with availabilityStartTime 0.",
     [D + "mpd_proxy.py", D + "mpdprocessor.py"], [("period generation", D + "mpd_proxy.py generate_period_data"), ("period writing", D + "mpdprocessor.py update_periods")],
     "exhaustive period-rate x instant enumeration with client model and relational invariant over MPD histories",
     "All legal rates; instants around period boundaries, mid-period and update instants.")

prop("C09", "Remote (xlink) Periods resolve to exactly the Periods they replace",
     "With xlink_m, exactly the requested fraction of Periods is replaced by xlink references (ads variants: never the first Period), all other Periods are unchanged from the MPD without xlink, and the MPD stays well-formed. "
     "Each non-ad reference resolves, at any time while the period is in the MPD, to a single Period element identical in id, start, and segment information to the one it replaces. Fractions that are not whole, remote Periods without Periods, and ads without remote Periods are refused; a Period followed by an ad states its duration.",
     ("inputs", "configurations", "histories"),
     "for every legal pair (periods per hour, xlinks per hour), every insertad mode and every instant",
     "Tests check that a string was replaced at one instant.",
     [D + "mpd_proxy.py"], [("xlink rewriting", D + "mpd_proxy.py generate_response_with_xlink")],
     "exhaustive configuration x instant enumeration comparing MPD with and without xlink and resolving every reference",
     "All legal (periods, xlink) pairs at instants around period boundaries.")

prop("C10", "Time-limited sessions announce and honour their end",
     "For start_S/dur_D[/dur_E...] the MPD announces the end time (and total duration) of the current duration, and switches to the next one in the second after the instant two update periods before the announced end (at that instant it still announces the old one), never announcing an end that later shrinks. "
     "The last segment, and only it, carries the 'lmsg' brand; segments after it do not exist, and from 60 s after the announced final end no media segment is served.",
     ("histories", "inputs", "configurations"),
     "for every duration list, start time, start number, update period and every instant of the session's life cycle",
     "Tests check one or two instants of one session.",
     [D + "configprocessor.py", D + "dash_proxy.py", D + "mpd_proxy.py"], [("end-time selection", D + "configprocessor.py update_with_aet"), ("late requests", D + "dash_proxy.py get_media")],
     "life-cycle exploration: every second (and boundary fraction) of each session compared with a session model",
     "Session durations that are a whole number of segments.")

prop("C11", "Start-over sessions are consistent from start to static end",
     "For start/stop (absolute or relative) with or without timeoffset, the MPD is dynamic before and static after the stop time, with the media presentation duration between the segment-aligned start and stop, and every segment of the whole programme so far available "
     "stays available. With relative times the MPD gives a Location (not a BaseURL) in which each relative time is replaced by the corresponding absolute one, and following it yields the same session at any later instant.",
     ("histories", "inputs", "configurations"),
     "for every start, stop, relative offsets, time offset and instant before, during and after the programme",
     "Tests check single MPDs for a single pair of start/stop.",
     [D + "configprocessor.py", D + "mpdprocessor.py", D + "mpd_proxy.py", D + "dash_proxy.py"], [("start/stop handling", D + "configprocessor.py process_start_time"), ("Location", D + "mpdprocessor.py process_mpd_children")],
     "life-cycle exploration against a session model, following Location at all later instants",
     "Start/stop lists and instants enumerated.")

prop("C12", "Modulo sessions repeat on schedule and never overlap",
     "With modulo_M every instant of the hour belongs to exactly the scheduled session: availabilityStartTime, duration, end time and update period follow the documented schedule, depend only on the clock, and are constant within a session. "
     "Each session's segments are numbered from its own start, all segments up to its announced duration are served and nothing after.",
     ("inputs", "histories"),
     "for every M dividing 60 and every second of the hour (several hours)",
     "Tests check a few instants for one M.",
     [D + "moduloperiod.py", D + "configprocessor.py", D + "dash_proxy.py"], [("schedule", D + "moduloperiod.py ModuloPeriod")],
     "exhaustive enumeration of all seconds of the hour for every M against the documented schedule",
     "Complete enumeration of one hour for each M.")

prop("C13", "Initialization segments are live-ready and otherwise untouched",
     "The initialization segment of a representation is the stored one with its movie, track, media (and fragment) durations set to zero and every other byte unchanged. It is available from availabilityStartTime minus the init_N advance on, and refused before.",
     ("inputs", "configurations"),
     "for every box-version combination of the stored init segment, every representation and every instant around the availability limit",
     "Tests check one duration field of one file.",
     [D + "initsegmentfilter.py", D + "dash_proxy.py"], [("duration zeroing", D + "initsegmentfilter.py InitLiveFilter"), ("availability", D + "dash_proxy.py get_init")],
     "exhaustive enumeration of init-segment layouts and instants, byte-level oracle",
     "All combinations of header versions and optional boxes listed.")

prop("C14", "Multiplexed segments contain both tracks intact",
     "For a request naming two representations joined by '__', the init segment declares both tracks with their own ids, timescales, sample descriptions and defaults, and each media segment carries for each track exactly the samples, decode time, durations and flags "
     "of the corresponding single-track live segment, correctly addressed, together with the events (emsg) of both.",
     ("inputs", "configurations"),
     "for every pair of representations and packagings, every segment over more than one loop",
     "Tests check box sizes of one muxed segment.",
     [D + "segmentmuxer.py", D + "dash_proxy.py"], [("init mux", D + "segmentmuxer.py MultiplexInits"), ("media mux", D + "segmentmuxer.py MultiplexMediaSegments")],
     "exhaustive enumeration of pairs x segments, differential oracle against the single-track responses",
     "Packagings supported by the muxer (see DESIGN.md).")

prop("C15", "Low-latency chunks are the same segment, cut at sample boundaries",
     "With chunkdur_D, the response for a segment consists of consecutive fragments (movie fragment plus data, the brands and events of the segment once, ahead of the first) that together contain exactly the samples (bytes, durations, composition offsets, effective flags) and decode times of the segment "
     "served without chunking, each fragment starting where the previous one ended. The i-th chunk ends at the first sample boundary at or after i*D from the start of the segment (D not shorter than a sample), and is delivered as a unit.",
     ("inputs", "configurations"),
     "for every chunk duration, packaging and segment",
     "Tests count chunks of one segment.",
     [D + "chunker.py", D + "dash_proxy.py", W], [("chunking", D + "chunker.py chunk")],
     "exhaustive enumeration of chunk durations x packagings with differential oracle",
     "Durations from one sample to beyond the segment.")

prop("C16", "Low-latency chunks are delivered on the live schedule",
     "In low-latency mode, chunk i of a segment is sent at the wall-clock instant at which it would have been produced (segment start, counted from availabilityStartTime and start number, plus i*D but not beyond the segment end, less a fixed margin of 0.1 s), or immediately if that instant has passed when the request arrives; "
     "a finished segment is sent without delay. A segment can be requested from the availability time offset advertised in the MPD before its end, and not earlier.",
     ("schedules", "inputs", "configurations"),
     "for every arrival instant, chunk duration, start time/start number/timeoffset combination",
     "Tests use real time for one case with availabilityStartTime 0.",
     [W, D + "dash_proxy.py", D + "chunker.py"], [("pacing loop", W + " generate_response"), ("segment start", D + "dash_proxy.py process_media_segment ChunkedSegment")],
     "virtual-clock exploration of all arrival instants; every emission time compared with the schedule",
     "sleep() advances the virtual clock; emission instants are exact.")

prop("C17", "SCTE-35 messages announce every scheduled splice exactly once",
     "With scte35_N (N = 1..3) every minute of the media timeline has exactly N splice events at fixed seconds (the first at 10 s), each announced by an emsg in a video segment that starts at least 6 s before it; every announcement is well-formed and consistent (scheme, event time and duration equal to the splice time and break duration in the message data, "
     "same id in both), repeated announcements of an event are identical, and ids of different events differ. This holds however the video is delivered: plain, in low-latency chunks or multiplexed. Other segments carry no such message, and the MPD signals the event stream exactly for video.",
     ("inputs", "histories", "configurations"),
     "for every N, segment duration, start number, and every segment over whole hours",
     "Tests parse one message.",
     [D + "scte35.py", D + "mediasegmentfilter.py", D + "mpdprocessor.py"], [("schedule", D + "scte35.py Scte35Emsg"), ("insertion", D + "mediasegmentfilter.py process_styp")],
     "walk of all segments over hours of media with an exactly-once monitor and an independent splice decoder",
     "Segment durations 1..12, 15, 20, 30 s; unchunked, unmultiplexed segments.")

prop("C18", "Simulated BaseURL outages follow their pattern exactly",
     "For baseurl_uX_dY and baseurl_dX_uY, a media segment request is answered exactly as without the option while the pattern (restarted at the start of each minute; second 0 itself is up) says up, and 404 while it says down; "
     "with several such options the MPD lists one BaseURL per pattern, in order, each selecting exactly that pattern with identical remaining options. "
     "In the last second before a u..d outage media segments (also in chunks or multiplexed) carry an end-of-timeline event and are otherwise unchanged, and with segtimelineloss_1 the SegmentTimeline stands still during the outage at its state in that second.",
     ("inputs", "histories", "configurations"),
     "for every pattern and every second of the minute",
     "Tests check a few seconds for one pattern.",
     [D + "dash_proxy.py", D + "mpd_proxy.py", D + "mpdprocessor.py"], [("outage test", D + "dash_proxy.py get_media"), ("frozen MPD", D + "mpd_proxy.py get_mpd")],
     "exhaustive enumeration of patterns x all seconds of a minute",
     "Patterns with 1..60 s parts; whole seconds (the code quantizes to seconds).")

prop("C19", "Byte-range requests return exactly the requested bytes",
     "A request for any live resource with a single valid byte range (first-last, first-, -suffix) is answered 206 with exactly those bytes of the full response, a correct Content-Range and Content-Length. "
     "Ranges beyond the resource, unsupported or malformed range headers never yield a wrong or truncated body labelled as success: the answer is the complete 200 response or 416.",
     ("inputs",),
     "for every first/last/suffix pair over a resource, and malformed variants",
     "Tests check one range.",
     [W], [("range handling", W + " handle_byte_range")],
     "exhaustive enumeration of ranges (all pairs over small resources) and a grammar of malformed headers",
     "All (first,last) pairs over resources of a few hundred bytes.")

prop("C20", "Every request gets exactly one well-formed HTTP response",
     "Whatever the URL path (options in any order, bad values, missing parts, unknown content or extension) and headers, the server answers with exactly one response start with a known status, string headers, a Content-Length equal to the body length (unless chunked low-latency delivery), CORS and no-cache headers, and a content type matching the extension or text/plain for errors. "
     "It never lets an exception escape, never answers 200 with an error text, and order of options does not change the response.",
     ("inputs", "configurations"),
     "for every URL from a grammar over all option keys, values (valid and invalid), contents, and extensions",
     "Tests request valid URLs only.",
     [W, D + "configprocessor.py", D + "dash_proxy.py"], [("entry point", W + " application"), ("URL parsing", D + "configprocessor.py process_url")],
     "exhaustive enumeration of a bounded URL grammar with a WSGI-protocol monitor",
     "All single options with all value classes, all ordered pairs of options.")

prop("C21", "Requests are independent: concurrency and order do not matter",
     "The response to a request depends only on its URL, headers, the clock and the stored content: it is the same whatever requests were served before it or are being served at the same time by other threads of the server process.",
     ("schedules", "histories"),
     "for every pair/triple of concurrent requests and every interleaving up to a preemption bound, and every short request history",
     "Tests are single-threaded and create fresh objects.",
     [W, D + "dash_proxy.py", D + "mpd_proxy.py", D + "mpdprocessor.py", D + "configprocessor.py"],
     [("per-request provider object", W + " application"), ("default headers", W + " start_reply")],
     "stateless model checking of the real code: controlled scheduler at line granularity with a preemption bound, plus all request histories to a depth",
     "Preemption bound and scheduling granularity stated in evidence; CPython bytecode-level races inside one line are not explored.", observe=("WSGI application() called from several threads",))

prop("C22", "Session limits redirect once and end sessions on time",
     "With a maximum session length L configured, an MPD request without a session start is redirected (302) to the same URL with the current time and a unique session id inserted and query kept; the redirected URL, and segment URLs with the session start, are served normally until L seconds after the session start and answered 410 after. "
     "Segment requests without a session start and sessions starting in the future are refused; without a limit configured the parameters have no effect.",
     ("inputs", "histories", "configurations"),
     "for every URL shape, limit, and instant relative to the session start",
     "Tests check a few instants.",
     [W, D + "sessionid.py"], [("session limiting", W + " application")],
     "exhaustive enumeration of URL shapes x session offsets x limits",
     "Session length set through the module's configuration variable.")

prop("C23", "Requests never read outside the content and configuration roots",
     "For every request path, including dot-dot, absolute, encoded, empty and mixed components in any position, the server opens no file outside its configured content root and VoD-configuration directory, and never returns their bytes.",
     ("inputs",),
     "for every path of bounded length over an alphabet of hostile components in every position",
     "Tests use only well-formed paths.",
     [W, D + "dash_proxy.py", D + "configprocessor.py", D + "mpd_proxy.py"], [("path construction", D + "dash_proxy.py filter_media_segment/process_init_segment"), ("config path", D + "configprocessor.py process_url")],
     "exhaustive enumeration of hostile paths with an audit-hook monitor on every file open",
     "Runs in a scratch directory with decoy files; only reads occur.")

prop("C24", "The VoD analyzer produces a configuration that serves the content exactly",
     "For every VoD asset (video and audio) in the supported format, the analyzer's configuration and timing files give the correct first segment, number of segments, segment duration, timescales, representation lists, total durations, and run-length table (each entry reconstructing every segment's number, start and duration exactly). "
     "If representations have different numbers of segments, this describes the segments all have; content with a missing segment or a drift of more than 100 ms is refused. "
     "Serving the asset with the generated configuration yields exactly the responses obtained with a correct configuration.",
     ("inputs",),
     "for every asset shape (regular/irregular segments, header versions, number of segments, first number, representations)",
     "Tests do not run the analyzer.",
     ["dashlivesim/vodanalyzer/dashanalyzer.py", "dashlivesim/vodanalyzer/mpdprocessor.py", D + "mediasegmentfilter.py", D + "initsegmentfilter.py", D + "configprocessor.py"],
     [("analysis", "dashlivesim/vodanalyzer/dashanalyzer.py DashAnalyzer"), ("config writing", D + "configprocessor.py write_config")],
     "exhaustive enumeration of asset shapes; generated configuration compared with the generator's ground truth and round-tripped through the server",
     "Runs in a scratch directory.", observe=("DashAnalyzer output files", "WSGI application()"))

prop("C25", "Subtitle times are shifted exactly by the live offset",
     "In live TTML subtitle segments every begin/end time (hh:mm:ss with any fraction or frames) equals the stored time plus completed loops times loop duration, with hours beyond 99 where needed, "
     "and language-time texts ('en : hh:mm:ss') show the corresponding UTC time and 'Segment # N' the live number. All other text, and all other tracks, are unchanged; the sample size, data offsets and box sizes match the new text, "
     "plain, multiplexed or in chunks.",
     ("inputs", "configurations"),
     "for every time format and value class, loop count and segment",
     "Tests check a few strings.",
     [D + "ttml_timing_offset.py", D + "mediasegmentfilter.py"], [("time adjustment", D + "ttml_timing_offset.py"), ("resize", D + "mediasegmentfilter.py process_mdat/process_trun")],
     "exhaustive enumeration of time expressions x offsets and of segments over loops",
     "Times hh:mm:ss.mmm and hh:mm:ss in p elements.")

prop("C26", "Generated subtitle tracks are valid and exactly timed",
     "For every number of segments, segment duration, time-stamp resolution dividing it, language, track id and name format, the subtitle generator writes an init segment and the media segments 1..n as valid ISO-BMFF files "
     "with one track id everywhere, timescale 1000, the given language, consecutive sequence numbers, and decode times and durations that tile the timeline. "
     "Every segment holds one well-formed TTML document whose cues have unique ids, tile exactly the interval of the segment and show language and start time; served live, they move with the timeline.",
     ("inputs",),
     "for every parameter combination, segment and cue",
     "No test runs the generator.",
     [D + "stpp_generator/make_stpp_segments.py", D + "stpp_generator/stpp_creator.py"],
     [("segments", D + "stpp_generator/stpp_creator.py create_media_segment"), ("documents", D + "stpp_generator/make_stpp_segments.py")],
     "exhaustive enumeration of generator parameters; every output file judged by an independent strict parser and a timeline model",
     "Segment durations are multiples of the resolution.", observe=("generator output files", "WSGI application()"))

prop("C27", "Closed captions land in exactly the right pictures",
     "The caption inserter puts every caption of the SCC file, in order and complete, as CEA-608 SEI NAL units of the chosen field before the first slice of exactly the picture whose decode interval contains the caption's time code. "
     "All other bytes of the segment are kept and all sizes follow; segments without captions are not changed, no more than the given number of segments is processed, and content with a missing segment is refused.",
     ("inputs",),
     "for every time code, picture structure, fragment packaging, caption length and number of segments",
     "No test runs the inserter.",
     ["dashlivesim/cc_inserter/cc_inserter.py", "dashlivesim/cc_inserter/mpdprocessor.py", D + "mp4filter.py"],
     [("assignment to pictures", "dashlivesim/cc_inserter/cc_inserter.py CCInsertFilter.process_trun"), ("insertion", "dashlivesim/cc_inserter/cc_inserter.py CCInsertFilter.process_mdat")],
     "exhaustive enumeration of time codes, NAL structures and packagings; every output segment compared with one rebuilt by the model",
     "One video representation, one trun with sizes and data offset, no sidx.", observe=("inserter output files",))

prop("C28", "MPD metadata follows the request",
     "The live MPD carries exactly the requested UTC timing methods in order ('direct' equal to the current time, 'head' on the host and protocol of the request), suggested presentation delay, availability time offset, update period, "
     "event-stream and profile signalling, time-shift buffer depth, segment duration, start number, offsets and publish time, and a BaseURL with the protocol, host and options of the request. "
     "Low-latency sessions signal service description, profile, producer reference time, availabilityTimeComplete=false and a timing method; everything else in every Period is identical to the VoD MPD.",
     ("inputs", "configurations"),
     "for every subset/order of options and every instant",
     "Tests check single attributes.",
     [D + "mpdprocessor.py", D + "mpd_proxy.py"], [("MPD element", D + "mpdprocessor.py process_mpd"), ("children", D + "mpdprocessor.py process_mpd_children")],
     "exhaustive enumeration of option subsets with an element-by-element MPD diff oracle",
     "All subsets up to size 3 of the metadata options.")

prop("C29", "Every MPD and remote Period follows the DASH MPD schema",
     "Whatever VoD MPD and combination of options, every MPD and every remote Period sent is well-formed XML with all namespaces bound, and follows the DASH MPD schema: children of MPD, Period, AdaptationSet and SegmentTemplate come in the order of the schema, "
     "elements that may occur once occur at most once, mandatory attributes and the ones required for dynamic or static MPDs are present, and every attribute has its data type. "
     "Period, AdaptationSet and ServiceDescription ids are unique; options that go together are never refused, and links to remote Periods reach them.",
     ("inputs", "configurations"),
     "for every VoD MPD layout, every combination of options and every instant",
     "Tests compare single attributes of MPDs made from one layout.",
     [D + "mpdprocessor.py", D + "mpd_proxy.py"], [("insertion of elements", D + "mpdprocessor.py process_mpd_children/update_periods"), ("remote Periods", D + "mpd_proxy.py generate_response_with_xlink")],
     "exhaustive enumeration of option subsets with a schema checker as monitor",
     "All subsets of up to 3 of 40 option groups, over VoD MPDs with children at every place where elements are inserted.")

prop("C30", "Thumbnail tracks follow the same timeline as media",
     "Thumbnails addressed by number are available in exactly the same window, with the same numbering, looping, limits and refusals as media segments of the session, and are the stored images unchanged.",
     ("inputs", "configurations"),
     "for every start/snr/ato/tsbd/timeoffset/stop/dur and number and instant",
     "There is one test for one thumbnail.",
     [D + "dash_proxy.py"], [("thumbnails", D + "dash_proxy.py process_thumbnail")],
     "explicit-state exploration against the same availability model as C01",
     "As C01.")

prop("C31", "32-bit sessions keep decode times below 2^32 and restart every 3 hours",
     "With tfdt_32 the session restarts on every 3-hour boundary of the clock with availabilityStartTime there and an availabilityEndTime and duration of 3 hours, segments are numbered from that start (startNumber honoured), media time 0 is there, and every segment served fits its decode time in 32 bits (32-bit fields stay 32-bit) "
     "while its content and continuity within the session are as in a normal session. Outside the session's own window no segment is served.",
     ("inputs", "histories"),
     "for every instant around the 3-hour boundaries and every segment of a session",
     "No test exercises it.",
     [D + "configprocessor.py"], [("session reset", D + "configprocessor.py update_for_tfdt32")],
     "enumeration of boundary instants and all segments of sessions against the session model",
     "Timescales up to 90000.")

prop("C32", "ISO 8601 durations and timestamps are exact",
     "Durations and timestamps written in MPDs are valid ISO 8601 and denote exactly the given whole number of seconds; parsing a written duration returns it. "
     "Durations in days, hours, minutes and seconds are read as their whole seconds, and anything that is not a duration is refused.",
     ("inputs",),
     "for every whole number of seconds in several ranges (0..400 days, epoch to year 2106)",
     "Tests check a few values.",
     [D + "timeformatconversions.py"], [("conversions", D + "timeformatconversions.py")],
     "exhaustive enumeration of value ranges with independent parser",
     "All integers in the stated ranges.", observe=("conversion functions",))

prop("C33", "The stand-alone server and the WSGI contract",
     "The stand-alone server answers every HTTP request with the status, headers and body that the application produces for it, sends each chunk before it waits for the next, "
     "and keeps serving when a client goes away at any point of a response. The application obeys the WSGI rules for every request: one start of the response before any body, "
     "well-formed headers, byte bodies, and its response can be abandoned after any part.",
     ("inputs", "schedules", "crash points"),
     "for every request kind x Range x Host, every arrival instant of a chunked request and every disconnect point",
     "No test starts the server or checks the WSGI rules.",
     ["dashlivesim/mod_wsgi/mod_dashlivesim.py"], [("server", "dashlivesim/mod_wsgi/mod_dashlivesim.py main"), ("application", "dashlivesim/mod_wsgi/mod_dashlivesim.py application")],
     "enumeration of requests, arrival instants and disconnect points over loopback HTTP below the virtual clock, compared with the application; WSGI rules checker on every request",
     "HEAD bodies are not judged.")

prop("C34", "The configuration of a content decides what is served of it",
     "A representation (alone or multiplexed with another) is served exactly when the configuration of its content declares it, whatever else is declared; the declared time-shift buffer depth holds in MPD and segment availability unless the URL gives one, and the declared number of segments is what loops. "
     "How the file is laid out (order of sections and options, spacing, line ends, comments, letter case of options, unknown entries) makes no difference, and versions 1.0 and 1.1 differ in timelines only. "
     "A content whose configuration is missing, incomplete, malformed or of an unknown version is refused in every kind of request, and its neighbours are served as before.",
     ("configurations", "inputs"),
     "for every configuration (layout x version x set of declared representations x buffer depth, and every way of being unusable) and every kind of request",
     "Tests read one configuration.",
     [D + "configprocessor.py"], [("reading the configuration", D + "configprocessor.py VodConfig.read_config"), ("representations", D + "configprocessor.py update_with_reps/content_type_for_rep")],
     "exhaustive enumeration of configurations x requests through the WSGI entry point, against declared sets, buffer depths and the canonical layout",
     "Configurations are not edited while they are in use.")
