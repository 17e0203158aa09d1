"""Regenerates /verif/properties.jsonl (the properties are edited here)."""
import json, pathlib

P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

Q = "quakemigrate/"

prop("C01", "4-D coalescence is the geometric mean of time-shifted onsets",
 "For every grid node and every sample of the scan window, the migrated coalescence equals exp of (the sum of the natural logs of each onset function, clipped below at 0.01, read at that sample plus the node's traveltime for that onset and the leading pad, divided by the number of available onsets). Negative traveltimes count as zero. The output has exactly one value per node and per sample between the leading and trailing pads, whatever the number of onsets, grid shape, pads or threads, and inputs are not modified; mismatched numbers of onsets and traveltime tables are refused.",
 ["inputs", "configurations"], "all onset arrays over a small value alphabet x all traveltime assignments x pads x grid shapes x thread counts",
 "No stable test calls the migration at all; a benchmark comparison of one data set cannot separate one wrong index or pad from noise.",
 [Q+"core/src/migratelib.c", Q+"core/lib.py", Q+"signal/scan.py"],
 [("migrate (C)", Q+"core/src/migratelib.c"), ("migrate wrapper", Q+"core/lib.py")], ["return value of quakemigrate.core.lib.migrate"])

prop("C02", "Parallel migration and peak search give the same answer on any schedule",
 "The 4-D coalescence and its per-sample maxima do not depend on how many threads compute them, on how work is split between the threads, or on how the threads are interleaved: every schedule gives bitwise the same result as one thread, and every element of the output is computed.",
 ["schedules", "configurations"], "all thread counts 1..N, all grid sizes around multiples of the thread count, and all interleavings of the parallel regions (up to equivalence / a preemption bound)",
 "Races in OpenMP loops show up on rare schedules; no test runs with more than one thread, and a run only samples the schedule the OS picked.",
 [Q+"core/src/migratelib.c", Q+"core/lib.py"],
 [("omp parallel for with private lists", Q+"core/src/migratelib.c")], ["output arrays of the C library under a controlled OpenMP runtime"])

prop("C03", "Peak coalescence, its location and normalisation are exact per sample",
 "For every time sample the reported maximum coalescence is the largest value over all grid nodes, the reported node is one at which that value occurs, and the normalised value is the maximum times the number of nodes divided by the sum over all nodes. The coordinate reported for the sample is the position of that node.",
 ["inputs"], "all 4-D maps over a small alphabet (with ties, constant maps, every position of the maximum), all small grid shapes and thread counts",
 "No stable test covers the peak search; the position of the maximum, ties and first/last nodes are combinatorial.",
 [Q+"core/src/migratelib.c", Q+"core/lib.py", Q+"lut/lut.py"], [("find_max_coa", Q+"core/lib.py")], ["return value of find_max_coa"])

prop("C04", "STA/LTA equals its window definition on every signal",
 "The classic STA/LTA at a sample is the mean of the last nsta samples divided by the mean of the last nlta samples ending there; the centred STA/LTA at a sample is the mean of the next nsta samples divided by the mean of the nlta samples ending there; the recursive one follows its recursion. Samples without complete windows, and windows whose long-term average is zero, take the value 1, the output always has the input's length, and the compiled and pure-Python implementations agree.",
 ["inputs"], "all signals over a small alphabet up to a length x all (nsta <= nlta) windows that fit, including all-zero stretches and windows as long as the signal",
 "The existing onset test runs one synthetic signal through one window pair and never compares implementations or reaches silent windows.",
 [Q+"core/src/onsetlib.c", Q+"core/lib.py", Q+"signal/onsets/stalta.py"],
 [("overlapping/centred/recursive_sta_lta", Q+"core/src/onsetlib.c"), ("python backend", Q+"signal/onsets/stalta.py")], ["core.lib.*_sta_lta", "signal.onsets.stalta.sta_lta_onset / sta_lta_centred"])

prop("C05", "Continuous detect output holds every sample exactly once, whatever fails",
 "After a detect run over any span, the stored coalescence, split into one file per calendar day, contains every sample from the start up to the end of the last time step exactly once, in order, with the values computed for that sample (peak, normalised peak and position, to the storage precision) if the step succeeded, and zeros if the step's data were missing, gappy or unusable. This holds for every time step length, sampling rate and start time relative to midnight, for every pattern of failing steps, and in both per-day and continuous-write modes; reading the files back returns the same series.",
 ["histories", "fault_sequences", "configurations"], "all sequences (up to a length) of step outcomes {ok, empty archive, gap, unavailable} x step lengths x start offsets around midnight x write modes",
 "No stable test runs detect; faults at particular steps next to a day boundary are never exercised.",
 [Q+"signal/scan.py", Q+"io/scanmseed.py"], [("ScanmSEED.append/empty/write", Q+"io/scanmseed.py"), ("_continuous_compute", Q+"signal/scan.py")], ["<run>/detect/scanmseed/*.scanmseed", "read_scanmseed"],
 [("stream", "the not-yet-written coalescence of the current day", Q+"io/scanmseed.py")])

prop("C06", "A detect run that dies keeps the coalescence already computed",
 "If a detect run is killed at any point, the coalescence files on disk hold, in continuous-write mode, every time step completed and handed to storage before the one being processed, and otherwise at least every calendar day completed before it; what is there is a correct prefix of the uninterrupted output, never values of a later or different time. Re-running detect over the same span afterwards gives the same files as an uninterrupted run.",
 ["crash_points", "histories"], "all crash points (every executed source line of the detect loop, and every executed source line of the MiniSEED writer inside a file write) of runs crossing midnight, in both write modes",
 "Tests never interrupt a run; the set of crash points is every line of every step.",
 [Q+"io/scanmseed.py", Q+"signal/scan.py"], [("continuous_scanmseed_write / day-end write", Q+"io/scanmseed.py")], ["files under detect/scanmseed after the crash"])

prop("C07", "Availability output has one correct row per time step and phase",
 "After detect, the station availability files hold, per calendar day, exactly one row for every time step that starts on that day, labelled with the step's start time, and one column per archive station and migrated phase; an entry is 1 exactly if that station's onset for that phase was used in that step, and the whole row is 0 for steps whose data were missing or unusable. Reading them back returns the rows of the requested days.",
 ["histories", "fault_sequences", "inputs"], "all sequences of per-step outcomes (subsets of available station-phases, or a failed step) x step lengths x start offsets around midnight",
 "No stable test writes availability; the row bookkeeping depends on the history of failed steps and the day boundary.",
 [Q+"signal/scan.py", Q+"io/availability.py"], [("_continuous_compute availability frame", Q+"signal/scan.py"), ("write/read_availability", Q+"io/availability.py")], ["<run>/detect/availability/*.csv", "read_availability"])

prop("C08", "Trigger thresholds follow their definitions sample by sample",
 "The static threshold is the given value everywhere; the dynamic thresholds are, in each consecutive window of the configured length starting at the first sample, the median plus the multiplier times 1.4826 times the median absolute deviation of the coalescence in that window, or the median times the multiplier. There is exactly one threshold per coalescence sample, including a shorter last window.",
 ["inputs", "configurations"], "all coalescence series over a small alphabet up to a length x window lengths (dividing, not dividing, longer than the series) x multipliers x methods",
 "The existing test compares one random series per method.",
 [Q+"signal/trigger.py", Q+"util.py"], [("_get_threshold", Q+"signal/trigger.py"), ("calculate_mad", Q+"util.py")], ["threshold behaviour through Trigger.trigger"])

prop("C09", "Triggering finds, merges and describes candidate events by its rules",
 "Each maximal run of consecutive samples at or above the threshold (of the coalescence, or of the normalised coalescence when so configured) is one candidate, described by the sample of maximum coalescence within it; its window extends one minimum event interval before the earlier of its peak and its first sample plus the marginal window, and one minimum event interval after the later of its peak and its last sample minus the marginal window. Successive candidates are merged exactly when the marginal window of one overlaps the event window of the other, so that the events reported are time-ordered, unique in identifier, separated by the configured intervals, and each carries the coalescence, time and location of the strongest member; no candidate is lost or counted twice.",
 ["inputs", "configurations"], "all coalescence series over a small alphabet up to a length x marginal windows x minimum event intervals x trigger variable",
 "No stable test exercises candidate identification or merging; the behaviours are the patterns of runs, gaps and ties.",
 [Q+"signal/trigger.py"], [("_identify_candidates/_refine_candidates", Q+"signal/trigger.py")], ["Trigger.trigger output files"])

prop("C10", "Triggered events are exactly those inside the requested time span and region",
 "Running trigger over any span reports precisely the events whose peak lies between start and end (a peak at midnight belonging to the day that starts then, so none is lost or reported twice over consecutive days) and, if a region is given, whose location lies inside it, limits included. Splitting a span at midnight into separate runs gives the same event files as one run, and coalescence from adjoining days within the pad is used so that events near midnight are found as well as elsewhere.",
 ["inputs", "configurations", "histories"], "all placements of one or two peaks on a window around midnight x all start/end choices x region boxes around the peak location x one-run vs split runs",
 "Tests never run trigger over files, let alone over a day boundary.",
 [Q+"signal/trigger.py", Q+"io/scanmseed.py"], [("trigger day batches", Q+"signal/trigger.py"), ("_filter_events", Q+"signal/trigger.py"), ("read_scanmseed", Q+"io/scanmseed.py")], ["<run>/trigger/<sub>/events/*_TriggeredEvents.csv"])

prop("C11", "Triggered event files carry the same events from trigger to locate",
 "Whatever set of events is written, reading the triggered-event files by time span returns exactly the events with start <= time <= end (an end at midnight excluding the next day), each once, with the identifiers, times, locations and coalescence values that were written to the stated precision; reading one file by name returns all of its events. What is written depends only on the current events and options, not on earlier writes by the same process.",
 ["histories", "inputs"], "all sequences of writes (with and without time windows, several days, empty sets) up to a depth x all read spans",
 "No stable test writes or reads triggered events; dependence on earlier writes needs a sequence of operations.",
 [Q+"io/triggered_events.py"], [("write/read_triggered_events", Q+"io/triggered_events.py")], ["trigger/<sub>/events/*.csv", "read_triggered_events"])

prop("C12", "Grid indices, grid positions and geographic coordinates are inverse maps",
 "For every grid and projection, converting a node index to a coordinate and back gives that index, flat and 3-D indices agree with the order in which traveltimes and coalescence maps are stored, and node positions step by exactly the node spacing from the lower-left corner until the upper-right corner is covered, with as many nodes as the traveltime tables. Points outside the grid are refused or reported as outside, never mapped to a wrong node silently; query functions accept one point or many.",
 ["inputs", "configurations"], "all nodes of all small grid shapes x node spacings x projections x units; all half-integer offsets around nodes",
 "No stable test touches grids.",
 [Q+"lut/lut.py"], [("index2coord/coord2grid/index2grid", Q+"lut/lut.py")], ["Grid3D/LUT public methods"])

prop("C13", "Decimating a lookup table keeps traveltimes attached to their positions",
 "Decimating a lookup table by any factors leaves, at every node of the smaller grid, the traveltimes that the original table has at the same geographic position, for every station and phase; the node count, spacing, corners and coordinate conversions all describe the smaller grid. Without in-place operation the original is unchanged.",
 ["inputs", "configurations"], "all grid shapes up to a size x all decimation factor triples x in-place or copy",
 "No stable test decimates.",
 [Q+"lut/lut.py"], [("Grid3D.decimate", Q+"lut/lut.py")], ["LUT.decimate result"])

prop("C14", "Onsets are migrated with the traveltimes of their own station and phase",
 "For any subset of stations and phases that has usable data, in any order of the station list and of the phases, each onset function is stacked using the traveltimes of that same station and phase, and the average is over the number actually used. Hence a source whose onsets are impulses at its traveltimes is imaged with the full impulse coalescence at its own node and origin time by detect and locate, whichever observations are missing.",
 ["inputs", "configurations", "fault_sequences"], "all non-empty subsets of station-phase availability x station orders x phase orders x source nodes",
 "No stable test migrates; a mis-pairing only shows for particular subsets of missing data.",
 [Q+"signal/scan.py", Q+"lut/lut.py", Q+"signal/onsets/stalta.py"], [("serve_traveltimes(availability)", Q+"lut/lut.py"), ("stacked onsets + OnsetData.availability", Q+"signal/onsets/stalta.py")], ["detect scanmseed; locate .event"],
 [("availability", "ordered dict station_phase -> 0/1 shared by onsets and LUT", Q+"signal/onsets/base.py")])

prop("C15", "Lookup tables survive saving, loading, slicing and combination",
 "Saving and loading a lookup table gives back an equal table (grid, projections, stations, phases, traveltimes, uncertainty fraction). Served traveltimes are the stored ones times the sampling rate rounded to the nearest sample, in the order requested; interpolated traveltimes at a node equal the stored value and lie between the neighbouring values elsewhere. Combining two tables on the same grid adds the stations and phases that are missing and never alters or drops those already present; the maximum traveltime is the largest stored value.",
 ["inputs", "histories"], "all small tables x sequences of save/load/combine operations x all nodes and cell fractions for interpolation x all availability subsets",
 "No stable test covers lookup tables.",
 [Q+"lut/lut.py", Q+"lut/create_lut.py"], [("LUT.save/load/__add__/serve_traveltimes/traveltime_to", Q+"lut/lut.py")], ["LUT public methods"])

prop("C16", "Computed traveltimes correspond to the velocity model and geometry",
 "For a homogeneous velocity, the traveltime from each node to each station is the straight-line distance divided by the phase velocity; for a layered model the computed traveltimes are the same function of offset and depth for every station position, agree with the homogeneous result when all layers are equal, and increase with slower velocity. Every node, station and requested phase gets a finite, non-negative value, and traveltimes read from NonLinLoc grid files are those stored in the file, at the positions the file's header gives. Files of the user's other than the grids made are left alone when tidying up.",
 ["inputs", "configurations"], "all small grids x station positions (on nodes, between nodes, at edges) x phases x methods available offline",
 "No stable test builds a lookup table.",
 [Q+"lut/create_lut.py"], [("compute_traveltimes", Q+"lut/create_lut.py"), ("read_nlloc", Q+"lut/create_lut.py")], ["LUT built by compute_traveltimes / read_nlloc"])

prop("C17", "Data quality screening accepts exactly the data meeting the criteria",
 "For any set of channel segments, a channel counts as available exactly when it has data that is not a flatline, has no overlaps, and meets each requested criterion (no gaps, covers the full timespan, right sampling rate, exact start and end times); the overall flag is 1 if any channel is available, or, when all channels are demanded, only if the expected number of channels exist and all are available. Missing arguments needed by a criterion are refused.",
 ["inputs", "configurations"], "all arrangements of up to three segments per channel (missing, short, gappy, overlapping, flat, off-rate, shifted) for up to three channels x all option combinations x spans and rates whose product is not an exact float",
 "No stable test calls the availability check; the outcomes are a truth table over segment patterns and options.",
 [Q+"io/data.py"], [("WaveformData.check_availability", Q+"io/data.py")], ["check_availability return value"])

prop("C18", "Archive reads return exactly the requested stations and time window",
 "Reading any window from an archive of day files, including windows that cross midnight, year ends or days with no files, returns for the requested stations only (the raw copy may hold all stations, if asked for) every archived sample between start and end (inclusive, to the nearest sample) once and none outside, with adjoining day files joined, and the extra pads only in the raw copy and only when asked for; a channel whose pieces have different sampling rates or data types is left out without affecting others. If there is nothing, the request fails with the archive-empty or data-gap error rather than returning wrong data; archive files are never altered.",
 ["inputs", "configurations"], "all windows over a grid of start/end points around a year-end midnight x subsets of existing files x station lists x pads x archive formats",
 "No stable test reads an archive.",
 [Q+"io/data.py", Q+"util.py"], [("Archive.read_waveform_data", Q+"io/data.py"), ("merge_stream", Q+"util.py")], ["WaveformData.waveforms / raw_waveforms"])

prop("C19", "Resampling and sample alignment never shift data in time",
 "Bringing data to the requested sampling rate and onto the sample grid keeps every sample's time: after alignment all traces start on multiples of the sample interval and no sample is moved by more than half an interval (none if interpolation is requested or it is already aligned), decimation and upsampling keep sample times and, for linear upsampling, the original values at the original times; rates that cannot be reached are left unchanged and flagged, and input data are not modified.",
 ["inputs", "configurations"], "all offsets of the trace start within a sample x sampling-rate pairs x upsampling factors x lengths",
 "Only merging is covered by a stable test; timing faults appear for particular offsets and rate ratios.",
 [Q+"util.py", Q+"io/data.py"], [("resample/decimate/upsample/shift_to_sample", Q+"util.py")], ["util functions' return values"])

prop("C20", "Every scan window has the right number of samples for its pads",
 "For every sampling rate, onset window lengths, maximum traveltime, time step or marginal window, the data window requested for a step is padded by a whole number of samples, at least the onset's and traveltime's needs on each side, and the coalescence computed from it has exactly one sample per scan sample of the time step (detect) or of twice the marginal window either side of the trigger time (locate), stamped with the right times.",
 ["inputs", "configurations"], "all combinations of a grid of sampling rates, STA/LTA windows, maximum traveltimes, time steps and marginal windows",
 "No stable test runs detect or locate; mis-sized windows come from rounding at particular combinations.",
 [Q+"signal/scan.py", Q+"signal/onsets/base.py", Q+"util.py"], [("Onset.pad", Q+"signal/onsets/base.py"), ("trim2sample/time2sample", Q+"util.py")], ["Archive request windows, scanmseed, located event times"])

prop("C21", "Locate processes every triggered event independently of the others",
 "A locate run writes exactly one event file and one pick file for every requested triggered event whose data are available and whose refined origin time stays within the marginal window of the trigger time, and none for the others. A missing or unusable event does not stop or change the results of any other event, the result of an event does not depend on which other events are in the run or on their order, and each event file carries that event's identifier and trigger values.",
 ["fault_sequences", "histories", "inputs"], "all sequences of up to N events with outcomes {good, archive empty, gap, unavailable, outside marginal window} in every order, by file or by time span",
 "No stable test runs locate.",
 [Q+"signal/scan.py", Q+"io/event.py"], [("_locate_events", Q+"signal/scan.py"), ("in_marginal_window", Q+"io/event.py")], ["locate/<sub>/events/*.event, picks/*.picks"])

prop("C22", "Automatic picks lie in their window, are consistent and never invented",
 "For each station and phase with an onset, the pick window is centred on the modelled arrival, at most the marginal window plus the traveltime uncertainty either side, split at the midpoint where P and S windows would overlap; a pick is reported only where the onset exceeds the noise threshold, its time lies inside that window and close to the onset maximum, and its uncertainty is positive and finite. Otherwise the time, error and signal-to-noise are all -1, and every onset appears exactly once in the pick table with its modelled arrival time, whatever shape the onset has.",
 ["inputs", "configurations"], "all onset shapes built from a small alphabet (peaks at every position including window edges, flat, noisy, empty noise windows) x P/S separations x threshold methods x missing phases",
 "No stable test makes picks.",
 [Q+"signal/pickers/gaussian.py", Q+"signal/pickers/base.py"], [("GaussianPicker.pick_phases", Q+"signal/pickers/gaussian.py")], ["event.picks, .picks file"])

prop("C23", "Location estimates sit at the coalescence peak with proper uncertainties",
 "For every marginalised coalescence map the spline location is the maximum, at a tenth of a node, of the smooth surface through the values within two nodes of the largest node, and the largest node itself where that neighbourhood crosses the edge of the grid. The Gaussian location is the centre of the three-dimensional Gaussian fitted around the peak; the covariance uncertainties are the weighted standard deviations of the nodes above 0.9; all uncertainties are finite, non-negative and belong to their own axes. Moving a compact pattern by whole nodes moves the estimates by the same amount, a pattern symmetric about a node is located at that node, and along an axis with one node the location is that node. The origin time is the time of maximum coalescence.",
 ["inputs"], "all peak positions (interior, faces, edges, corners) x small-perturbation patterns on small grids",
 "No stable test locates anything.",
 [Q+"signal/scan.py"], [("_calculate_location", Q+"signal/scan.py")], ["event locations after locate"])

prop("C24", "Amplitudes measured are the largest half peak-to-trough in the right window",
 "For each channel with data the P and S amplitudes are the largest half peak-to-trough differences between consecutive extremes inside the respective windows (in millimetres on a Wood-Anderson seismometer, whether the instrument records velocity or acceleration and whether its poles and zeros are in radians per second or Hz), with the frequency and time of that same cycle, corrected for the filter gain only when a filter is applied; the noise amplitude is measured strictly before the P window; and the P and S windows follow from the picks (or the modelled arrivals where a phase was not picked), the traveltime uncertainty, marginal window and signal window, and never overlap. Channels with no data, with gaps, without a response, or whose data do not cover the whole measurement span give a row of null entries without affecting other channels, every station has its three rows with its own distances, and waveforms are not modified.",
 ["inputs", "configurations"], "all short waveforms over a small alphabet inside the windows x pick patterns x P/S separations x missing channels",
 "No stable test measures amplitudes.",
 [Q+"signal/local_mag/amplitude.py"], [("Amplitude.get_amplitudes", Q+"signal/local_mag/amplitude.py")], ["amplitudes DataFrame / .amps file"])

prop("C25", "Magnitudes use exactly the observations that pass the chosen filters",
 "Each channel's magnitude is log10 of its amplitude (times the multiplier) plus the attenuation correction at its distance plus its station correction. The network magnitude is the (optionally error-weighted) mean over exactly the observations passing every active filter (trace, station, distance, noise, pick), with the matching (weighted) standard deviation and r-squared; no usable observation gives a null result, observations without a magnitude never contribute, and calculating the individual magnitudes does not modify the amplitude table. The amplitude file lists every observation with its values and magnitude.",
 ["inputs", "configurations"], "all tables of up to N observations over small value sets (including null amplitudes and zero distance) x all combinations of filters, distances and weights",
 "No stable test covers magnitudes; the filters form a truth table.",
 [Q+"signal/local_mag/magnitude.py"], [("calculate_magnitudes/mean_magnitude/_filter_mags/_mag_r_squared", Q+"signal/local_mag/magnitude.py")], ["return values; .event ML fields"])

prop("C26", "Located events read into ObsPy carry the written locations, picks and amplitudes",
 "For every set of located events, with any mix of successful and failed picks and with or without amplitudes and magnitudes, reading a run into an ObsPy catalogue gives one event per event file with the identifier, origin time, position, depth and uncertainties written (in ObsPy's units), every successful pick linked to its station, phase and uncertainty (failed ones only as modelled arrivals), and the magnitude and amplitudes when present, and the catalogue can be written as QuakeML.",
 ["inputs", "histories"], "all combinations of pick outcomes per station-phase, local magnitude options, units, and sub-run names over small event sets",
 "No stable test exports.",
 [Q+"export/to_obspy.py", Q+"io/event.py", Q+"signal/pickers/base.py"], [("read_quakemigrate", Q+"export/to_obspy.py"), ("Event.write", Q+"io/event.py"), ("write picks", Q+"signal/pickers/base.py")], ["obspy Catalog"])

prop("C27", "Exports to NonLinLoc, Snuffler and MFAST preserve times and values",
 "Each pick exported to NonLinLoc, Snuffler or MFAST formats carries the pick's station, phase and (where the format has one) uncertainty, and its time to the precision of the format, for any instant (fractions of any number of leading zeros, minute/hour/day/year roll-over), once, with its own network and station; the event's origin and the station's position likewise. Modelled arrivals of picks that failed are never exported as picks to NonLinLoc (unless asked for) or MFAST.",
 ["inputs"], "all fractional-second patterns x roll-over instants x phases x uncertainties x mixed networks",
 "No stable test exports; zero-padding and roll-over show at particular instants only.",
 [Q+"export/to_nlloc.py", Q+"export/to_snuffler.py", Q+"export/to_mfast.py"], [("nlloc_obs / snuffler_markers / sac_mfast", Q+"export/")], ["exported files"])

prop("C28", "Unusable inputs and settings are refused rather than silently accepted",
 "Station and velocity-model files (or tables) lacking any required column, response files that cannot be read, reversed or incomplete time spans, marginal windows larger than the minimum event interval allows, unknown threshold methods, wrong object types for the onset, picker or magnitude arguments, and filters above the Nyquist frequency each raise the documented error before any output is written; all valid variants are accepted, with the values and station names in the files taken as written.",
 ["inputs", "configurations"], "all subsets of required columns; all combinations of present/absent/reversed times; all settings orders of the coupled parameters",
 "Only import tests exist; the invalid combinations are never tried.",
 [Q+"io/core.py", Q+"signal/trigger.py", Q+"signal/scan.py", Q+"signal/onsets/stalta.py", Q+"util.py"], [("header checks", Q+"io/core.py"), ("argument checks", Q+"signal/scan.py"), ("parameter checks", Q+"signal/trigger.py")], ["raised exceptions"])

prop("C29", "Onset availability and combination follow the channels actually usable",
 "A station's onset for a phase is computed exactly when its channels for that phase meet the data-quality settings, from all and only its usable channels, as the root mean square of the single-channel onsets and never below the configured minimum. The set, order and availability flags returned describe exactly the onsets stacked, and the onset of one station does not depend on the data of any other; with no usable onset at all the step is reported as unavailable.",
 ["inputs", "fault_sequences", "configurations"], "all subsets of missing/gappy/flat channels for two stations x phases x channel options x onset positions and transforms",
 "The existing test runs three complete synthetic channels only.",
 [Q+"signal/onsets/stalta.py", Q+"signal/onsets/base.py"], [("STALTAOnset.calculate_onsets", Q+"signal/onsets/stalta.py")], ["stacked onsets and onset data"])

prop("C30", "Results depend only on inputs, not on earlier work done with the same objects",
 "Running detect, trigger or locate with objects that were already used for any earlier sequence of such runs (other spans, failing data, other stages) gives the same output files as running with fresh objects from the same files, and a scan or trigger run leaves for the days it covers what it would leave in an empty run directory (a trigger run without candidates leaves no events of an earlier run); lookup tables, archives, onset and picker settings and input data are not altered by a run.",
 ["histories"], "all sequences up to a depth of operations {detect A, detect B, trigger, locate, failing run} on shared objects, compared with fresh objects",
 "Tests create fresh objects for a single call each.",
 [Q+"signal/scan.py", Q+"signal/trigger.py", Q+"io/triggered_events.py", Q+"lut/lut.py"], [("per-run state set up in detect/locate/trigger", Q+"signal/scan.py")], ["output trees"],
 [("pre_pad/post_pad/run.stage", "state kept on the scan object between runs", Q+"signal/scan.py")])

prop("C31", "Cut waveforms contain the requested window of each channel",
 "For any pre- and post-cut lengths (or none), the cut waveforms written for a located event are, per channel with data, the archived samples from pre-cut before to post-cut after the origin time as far as they exist, in the requested format and units, without altering the data used for later products of the same event; real and Wood-Anderson waveforms are those samples with the response removed (and the Wood-Anderson response applied), in displacement or velocity as asked; without cut lengths the window is the one read for the event; channels without data or without a response are skipped.",
 ["inputs", "configurations"], "all pre/post cut combinations around the pads x missing channels x waveform types",
 "No stable test writes cut waveforms.",
 [Q+"io/cut_waveforms.py", Q+"signal/scan.py"], [("write_cut_waveforms", Q+"io/cut_waveforms.py")], ["locate/<sub>/*_cut_waveforms/*"])

prop("C32", "Optional outputs and plots never change the results",
 "Whatever combination of optional outputs is requested of locate or trigger (raw, real and Wood-Anderson cut waveforms, full and marginalised coalescence maps, event, pick, amplitude and trigger plots, log files), whatever the data, stations, phases and settings, the run completes with exactly the events, picks, amplitudes and triggered events of a run without them; each requested output is written for every event in its own place with the content it has when requested alone, and none that was not requested; saved coalescence maps are the ones the event's time, location and coalescence were computed from.",
 ["inputs", "configurations"], "all subsets of the optional outputs x data and station layouts x phases x settings",
 "No stable test requests an optional output; plots are drawn only in the examples.",
 [Q+"signal/scan.py", Q+"signal/trigger.py", Q+"plot/event.py", Q+"plot/trigger.py", Q+"plot/amplitudes.py", Q+"plot/phase_picks.py", Q+"io/coalescence.py", Q+"io/cut_waveforms.py"],
 [("_locate_events", Q+"signal/scan.py"), ("trigger_summary", Q+"plot/trigger.py")],
 ["output trees with and without the options"])

prop("C33", "Superseded names and old lookup tables behave as their replacements",
 "Every superseded name still accepted (STALTAOnset onset_centred, p_bp_filter, s_bp_filter, p_onset_win and s_onset_win, the Centred and Classic onset classes; QuakeScan time_step, n_cores and sampling_rate; Trigger minimum_repeat and the 'dynamic' threshold method; GaussianPicker fraction_tt; cell_count and cell_size; io.stations, LUT.load and the '1dsweep' method) reads and sets exactly what its replacement does, in any order mixed with it, as an argument or as an attribute, without touching other settings or objects; and a lookup table in an old format gives the same grid, traveltimes, phases and fraction when read, and again after update_lut, as the same table in the current format.",
 ["histories", "configurations"], "all orders of setting parameters up to a depth; all combinations of superseded arguments; old formats x shapes x stations",
 "No test uses a superseded name or an old lookup table.",
 [Q+"signal/onsets/stalta.py", Q+"signal/scan.py", Q+"signal/trigger.py", Q+"signal/pickers/gaussian.py", Q+"lut/lut.py", Q+"lut/__init__.py"],
 [("onset_centred", Q+"signal/onsets/stalta.py"), ("update_lut", Q+"lut/__init__.py"), ("time_step", Q+"signal/scan.py")],
 ["public attributes, onset functions, picks, stored coalescence, tables"])

prop("C34", "Figures show the data they summarise",
 "Every figure shows the results it summarises, for any data, stations, phases, grid units and settings. The trigger summary has both coalescence traces over the batch, the threshold on the trace triggered on, each triggered event (with a region: and each rejected one) at its time with its windows and at its place on the map and sections, the region, the stations and the number available through time, the count and the parameters. The event summary has the coalescence trace, slices of the marginalised map through its maximum at their coordinates, the hypocentre, the uncertainty ellipse, the stations, each waveform and the modelled arrivals at its station's line in order of distance, and the values of the event file. Pick plots have each phase's waveforms, onset, threshold, window, fit, modelled arrival and pick with its uncertainty in the phase's own column. Amplitude plots have used, rejected and noise amplitudes with errors at their distances, the predicted curves and one label for each station.",
 ["inputs", "configurations"], "all arrangements of stations, channels, phases, magnitudes and units; availability x region x setting; threshold x span",
 "No test draws a figure with data.",
 [Q+"plot/trigger.py", Q+"plot/event.py", Q+"plot/phase_picks.py", Q+"plot/amplitudes.py", Q+"lut/lut.py", Q+"util.py"],
 [("trigger_summary", Q+"plot/trigger.py"), ("event_summary", Q+"plot/event.py"), ("pick_summary", Q+"plot/phase_picks.py"), ("amplitudes_summary", Q+"plot/amplitudes.py")],
 ["lines, marks, bands, images and texts of the figures"])

prop("C35", "Runs and sub-runs stay apart, and each stage uses its own run's results",
 "Under one output directory, each run has its own detect results, and each sub-run of it its own triggered events and located events (waveforms, picks, amplitudes, figures and catalogue). Whatever runs and sub-runs were detected, triggered and located before, in any order, a stage reads only its own run's coalescence and its own sub-run's triggered events, leaves every other run's and sub-run's results as they are, and writes what it writes when it is alone in an empty directory. For any run name, sub-name and way to give the path, all stages agree on the same places, which follow from the names; '.' is replaced by '_' in each.",
 ["histories", "configurations"], "all histories of trigger (two thresholds), locate and detect of runs and sub-runs up to a depth; all names x sub-names x ways to give the path",
 "No test has two runs in one directory, a sub-name, or a stage that follows another run's.",
 [Q+"io/core.py", Q+"io/triggered_events.py", Q+"io/scanmseed.py", Q+"io/event.py", Q+"io/cut_waveforms.py", Q+"io/amplitudes.py", Q+"io/coalescence.py", Q+"signal/pickers/base.py", Q+"export/to_obspy.py"],
 [("Run", Q+"io/core.py"), ("read_/write_triggered_events", Q+"io/triggered_events.py"), ("read_quakemigrate", Q+"export/to_obspy.py")],
 ["the tree of files of the output directory", "read_quakemigrate"],
 [("run directory", "<path>/<run>/{detect,trigger/<sub>,locate/<sub>}", Q+"io/core.py")])

prop("C36", "The same data given in another form, order or time give the same results",
 "The results of detect, trigger and locate follow from the ground motion, the stations and the settings alone. They are the same (to rounding where sums change order) however the same waveforms are stored: archive format, division into files, file format and encoding, shared samples between files, other stations beside them, the order in which directories list them; in whatever order the stations stand in the archive's and the lookup table's station lists and the phases in the settings; whatever the stations' names and the network, location, band and component codes are; with a constant offset in the counts, counts and response scaled together, the grid in km or in metres, further columns in the station file, or a further station that has no data; in whichever equivalent type or form settings and times are given, and with any number of threads. Data and span moved by a whole number of samples in time, over midnights, year ends and leap days, give the same results moved by as much.",
 ["inputs", "configurations"], "all archive formats x divisions; all orders of stations in both lists x phases; codes; every place of midnight in the span x dates; listing orders x threads x forms of settings",
 "No test runs the stages on more than one arrangement of its data, or anywhere near midnight.",
 [Q+"io/data.py", Q+"util.py", Q+"signal/scan.py", Q+"signal/trigger.py", Q+"signal/onsets/stalta.py", Q+"signal/pickers/gaussian.py", Q+"signal/local_mag/amplitude.py", Q+"signal/local_mag/magnitude.py", Q+"io/scanmseed.py", Q+"io/triggered_events.py", Q+"io/event.py", Q+"io/cut_waveforms.py"],
 [("Archive", Q+"io/data.py"), ("merge_stream / shift_to_sample", Q+"util.py"), ("QuakeScan", Q+"signal/scan.py"), ("Trigger", Q+"signal/trigger.py")],
 ["every value in the files of detect, trigger and locate"])

prop("C37", "An event in the data is found at the place and time it came from",
 "When every station records a sharp P arrival on its vertical and a sharp S arrival on its horizontal channels at one origin time plus the traveltime from one node of the lookup table, well above the noise, then detect, trigger and locate together give exactly one event for it: the peak of the coalescence is at that node, in detect and in locate, its spline location within half a node spacing; its origin time is the true one but for a short delay of the onset function that is the same for all events; every arrival is picked, at its time but for such a delay, and modelled at the origin time plus traveltime. This holds for events at any node of the grid, at any origin time within samples, time steps and days, and for every position and transform of the onset, P or S alone, grids in km or m and any projection, decimated tables in detect, decimated or off-sample waveforms, and smoothed or normalised coalescence in trigger.",
 ["inputs", "configurations"], "an event at every node of the grid x 12 configurations x starts",
 "The shipped tests compare one example with stored results; whether those are where the event was they do not know.",
 [Q+"signal/scan.py", Q+"signal/trigger.py", Q+"signal/onsets/stalta.py", Q+"signal/pickers/gaussian.py", Q+"lut/lut.py", Q+"io/data.py", Q+"io/event.py", Q+"core/src/migratelib.c"],
 [("QuakeScan", Q+"signal/scan.py"), ("Trigger", Q+"signal/trigger.py"), ("STALTAOnset", Q+"signal/onsets/stalta.py"), ("GaussianPicker", Q+"signal/pickers/gaussian.py")],
 ["triggered events, .event and .picks files, marginalised coalescence maps"])

prop("C38", "The coalescence at a time does not depend on how the span is scanned",
 "With the same data and settings, the coalescence, its normalised value and its location at any time are the same whatever the time step, wherever the scanned span begins and ends, whether the time is the first or last of a step, and with midnight anywhere in the span, up to what the filters carry over the pads; and the 4-D coalescence locate computes about a triggered event has the same peaks at the same times, whatever the marginal window and the trigger time. A channel whose data are incomplete in the padded window of a step (or event) - by a gap of any length from one sample, or because its data begin or end there - does not count in that step, exactly as if the archive did not hold it, and steps whose windows do not touch the gap are not affected; a step without any channel has no coalescence.",
 ["inputs", "configurations"], "all time steps of spans x starts; gaps of three lengths at positions through the span x channels missing x time steps; triggered events through the span x gaps; six settings",
 "No test scans the same data twice with other steps, nor data with gaps.",
 [Q+"signal/scan.py", Q+"signal/onsets/stalta.py", Q+"signal/onsets/base.py", Q+"io/data.py", Q+"util.py", Q+"io/scanmseed.py", Q+"io/coalescence.py"],
 [("QuakeScan", Q+"signal/scan.py"), ("STALTAOnset.calculate_onsets / pad", Q+"signal/onsets/stalta.py"), ("Archive.read_waveform_data", Q+"io/data.py")],
 ["scanmseed files; 4-D coalescence maps"])

out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
