#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)
I = ["inputs"]

p("P01", "Observation files are decoded exactly as written",
  "Parsing any well-formed RINEX 2, 3 or 4 observation file yields exactly the data it contains: one record entry per epoch (instant in the file's timescale, event flag), the receiver clock offset when present, and one observation per non-blank field carrying its satellite, observable code, value to the printed digit, loss-of-lock indicator and signal-strength digit. Blank fields, blanks trimmed at line ends, satellite lists and observation lists continued over several lines, and constellations with different observable lists do not lose, shift or invent an observation.",
  I, "All well-formed observation files: versions 2.x/3.x/4.x, single or mixed constellations, any number of observables and satellites per epoch, any blank/non blank pattern, any LLI/SNR, flags 0, 1 and 6 and the clock offset field, text produced by an independent writer.",
  "The tests parse a dozen fixed files and check some points; field offsets, line continuation and blanks depend on the number of observables, satellites and on the blank pattern.",
  ["src/observation/parsing.rs", "src/record/parsing.rs", "src/observation/record.rs", "src/header/parsing.rs", "src/observation/header.rs", "src/observation/snr.rs", "src/observation/lli.rs"],
  [("parse_epoch", "src/observation/parsing.rs"), ("Record::parse", "src/record/parsing.rs"), ("is_new_epoch", "src/epoch.rs, src/record/mod.rs")],
  ["Rinex::parse", "Rinex::record"])
p("P02", "Writing then reading an observation file loses nothing",
  "Any observation data set whose values fit the format (F14.3 values, one-digit LLI and SNR, nine-to-twelve digit receiver clock offsets), once formatted as RINEX 2, 3 or 4 and parsed again, gives the same epochs, flags, receiver clock offsets, satellites, observables, values rounded to the third decimal, LLI and SNR. Formatting the parsed result again gives the same text.",
  I, "All observation data sets built through the API or obtained from parsing: any version, constellation mix, observable lists of any length (including multiples of line capacity), missing signals, negative and large values, any number of satellites.",
  "Formatting tests dump and reparse four fixed files; blank fields, line wrapping at 5, 9, 12 and 13 items and clock fields are sampled by none or one of them.",
  ["src/observation/formatting.rs", "src/observation/header.rs", "src/header/formatting.rs", "src/epoch.rs", "src/lib.rs"],
  [("format", "src/observation/formatting.rs"), ("HeaderFields::format", "src/observation/header.rs")],
  ["Rinex::format", "Rinex::parse"])
p("P03", "Meteorological files survive parsing and writing",
  "Parsing any well-formed meteorological file yields, per epoch, exactly the non-blank sensor readings written, attached to the observable declared for that column, and formatting a meteorological data set then parsing it back yields the same epochs, observables and values to the printed digit along with the same sensor descriptions. Blank readings and continuation lines never shift a reading to another observable.",
  I, "All meteo files, versions 2, 3 and 4, 1 to 17+ observables, any blank pattern, any sensor set, positions and values that fit the format.",
  "The tests read three files with 3 to 7 observables and dense data; the offsets depend on the number of observables, on blanks and on the version.",
  ["src/meteo/parsing.rs", "src/meteo/formatting.rs", "src/meteo/header.rs", "src/meteo/sensor.rs"],
  [("parse_epoch", "src/meteo/parsing.rs"), ("format", "src/meteo/formatting.rs")],
  ["Rinex::parse", "Rinex::format", "Rinex::meteo_observations_iter"])
p("P04", "Broadcast ephemeris frames decode exactly as transmitted",
  "Parsing any well-formed navigation file (RINEX 2, 3 or 4, LNAV/CNAV/FNAV/INAV/FDMA/D1/D2/SBAS style frames of GPS, Glonass, Galileo, BeiDou, QZSS and SBAS) yields one frame per satellite, time of clock and message type, whose clock terms and every orbital parameter, looked up by name, equal the numbers written at the position the format assigns to that name. Blank or missing trailing fields are absent rather than shifted, the Fortran D exponent is understood, and the frame's time of clock is expressed in the constellation's timescale.",
  I, "All well-formed ephemeris frames of every constellation, format revision and message type supported, any parameter values, any mix of frames in a file.",
  "The tests decode a few tens of fixed frames; the field layout is a table per (constellation, revision, message) selected at run time, and most tables are sampled by zero or one frame.",
  ["src/navigation/ephemeris/parsing.rs", "src/navigation/parsing/mod.rs", "src/navigation/orbits.rs", "db/NAV/orbits.json", "build.rs", "src/record/parsing.rs"],
  [("Ephemeris::parse_v2v3 / parse_v4", "src/navigation/ephemeris/parsing.rs"), ("closest_nav_standards", "src/navigation/orbits.rs")],
  ["Rinex::nav_ephemeris_frames_iter"])
p("P05", "RINEX 4 navigation system messages decode exactly",
  "In any well-formed RINEX 4 navigation file, the Klobuchar, NeQuick-G and BDGIM ionosphere frames, the Earth orientation frames and the system time offset frames yield the coefficients, reference epoch, regional code and source/target time systems written in the file, whatever the other frames around them. Ionosphere coefficients declared in RINEX 2 and 3 headers are likewise read as written.",
  I, "All ION, EOP and STO frames, any coefficients, any interleaving with ephemeris frames, and RINEX 2/3 ionosphere header lines.",
  "The tests decode one file per message type; coefficient offsets and frame boundaries are only sampled.",
  ["src/navigation/parsing/mod.rs", "src/navigation/ionosphere", "src/navigation/earth_orientation.rs", "src/navigation/system_time.rs", "src/header/parsing.rs"],
  [("KbModel/NgModel/BdModel parsing", "src/navigation/ionosphere"), ("EarthOrientation, SystemTime", "src/navigation")],
  ["Rinex::nav_klobuchar_models_iter", "Rinex::nav_system_time_frames_iter", "Rinex::nav_earth_orientation_frames_iter", "Header::ionod_corrections"])
p("P06", "Ephemeris selection only returns the right, valid frame",
  "For any set of broadcast frames, any satellite and any instant, the ephemeris selected belongs to that satellite, is valid at that instant (not before its time of ephemeris, not beyond the constellation's validity period), and no other valid frame of that satellite is more recent; nothing is selected exactly when no valid frame exists. Time of ephemeris follows the broadcast week and seconds of week of each constellation; Glonass frames are dated by their time of clock, SBAS frames, once published, never expire, and frames without a week counter are not selectable.",
  I, "All sets of frames with arbitrary times of clock and times of ephemeris, all instants around their validity limits.",
  "The tests check single hand picked instants; selection depends on the relative order of all frames and on the validity boundaries.",
  ["src/navigation/ephemeris/mod.rs", "src/navigation/rinex/feature.rs", "src/navigation/rinex/mod.rs"],
  [("nav_ephemeris_selection", "src/navigation/rinex"), ("Ephemeris::is_valid / toe", "src/navigation/ephemeris/mod.rs")],
  ["Rinex::nav_ephemeris_selection", "Ephemeris::is_valid", "Ephemeris::toe"])
p("P07", "Satellite state and clock resolved from broadcast elements are correct",
  "For any physically meaningful set of broadcast Keplerian elements, the Earth-fixed satellite position equals what the interface control documents' user algorithm gives (including the BeiDou geostationary case), the velocity is the time derivative of that position, and the clock correction is the broadcast polynomial evaluated at the requested instant.",
  I, "All Keplerian element sets within the ranges transmitted by GPS, Galileo, QZSS, BeiDou (MEO, IGSO, GEO), any instant within the validity of the frame (LNAV, FNAV, INAV, D1 and D2 frames, which carry week and time of ephemeris).",
  "Tests compare a handful of instants to recorded positions; nothing relates velocity to position or covers the element space.",
  ["src/navigation/ephemeris/kepler", "src/navigation/ephemeris/mod.rs"],
  [("Helper (kepler solver)", "src/navigation/ephemeris/kepler/helper.rs")],
  ["Ephemeris::kepler2position", "Ephemeris::kepler2position_velocity", "Ephemeris::clock_correction"])
p("P08", "CRINEX decompression restores the exact original file",
  "Decompressing any valid CRINEX 1 or CRINEX 3 stream (any differencing order and re-initialisation pattern, satellites and observables appearing and disappearing, epoch and flag text differencing, receiver clock field) restores the epochs, flags, clock offsets, satellites, values, LLI and SNR of the RINEX it was made from. The result does not depend on the sizes of the reads issued to the decompressing reader.",
  ["inputs", "histories"], "All observation files and all legal CRINEX encodings of them made by an independent reference compressor, all read-size sequences.",
  "Tests decompress a few recorded files; the differencing state is per satellite and per observable and depends on the whole history of the stream.",
  ["src/hatanaka/decompressor", "src/hatanaka/numdiff.rs", "src/hatanaka/textdiff.rs", "src/reader.rs"],
  [("Decompressor state machine", "src/hatanaka/decompressor/mod.rs"), ("NumDiff, TextDiff", "src/hatanaka")],
  ["Rinex::parse (on CRINEX)", "DecompressorIO::read"])
p("P09", "Compressing to CRINEX then decompressing is lossless",
  "Any observation data set converted to CRINEX, formatted and parsed back yields the same epochs, flags, satellites, observables, values to the third decimal, LLI and SNR, and converting back to plain RINEX restores the original headers' format. Conversion of the structure alone never alters the observations.",
  ["inputs", "histories"], "All observation data sets in the supported domain of the compressor, satellites and signals coming and going from epoch to epoch.",
  "Three fixed files are compressed by the tests.",
  ["src/hatanaka/compressor.rs", "src/hatanaka/crinex.rs", "src/lib.rs"],
  [("Compressor", "src/hatanaka/compressor.rs"), ("rnx2crnx / crnx2rnx", "src/lib.rs")],
  ["Rinex::rnx2crnx", "Rinex::crnx2rnx", "Rinex::format", "Rinex::parse"])
p("P10", "Hatanaka difference codecs are exact inverses",
  "For any sequence of integers and any supported differencing order, decompressing the compressed sequence gives the original sequence, with the differences being those of the published Hatanaka algorithm (order growing from 0 after each initialisation up to the order chosen). For any sequence of ASCII texts, decompressing the compressed texts gives the original texts, where a blank means unchanged and an ampersand means blanked.",
  ["inputs", "histories"], "All histories of values in the format's range with re-initialisations at any point and orders 1 to 6; all sequences of texts of varying lengths.",
  "Two fixed series are tested at one or two orders.",
  ["src/hatanaka/numdiff.rs", "src/hatanaka/textdiff.rs"],
  [("NumDiff", "src/hatanaka/numdiff.rs"), ("TextDiff", "src/hatanaka/textdiff.rs")],
  ["NumDiff::compress/decompress", "TextDiff::compress/decompress"])
p("P11", "Headers survive writing and reading",
  "Any observation, meteo or navigation header whose fields fit the format, once formatted and parsed again, keeps its version, type, constellation, program, operator, agency, date, marker, receiver, antenna, approximate position, leap second, sampling interval, observables per constellation, first and last epochs, scale factors, clock offset flag and comments; the phase centre and code bias compensations, DOI, license and station information of a header are read as they are written.",
  I, "All headers of observation, meteo and navigation files with any subset of optional fields present and values that fit their columns.",
  "One header per type is tested with fixed fields.",
  ["src/header", "src/hardware.rs", "src/leap.rs", "src/marker.rs", "src/version.rs", "src/types.rs", "src/observation/header.rs", "src/meteo/header.rs"],
  [("Header::format", "src/header/formatting.rs"), ("Header::parse", "src/header/parsing.rs")],
  ["Header (through Rinex::format and Rinex::parse)"])
p("P12", "Every line written respects the RINEX line layout",
  "In any file this library writes, every header line carries its label from column 61 onward (60 columns of content), comments of any length are split over as many comment lines as needed without losing, altering or reordering characters, and version, type and constellation come first while the end of header marker comes last.",
  I, "All observation, meteo and navigation data sets, arbitrary long field contents that fit, comments of any length.",
  "Tests compare a few lines for equality.",
  ["src/lib.rs", "src/header/formatting.rs"],
  [("fmt_rinex, fmt_comment", "src/lib.rs")],
  ["Rinex::format"])
p("P13", "IONEX maps are decoded on the right grid node with the right value",
  "Parsing any well-formed IONEX file yields exactly one TEC estimate per epoch, altitude, latitude and longitude present in the maps (9999 meaning none), equal to the integer written scaled by the exponent in force, with its RMS estimate when an RMS map exists, and the grid and map helpers (coordinates, bounds, altitude range, values in TECU) agree with it.",
  I, "All 2D and 3D grids, ascending or descending, any spacing, any exponent, any number of maps and lines of 1 to 16 values.",
  "Tests parse files with one exponent, one or two grids and check a few nodes.",
  ["src/ionex", "src/linspace.rs", "src/record/parsing.rs"],
  [("parse_tec_map / parse_rms_map", "src/ionex/parsing.rs"), ("Quantized", "src/ionex/quantized.rs")],
  ["Rinex::ionex_tec_maps_iter", "Rinex::ionex_tecu_latlong_ddeg_alt_km_iter"])
p("P14", "Clock files are decoded exactly as written",
  "Parsing any well-formed clock file yields one profile per epoch, receiver or satellite and data type (AR, AS, CR, DR, MS), carrying exactly the bias, bias deviation, drift, drift deviation, drift rate and drift rate deviation written and nothing for those absent, for every format revision.",
  I, "All clock files, revisions 2.x, 3.00 to 3.04, any station and satellite names, 1 to 6 values over one or two lines.",
  "Three recorded files are sampled.",
  ["src/clock", "src/record/parsing.rs"],
  [("parse_epoch", "src/clock/record.rs")],
  ["Rinex::precise_clock", "Record::as_clock"])
p("P15", "Antenna calibrations are decoded and looked up correctly",
  "Parsing any well-formed ANTEX file yields every antenna with its type, serial number or satellite, calibration method, agency, date, validity period, and per frequency the phase center offset and azimuth independent pattern written; the lookups return the offset of an antenna that matches the request and is valid at the requested instant, and nothing if there is none.",
  I, "All ANTEX files (receiver and satellite antennas, any number of frequencies, with or without validity limits), all matchers and instants.",
  "One recorded file is sampled on two antennas.",
  ["src/antex"],
  [("parse_antenna", "src/antex/record.rs"), ("sv_antenna_apc_offset, rx_antenna_apc_offset", "src/lib.rs")],
  ["Rinex::sv_antenna_apc_offset", "Rinex::rx_antenna_apc_offset", "Record::as_antex"])
p("P16", "DORIS files are decoded exactly as written",
  "Parsing any well-formed DORIS observation file yields, per epoch and station, exactly the measurements written (value and flags under the declared observable), the on-board clock offset and its extrapolation flag, with stations resolved from the header station list; the station beacon frequencies follow the k factor, and the DORIS iterators show the decoded content.",
  I, "All DORIS files with any station list, any observables, blanks, and any number of measurements.",
  "One or two recorded files are sampled.",
  ["src/doris"],
  [("parse_epoch", "src/doris/parsing.rs")],
  ["Record::as_doris"])
p("P17", "Standard file names and production attributes are inverses",
  "For every legal combination of production attributes (station, country, batch, data source, date and time, production period, sampling interval, file type, compression), the standard long or short file name generated follows the naming convention, and analysing that name gives the attributes back; likewise for each of the period and sampling codes on their own.",
  I, "All legal station names, dates, periods, sampling rates, types, compressions, long, short and ionex names.",
  "Eight names are tested.",
  ["src/production", "src/lib.rs"],
  [("ProductionAttributes::from_str", "src/production/mod.rs"), ("standard_filename", "src/lib.rs")],
  ["ProductionAttributes", "Rinex::standard_filename"])
p("P18", "Epochs keep their exact instant through text",
  "Every epoch written in an observation, navigation, meteo or clock file in any supported timescale is read back as the same instant to the resolution of the text (100 ns for observations), and an epoch read from text equals the civil date and time written, in the file's timescale, including fractional seconds, two-digit years, leap days and end of day or year.",
  I, "All civil dates 1980 to 2079, all sub-second fractions at the format's resolution, all timescales (GPST, GST, BDT, UTC, Glonass, TAI, QZSST, IRNSST).",
  "Tests sample about ten whole-second epochs.",
  ["src/epoch.rs", "src/header/parsing.rs"],
  [("parse_in_timescale, parse_formatted_month, format", "src/epoch.rs")],
  ["Rinex::parse / Rinex::format epochs"])
p("P19", "Domain codes parse and print as inverses and map to the right physics",
  "Every legal textual code (observable, carrier, RINEX type, version, marker type, event flag, LLI, SNR, sensor observable, clock profile type, message type, data source...) parses, prints back to an equivalent code and identifies the right notion: the observable's physics (pseudo range, phase, Doppler, SNR, channel), its carrier signal, and that carrier's frequency, wavelength and constellation.",
  I, "All legal codes of each vocabulary, exhaustively when finite.",
  "A few codes per vocabulary are tested; the tables hold hundreds.",
  ["src/observable.rs", "src/carrier.rs", "src/types.rs", "src/version.rs", "src/marker.rs", "src/observation/flag.rs", "src/observation/snr.rs", "src/leap.rs", "src/clock/mod.rs"],
  [("FromStr/Display pairs", "src/observable.rs, src/carrier.rs, ...")],
  ["FromStr, Display, Observable::*, Carrier::*"])
p("P20", "Malformed content is rejected or skipped, never a crash",
  "Parsing any byte stream as RINEX, CRINEX or file name terminates normally with data or an error: truncated lines, missing fields, garbage, non ASCII text or inconsistent counters never panic, overflow the stack or exhaust memory.",
  ["inputs", "fault_sequences"], "All byte streams, with emphasis on valid files of every type with injected faults (truncations, deletions, duplications, replacements, swapped lines).",
  "Tests only read well-formed files.",
  ["src/header/parsing.rs", "src/record/parsing.rs", "src/observation/parsing.rs", "src/navigation/parsing", "src/hatanaka/decompressor", "src/ionex/parsing.rs", "src/antex/record.rs", "src/doris/parsing.rs", "src/clock/record.rs", "src/meteo/parsing.rs", "src/production/mod.rs"],
  [("error returns of each parser", "src/*/parsing.rs")],
  ["Rinex::parse", "ProductionAttributes::from_str"])
p("P21", "Gzip, plain, file and stream entry points are equivalent",
  "Reading a file through any entry point (stream, plain file, gzip stream or gzip file) gives the same data set, and writing it through any entry point then reading it back gives that same data set; reading is insensitive to the way the stream delivers its bytes; when the stream fails before its end, or the destination cannot hold the whole file, the failure is reported, never a shorter data set or file.",
  ["inputs", "schedules"], "All file types and contents, all chunkings of the byte stream.",
  "A few files are read both ways.",
  ["src/lib.rs", "src/record/parsing.rs", "src/header/parsing.rs"],
  [("Rinex::parse", "src/lib.rs"), ("from_gzip_file, to_gzip_file", "src/lib.rs")],
  ["Rinex::from_file", "Rinex::to_file", "Rinex::from_gzip_file", "Rinex::to_gzip_file", "Rinex::parse"])
p("P22", "Iterators and accessors report exactly what the record holds",
  "For any data set, each browsing iterator (epochs, satellites, constellations, observables, carriers, signals by physics, receiver clock, event flags, satellites per epoch, navigation frames by type, meteo readings, clock profiles, maps) yields exactly the items obtained by filtering and projecting the record: nothing missing, nothing foreign, sorted and without duplicates where documented.",
  I, "All data sets of each type.",
  "Tests compare a few iterators on a few files.",
  ["src/iterators.rs", "src/lib.rs", "src/observation/rinex", "src/navigation/rinex", "src/meteo/rinex", "src/clock", "src/ionex/rinex"],
  [("*_iter methods", "src/iterators.rs, src/*/rinex")],
  ["Rinex::*_iter"])
p("P23", "Sampling analysis is consistent with the record",
  "For any data set, first and last epochs, duration, sampling histogram, dominant interval, steadiness and data gaps are those obtained by listing the successive epochs of the record: the histogram counts every interval, the dominant interval is a most frequent one, and gaps are exactly the intervals above the tolerance (or above the dominant interval).",
  I, "All epoch series, steady or not, including 0, 1 and 2 epochs.",
  "Tests use files with steady sampling.",
  ["src/sampling.rs"],
  [("sampling_histogram, data_gaps...", "src/sampling.rs")],
  ["Rinex::sampling_histogram", "Rinex::dominant_sampling_interval", "Rinex::steady_sampling", "Rinex::data_gaps", "Rinex::duration"])
p("P24", "Differencing two data sets is exact subtraction on their intersection",
  "Subtracting one observation data set from another gives, for each epoch, satellite and observable present in both, the exact difference of values, and leaves everything else unchanged; a data set minus itself is all zeros, and in-place and copying forms agree.",
  I, "All pairs of data sets, overlapping or not.",
  "One self-difference is tested.",
  ["src/differential.rs", "src/lib.rs"],
  [("observation_substract(_mut)", "src/differential.rs")],
  ["Rinex::observation_substract", "Rinex::observation_substract_mut"])
p("P25", "Signal combinations obey their defining linear algebra",
  "For any multi-frequency observation set, the geometry-free, ionosphere-free, wide-lane, narrow-lane and Melbourne-Wubbena combinations equal their textbook formula on the two signals combined: geometry cancels in the geometry-free ones, first order ionosphere delay cancels in the ionosphere-free ones, and nothing is reported for a satellite, epoch or signal pair that was not observed.",
  I, "All multi-frequency observation sets of any constellation.",
  "One file is compared on a few epochs.",
  ["src/observation/rinex/feature.rs", "src/carrier.rs"],
  [("signals_combination", "src/observation/rinex")],
  ["Rinex::signals_combination"])
p("P27", "Meteo statistics agree with the readings",
  "For any meteo data set, rain accumulation, rain and hail detection, wind direction and speed, and the per sensor iterators agree with the readings of the record.",
  I, "All meteo data sets.",
  "One file is tested.",
  ["src/meteo/rinex"],
  [("rain_accumulation...", "src/meteo/rinex/feature.rs")],
  ["Rinex::meteo_*"])
p("P28", "Comments and line ends are neutral, and comments are kept",
  "Comment lines inserted anywhere in the body of a file, CR LF line ends and trailing blanks change neither the header nor the record that is read; every comment of the body is kept as it appeared, in order, filed under the epoch that precedes it, and every comment of the header is kept in order.",
  I, "All file types; comments with any printable content (labels of other lines included), any number, between any two lines.",
  "No test reads a comment of the body, and the files read have LF ends.",
  ["src/record/parsing.rs", "src/header/parsing.rs", "src/hatanaka/decompressor"],
  [("comment_content, comment_ts", "src/record/parsing.rs"), ("is_rinex_comment", "src/lib.rs")],
  ["Rinex::parse", "Rinex.comments", "Header.comments"])
p("P29", "Positions and look angles of satellites, stations and sensors",
  "For a satellite whose position a navigation file gives, the elevation, azimuth, range and range rate reported for a receiver are those of the line of sight from that receiver to that satellite in the receiver's local East, North, Up frame (no result for a satellite the file does not have), and the position stated in a header or for a meteo sensor is the position of the state vector made from it, at the requested time and frame, and back.",
  I, "All Earth-fixed receiver positions, all satellite positions; header positions and meteo sensor positions of any value the format can express.",
  "Tests compare one satellite and one site at most, with tolerances larger than the convention errors they should detect.",
  ["src/navigation/rinex/feature.rs", "src/navigation/ephemeris/mod.rs", "src/header/mod.rs", "src/meteo/sensor.rs"],
  [("elevation_azimuth_range", "src/navigation/ephemeris/mod.rs"), ("nav_azimuth_elevation_range", "src/navigation/rinex/feature.rs"), ("rx_orbit", "src/header/mod.rs")],
  ["Ephemeris::elevation_azimuth_range", "Rinex (navigation features)", "Header::rx_orbit", "Sensor"])
p("P30", "Builders, replacements and views change and expose only what they name",
  "Every with_, set_, replace_, add_ method yields a value whose named part is exactly what was given while every other part, and the original when it is taken by reference, is unchanged; is_/as_ views and kind predicates agree with the single variant that is present; orbit parameters set on an ephemeris are read back; a merged file is one that says so; a signal is OK exactly when its loss of lock indicator, if any, is clear and its signal strength, if any, is strong enough.",
  I, "All headers, records, ephemerides and signals that generated values can form, under any sequence of such calls.",
  "No test calls most of these methods at all, and none checks that the parts that are not named stay as they were.",
  ["src/header/mod.rs", "src/lib.rs", "src/record/mod.rs", "src/navigation/ephemeris/mod.rs", "src/observation/signal.rs", "src/observation/snr.rs"],
  [("is_ok", "src/observation/signal.rs"), ("replace_record", "src/lib.rs"), ("with_receiver", "src/header/mod.rs")],
  ["Header::with_*", "Rinex::with_*/replace_*", "Record::as_*", "SignalObservation::is_ok"])
p("P31", "TEC and multipath estimates use one epoch, one satellite, two frequencies",
  "The dual phase TEC estimates are, for each correctly sampled epoch and satellite, exactly those of every L1 phase against every phase of another frequency, and each equals the dual frequency formula on those two phases; the multipath values are, for each epoch and satellite, exactly those of every phase with a code of the same signal against every phase of another frequency, and each equals the code multipath formula; TEC values are kept in either unit.",
  I, "All observation records, any number of epochs, regular or not, any subset and order of signals.",
  "The single TEC test looks at three epochs of one file and two satellites; the multipath test is ignored.",
  ["src/observation/rinex/tec.rs", "src/observation/rinex/feature.rs", "src/observation/signal.rs", "src/ionex/tec.rs"],
  [("observation_dual_phase_ionosphere_tec", "src/observation/rinex/tec.rs"), ("signals_multipath", "src/observation/rinex/feature.rs"), ("tec_estimate", "src/observation/signal.rs")],
  ["Rinex::observation_dual_phase_ionosphere_tec", "Rinex::signals_multipath", "SignalObservation::tec_estimate", "TEC"])
p("P32", "The serialised form of a data set holds the whole data set",
  "Serialising a header or a record (serde) keeps everything: observation, meteo, DORIS and IONEX records, the keys of the others, and every header section that can be deserialised come back equal to what was serialised; two headers or records that differ never have the same serialised form, whatever their kind; and equal ones have the same.",
  I, "All files of the eight kinds, and all pairs of files that differ by one character.",
  "No test serialises anything: a field that is skipped, renamed on one side or serialised with less precision is invisible to them.",
  ["src/header/mod.rs", "src/record/mod.rs", "src/observation/signal.rs", "src/navigation/ephemeris/mod.rs", "src/observable.rs", "src/ionex/quantized.rs"],
  [("derive(Serialize)", "src/header/mod.rs"), ("derive(Serialize)", "src/record/mod.rs")],
  ["Header (Serialize)", "Record (Serialize)"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
for d in P:
    assert len(d["title"]) <= 80, d["id"]
