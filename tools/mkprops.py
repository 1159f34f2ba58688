#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line).  Data only."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

# ------------------------------------------------------------------ NovAtel
prop("C01", "NovAtel stream: every intact message delivered once, in order, nothing else",
 "From a byte stream mixing intact NovAtel binary messages (long and short header) with arbitrary other bytes, the converter delivers exactly the messages whose 32-bit check value is right, each once, in stream order, and no message with any corrupted bit. "
 "The result does not depend on how the input source splits the stream into reads, and the reader stops cleanly at end of input or on a read error.",
 ["inputs", "fault_sequences"],
 "all streams over an alphabet of intact, truncated, bit-damaged, preamble-like and junk segments, and all ways of splitting the stream into short reads",
 "The repository test feeds two fixed messages in one read; it never splits a read, damages a bit or interleaves junk.",
 ["c/nov2sbp/parser/parser.cc", "c/nov2sbp/parser/parser.h", "c/nov2sbp/parser/crc_checker.cc", "c/nov2sbp/parser/binary_header.cc"],
 [("preamble search, length check, CRC check, resynchronisation by one byte", "c/nov2sbp/parser/parser.cc"), ("CRC-32", "c/nov2sbp/parser/crc_checker.cc")],
 state=[("byte buffer and fill level", "bytes read and not yet consumed", "c/nov2sbp/parser/parser.h")],
 observe=["message callbacks registered with the parser", "log callback"])
prop("C02", "NovAtel messages: each field decoded from its documented place and type",
 "Every supported NovAtel message (best position, best velocity, GPS ephemeris, GLONASS ephemeris, attitude, compressed range, raw IMU) and both headers decode so that every field equals the little-endian value at its documented offset, width, sign and scale, for every value of every field.",
 ["inputs"],
 "all single-field and pairwise-field deviations over boundary values and single bits of each field of each message, compressed-range record counts 0..64",
 "The tests decode one message of each of two kinds; a swapped, truncated or mis-signed field in the other values is invisible to them.",
 ["c/nov2sbp/parser/message_bestpos.cc", "c/nov2sbp/parser/message_bestvel.cc", "c/nov2sbp/parser/message_gpsephem.cc", "c/nov2sbp/parser/message_gloephemeris.cc", "c/nov2sbp/parser/message_insatt.cc", "c/nov2sbp/parser/message_rangecmp.cc", "c/nov2sbp/parser/message_rawimusx.cc", "c/nov2sbp/parser/read_little_endian.h", "c/nov2sbp/parser/binary_header.cc"],
 [("field readers", "c/nov2sbp/parser/read_little_endian.h"), ("per-message layouts", "c/nov2sbp/parser/message_*.cc")],
 observe=["message structures handed to callbacks"])
prop("C03", "NovAtel input of any length or content never crashes or reads out of bounds",
 "A NovAtel message whose check value is right but whose body is shorter or longer than its type's layout, or whose counts or enumerations are out of range, never makes the converter abort, read or write outside its buffers, or hand over fields that were not in the message.",
 ["inputs", "fault_sequences"],
 "every body length 0..(layout+8) of every supported message id, every record count, with header lengths up to the largest accepted",
 "Tests only use well-formed bodies; the length of a body is attacker-chosen on the wire.",
 ["c/nov2sbp/parser/parser.cc", "c/nov2sbp/parser/message_rangecmp.cc", "c/nov2sbp/parser/message.h"],
 [("body length validation", "c/nov2sbp/parser/parser.cc and message_*.cc")],
 observe=["process exit", "message callbacks"])
prop("C04", "NovAtel to SBP: observations complete, per epoch, correctly scaled and numbered",
 "Converting NovAtel range, position, velocity, attitude, IMU and ephemeris messages yields SBP messages carrying the same quantities in SBP units, each observation epoch being sent as a numbered sequence that contains every convertible measurement exactly once with the right time stamp, identity and validity flags.",
 ["inputs", "histories"],
 "message sequences over all message kinds, satellite counts up to the maximum, boundary field values and time stamps at week boundaries",
 "No test runs the NovAtel to SBP converter at all.",
 ["c/nov2sbp/src/nov2sbp.cc", "c/nov2sbp/src/send_sbp_obs_messages.cc", "c/nov2sbp/src/swiftnav_conversion_helpers.cc"],
 [("observation packing and splitting", "c/nov2sbp/src/send_sbp_obs_messages.cc"), ("unit conversion", "c/nov2sbp/src/swiftnav_conversion_helpers.cc")],
 observe=["SBP write callback"])
# ------------------------------------------------------------------ librtcm
prop("C05", "RTCM decoders are total: any payload is decoded or refused without fault",
 "Given any RTCM payload of any length, each decoder returns success, a type mismatch or an invalid-message code without reading outside the payload or writing outside its result, and never reports success when the payload ends before the last field the message declares.",
 ["inputs", "fault_sequences"],
 "every truncation length of every message type, every one-bit corruption, and forced values of every count or mask field",
 "Tests decode complete well-formed messages; the truncation and corruption space is never enumerated.",
 ["c/librtcm/src/decode.c", "c/librtcm/src/eph_decode.c", "c/librtcm/src/ssr_decode.c", "c/librtcm/src/sta_decode.c", "c/librtcm/src/decode_helpers.h", "c/librtcm/src/bits.c"],
 [("bounded bit reader", "c/librtcm/src/decode_helpers.h"), ("count and mask checks", "c/librtcm/src/decode.c")],
 observe=["return code", "decoded structure", "sanitizer"])
prop("C06", "RTCM legacy, station, text, ephemeris and status messages decode exactly",
 "Every supported RTCM message other than the multi-signal and correction families decodes so that each field equals the standard's field at its place, width, sign, scale and invalid marker, for every value of every field; the text of a receiver message comes out whole, or as much of it as the caller's buffer holds, and is always terminated.",
 ["inputs"],
 "all single and pairwise field deviations over zero, one, extremes, invalid markers and every single bit of each field, with satellite counts over the whole range; receiver texts of every length into buffers of every kind of size",
 "Tests are round trips of a few constants, so an error common to encoder and decoder, or outside those constants, is invisible.",
 ["c/librtcm/src/decode.c", "c/librtcm/src/eph_decode.c", "c/librtcm/src/sta_decode.c", "c/librtcm/src/bits.c"],
 [("field layouts", "c/librtcm/src/decode.c"), ("ephemeris layouts", "c/librtcm/src/eph_decode.c")],
 observe=["decoded structures"])
prop("C07", "RTCM multi-signal observation messages decode exactly",
 "A multi-signal message of any supported kind and constellation decodes to exactly the satellites, signals and cells its masks select, each cell carrying the pseudorange, phase, rate, lock time, signal strength and ambiguity flag obtained from its own fields, and marked invalid exactly when a field holds the standard's invalid marker.",
 ["inputs", "configurations"],
 "all message kinds and constellations, all small satellite/signal/cell mask shapes, boundary and invalid values of each field",
 "Tests contain a handful of fixed masks and values per message kind.",
 ["c/librtcm/src/decode.c", "c/librtcm/src/msm_utils.c"],
 [("mask expansion and per-cell fields", "c/librtcm/src/decode.c")],
 observe=["decoded structures"])
prop("C08", "RTCM encode then decode returns the message that was encoded",
 "Encoding any message whose values are representable and decoding the result returns the same message up to the resolution of each field, with unrepresentable or invalid quantities returned as invalid rather than as wrong numbers.",
 ["inputs"],
 "all supported message types; single and pairwise deviations of each field over representable boundary values, invalid flags and out-of-range values",
 "Tests round-trip a few constants per message type.",
 ["c/librtcm/src/encode.c", "c/librtcm/src/eph_encode.c", "c/librtcm/src/decode.c", "c/librtcm/src/eph_decode.c", "c/librtcm/src/bits.c"],
 [("encoders", "c/librtcm/src/encode.c"), ("decoders", "c/librtcm/src/decode.c")],
 observe=["encoded payload", "decoded structures"])
prop("C09", "Multi-signal mask arithmetic: counting and ranking satellites, signals and cells",
 "For every multi-signal header, the number of satellites, signals and cells equals the number of set mask entries, converting between mask position and rank is an exact inverse on set entries and refuses ranks that do not exist, and message numbers map to the one constellation and kind the standard assigns.",
 ["inputs", "configurations"],
 "all masks up to 16 positions exhaustively, all one-, two- and three-bit masks of 64 positions, all message numbers 0..4095",
 "Tests look up a few ranks in one or two masks.",
 ["c/librtcm/src/msm_utils.c", "c/librtcm/include/rtcm3/msm_utils.h"],
 [("mask counting and ranking, message number tables", "c/librtcm/src/msm_utils.c")],
 observe=["return values"])
prop("C10", "Bit-field access writes and reads exactly the addressed bits",
 "Writing an n-bit unsigned, signed or sign-magnitude value at any bit offset changes exactly those n bits and reading it back returns the value, and reads never depend on any other bit.",
 ["inputs"],
 "all offsets 0..71 and all widths, boundary and single-bit values, over three surrounding bit patterns",
 "Tests use a few offsets and widths.",
 ["c/librtcm/src/bits.c", "c/librtcm/include/rtcm3/bits.h"],
 [("bit accessors", "c/librtcm/src/bits.c")], observe=["buffer contents", "return values"])
prop("C11", "Lock-time indicators are monotone and convert consistently both ways",
 "Each lock-time indicator decodes to the minimum lock time the standard assigns, decoding is monotone in the indicator, encoding a lock time gives the largest indicator whose minimum does not exceed it, and re-encoding a decoded indicator returns it.",
 ["inputs"],
 "all indicator values of all indicator kinds, all lock times on a grid containing every boundary plus and minus the smallest step",
 "Tests check a few boundary values of one indicator.",
 ["c/librtcm/src/decode.c", "c/librtcm/src/encode.c"],
 [("lock indicator tables", "c/librtcm/src/decode.c and encode.c")], observe=["return values"])
prop("C12", "Satellite, signal and accuracy-index mappings are consistent inverses",
 "Mapping between multi-signal mask positions and signal codes or satellite numbers is injective and inverse within each constellation, accuracy and fit-interval indices convert to the documented values and back to the same index, and unsupported values are refused, never mapped to another signal or satellite.",
 ["inputs", "configurations"],
 "all constellations, mask positions, signal codes, satellite numbers 0..255 and all index values",
 "Tests check individual rows of the tables.",
 ["c/gnss_converters/src/rtcm3_utils.c", "c/gnss_converters/src/rtcm3_sbp_ephemeris.c"],
 [("mapping tables and switch statements", "c/gnss_converters/src/rtcm3_utils.c")], observe=["return values", "SBP messages"])
# ------------------------------------------------------------------ rtcm -> sbp
prop("C13", "RTCM stream: every frame with a right check value is processed once, in order",
 "From a byte stream mixing RTCM frames with arbitrary other bytes, the converter processes exactly the frames whose check value is right, once each and in order, independent of how reads are split; damaged, truncated or oversized frames never change any output other than their own absence and never fault.",
 ["inputs", "fault_sequences"],
 "all streams over an alphabet of intact, damaged, truncated, preamble-like and junk segments, all short-read splittings, end of input at every byte",
 "Tests replay recorded files in full reads.",
 ["c/rtcm3tosbp/src/rtcm3tosbp.c", "c/gnss_converters/src/rtcm3_sbp.c"],
 [("frame search and CRC check", "c/gnss_converters/src/rtcm3_sbp.c"), ("fifo fill and skip", "c/gnss_converters/src/rtcm3_sbp.c")],
 state=[("input fifo", "bytes read and not yet consumed", "c/gnss_converters/include/gnss-converters/rtcm3_sbp.h")],
 observe=["SBP callback"])
prop("C14", "RTCM to SBP: each observation epoch sent once, complete and correctly numbered",
 "Observation messages of one epoch are merged into one SBP observation sequence that contains every supported measurement exactly once, stamped with that epoch's time and sender, numbered 0..n-1 of n, sent when the epoch is complete or a later epoch starts, and measurements of different epochs are never mixed.",
 ["histories", "inputs"],
 "all sequences up to the stated depth over messages of each constellation and kind with synchronous flag set or clear, same, later and earlier epochs, and satellite counts around the per-message limit",
 "Tests replay recorded streams; orderings, missing last messages and epoch changes at boundaries are not enumerated.",
 ["c/gnss_converters/src/rtcm3_sbp.c", "c/gnss_converters/src/rtcm3_utils.c"],
 [("observation buffer and send on epoch end", "c/gnss_converters/src/rtcm3_sbp.c")],
 state=[("observation buffer", "measurements of the epoch being assembled", "c/gnss_converters/include/gnss-converters/rtcm3_sbp.h")],
 observe=["SBP callback"])
prop("C15", "RTCM time stamps resolve to the right GPS week and time of week",
 "Given the current GPS time to within the standard's ambiguity and a known leap-second offset, every GPS, Galileo, BeiDou and GLONASS message time resolves to the unique GPS week and time of week it denotes, including at day, week and leap-second boundaries, and no GLONASS-timed measurement is emitted while leap seconds are unknown.",
 ["inputs", "histories"],
 "rover times and message times on a grid around every day, week and half-week boundary, all leap-second values used, time source unknown, set by the user or learned from the stream",
 "Tests try single rover/message time pairs.",
 ["c/gnss_converters/src/rtcm3_sbp.c", "c/gnss_converters/src/rtcm3_utils.c"],
 [("time resolution", "c/gnss_converters/src/rtcm3_sbp.c")], observe=["SBP observation time stamps"])
prop("C16", "RTCM to SBP: duplicate information sources are arbitrated, not mixed",
 "While multi-signal observations are being received legacy observations are ignored and are accepted again only after the documented silence; explicit GLONASS bias messages likewise override biases derived from the receiver descriptor until their timeout; observations of user-excluded constellations never appear in the output.",
 ["histories", "configurations"],
 "all sequences up to the stated depth of legacy/multi-signal observations and of bias/descriptor messages with gaps below, at and above each timeout, for every constellation mask",
 "Tests exercise one switch in one direction.",
 ["c/gnss_converters/src/rtcm3_sbp.c", "c/gnss_converters/src/options.c"],
 [("last-seen times", "c/gnss_converters/src/rtcm3_sbp.c")], observe=["SBP callback"])
prop("C17", "SSR corrections: orbit and clock paired only within one solution, none lost",
 "Correction messages convert field by field into SBP corrections with the right satellite, time, scale and issue numbers; separately received orbit and clock messages of a constellation are combined only when they carry the same epoch, issue, provider and solution, each pairing is emitted once per matching arrival, and every satellite present in both appears.",
 ["histories", "inputs"],
 "all arrival orders up to the stated depth of orbit, clock and combined messages with equal and differing epoch/issue/source, satellite lists with partial overlap, boundary field values",
 "Tests replay one recorded stream per kind.",
 ["c/gnss_converters/src/rtcm3_sbp_ssr.c", "c/librtcm/src/ssr_decode.c"],
 [("orbit/clock cache", "c/gnss_converters/src/rtcm3_sbp_ssr.c")], observe=["SBP callback"])
prop("C18", "RTCM ephemerides convert to SBP without changing any orbital or clock parameter",
 "Each GPS, GLONASS, BeiDou, Galileo and QZSS ephemeris message yields one SBP ephemeris of the same satellite whose parameters, times, health and accuracy equal those of the message in SBP units, with week numbers resolved to the nearest full week.",
 ["inputs"],
 "all single and pairwise field deviations over extremes and single bits, rover weeks around each truncation period",
 "Tests compare a few recorded ephemerides.",
 ["c/gnss_converters/src/rtcm3_sbp_ephemeris.c", "c/librtcm/src/eph_decode.c"],
 [("parameter scaling", "c/gnss_converters/src/rtcm3_sbp_ephemeris.c")], observe=["SBP callback"])
prop("C19", "The shared time reference only moves forward and trusts only sound sources",
 "The time reference starts unknown, becomes known only from a source declared usable, never moves backwards, and reflects the latest accepted update; concurrent updates and reads by several threads never lose the newest time, never go backwards and never expose a torn value.",
 ["histories", "schedules"],
 "all update/read histories up to the stated depth over all sources and validity flags, all interleavings of the atomic steps of two or three concurrent operations",
 "Tests call updates sequentially in a few orders; concurrency is never exercised.",
 ["c/gnss_converters/src/time_truth.c", "c/gnss_converters/include/gnss-converters/time_truth.h"],
 [("compare-and-swap update loop", "c/gnss_converters/src/time_truth.c")],
 state=[("time and state word", "current reference", "c/gnss_converters/src/time_truth.c")], observe=["time reference getter"])
# ------------------------------------------------------------------ sbp -> rtcm
prop("C20", "SBP to RTCM: each observation epoch becomes one well-formed RTCM epoch",
 "SBP observation sequences convert to RTCM messages of one epoch and station that contain every valid, non-excluded measurement the message kind can carry (legacy messages: satellites with a valid L1 range and phase; multi-signal messages: up to 64 cells) exactly once with the same range, phase, rate, lock and signal strength to the resolution of the format, with the last-message marker only on the last; broken, repeated or stale sequences never mix epochs, and every frame has a right length and check value.",
 ["histories", "inputs", "configurations"],
 "all sequences up to the stated depth over first/middle/last/duplicate/missing parts, same/next/past epoch and sender changes, for each output mode, and mixed constellations",
 "No test in the repository covers sequence handling faults; conversions are checked on recorded streams.",
 ["c/gnss_converters_extra/src/sbp_rtcm3.c", "c/librtcm/src/encode.c", "c/gnss_converters_extra/src/sbp_conv.c"],
 [("sequence checks", "c/gnss_converters_extra/src/sbp_rtcm3.c"), ("frame encoding", "c/gnss_converters_extra/src/sbp_rtcm3.c")],
 observe=["RTCM output callback"])
prop("C21", "SBP to RTCM and back returns the same ephemeris, station and bias data",
 "An ephemeris, base position, antenna description, GLONASS bias, log text or passthrough message converted from SBP to RTCM and converted back yields the original SBP content to the resolution of the RTCM fields, at every time of day and week.",
 ["inputs"],
 "all message kinds; single and pairwise parameter deviations over representable extremes; reference times on every boundary of day and week",
 "Tests round-trip a recorded set of ephemerides.",
 ["c/gnss_converters_extra/src/sbp_rtcm3.c", "c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c", "c/gnss_converters/src/rtcm3_sbp_ephemeris.c", "c/librtcm/src/eph_encode.c"],
 [("parameter quantisation", "c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c")], observe=["RTCM output callback", "SBP callback"])
# ------------------------------------------------------------------ UBX
prop("C22", "u-blox stream: every message with a right checksum is processed once, in order",
 "From a byte stream mixing u-blox messages with arbitrary other bytes, the converter processes exactly the messages whose checksum is right and whose length fits, once each and in order, independent of how reads are split, and ends cleanly at end of input.",
 ["inputs", "fault_sequences"],
 "all streams over an alphabet of intact, damaged, truncated, oversized, sync-like and junk segments, all short-read splittings, end of input at every byte",
 "Tests replay recorded files in full reads.",
 ["c/gnss_converters/src/ubx_sbp.c", "c/ubx2sbp/src/ubx2sbp.c"],
 [("sync search and checksum", "c/gnss_converters/src/ubx_sbp.c")], observe=["SBP callback"])
prop("C23", "u-blox messages decode exactly, re-encode identically, and refuse wrong lengths",
 "Each supported u-blox message decodes so that every field equals the little-endian value at its documented offset, encoding the decoded message reproduces the original bytes, and a payload too short for its declared content is refused without reading outside it.",
 ["inputs", "fault_sequences"],
 "all message kinds; single and pairwise field deviations over boundary values and single bits; every truncation length; every block count",
 "Tests round-trip one instance per message kind.",
 ["c/libubx/src/decode.c", "c/libubx/src/encode.c"],
 [("field layouts", "c/libubx/src/decode.c")], observe=["decoded structures", "encoded bytes"])
prop("C24", "u-blox raw measurements become one complete, correctly scaled SBP epoch",
 "Each raw measurement message becomes one numbered SBP observation sequence stamped with its time that contains every supported measurement exactly once, with range, phase, Doppler, signal strength, lock time and validity flags equal to the message's values in SBP units and the right signal identity; unsupported signals are left out.",
 ["inputs", "histories"],
 "all constellation/signal/satellite combinations, measurement counts up to the maximum, status flag combinations, boundary values",
 "Tests compare a recorded file's outputs at a few points.",
 ["c/gnss_converters/src/ubx_sbp.c"],
 [("measurement conversion and splitting", "c/gnss_converters/src/ubx_sbp.c")], observe=["SBP callback"])
prop("C25", "u-blox navigation data: an ephemeris comes only from one consistent page set",
 "Broadcast pages arriving in any order, with losses, repeats, damage and data-set changes interleaved across satellites, produce an ephemeris for a satellite exactly when a complete set of pages with matching issue numbers has been received for that satellite, containing exactly those pages.",
 ["histories", "inputs"],
 "all page arrival sequences up to the stated depth over two satellites, two data issues, every page type, damaged and foreign pages, for GPS, Galileo, BeiDou and GLONASS",
 "Tests feed pages of one data set in transmission order.",
 ["c/gnss_converters/src/ubx_ephemeris/gps.c", "c/gnss_converters/src/ubx_ephemeris/gal.c", "c/gnss_converters/src/ubx_ephemeris/bds.c", "c/gnss_converters/src/ubx_ephemeris/glo.c", "c/gnss_converters/src/ubx_sbp.c"],
 [("per-satellite page store and issue checks", "c/gnss_converters/src/ubx_ephemeris/")],
 state=[("page store", "pages received per satellite", "c/gnss_converters/include/gnss-converters/eph_sat_data.h")], observe=["SBP callback"])
prop("C26", "u-blox sensor, navigation and SBAS data keep their values and time base",
 "Inertial, wheel, attitude, velocity, position and SBAS messages convert to SBP messages with the same quantities in SBP units and time stamps on the SBP time base that never jump because of counter wrap-around or week rollover.",
 ["histories", "inputs"],
 "all message sequences up to the stated depth over sensor types, time-tag gaps and wraps, fix types, and boundary values; SBAS times at the start and end of the week",
 "Tests replay recorded files.",
 ["c/gnss_converters/src/ubx_sbp.c", "c/gnss_converters/src/ephemeris/sbas.c"],
 [("time-tag unwrapping and offsets", "c/gnss_converters/src/ubx_sbp.c")], observe=["SBP callback"])
# ------------------------------------------------------------------ IXCOM
prop("C27", "iXCOM stream: every frame with a right checksum is processed once, in order",
 "From a byte stream mixing iXCOM frames with arbitrary other bytes, the converter processes exactly the frames whose checksum and length are right, once each and in order, independent of how reads are split, and a frame announcing any length never faults the converter.",
 ["inputs", "fault_sequences"],
 "all streams over an alphabet of intact, damaged, truncated, wrong-length, sync-like and junk segments, all announced lengths, all short-read splittings",
 "Tests replay two recorded files in full reads.",
 ["c/gnss_converters/src/ixcom_sbp.c", "c/ixcom2sbp/src/ixcom2sbp.c", "c/libixcom/src/decode.c"],
 [("sync search, length handling, CRC check", "c/gnss_converters/src/ixcom_sbp.c")], observe=["SBP callback"])
prop("C28", "iXCOM messages decode exactly and re-encode identically",
 "Each supported iXCOM message decodes so that every field equals the little-endian value at its documented offset, encoding it and decoding it again returns the same message, and wrong message identifiers, checksums or lengths are refused.",
 ["inputs", "fault_sequences"],
 "all message kinds; single and pairwise field deviations over boundary values and single bits; every one-bit corruption and truncation",
 "Tests round-trip one instance per message kind.",
 ["c/libixcom/src/decode.c", "c/libixcom/src/encode.c"],
 [("field layouts", "c/libixcom/src/decode.c")], observe=["decoded structures", "encoded bytes"])
prop("C29", "iXCOM inertial and wheel data keep their values and time in SBP",
 "Each inertial or wheel message becomes SBP messages carrying the same rates, accelerations, speed or ticks in SBP units, saturated rather than wrapped when out of range, with the time of the message, and configuration messages are sent at the documented rate.",
 ["inputs", "histories"],
 "boundary and out-of-range values of each axis, message times over the whole week, message sequences long enough for every periodic output",
 "Tests check two recorded files.",
 ["c/gnss_converters/src/ixcom_sbp.c"],
 [("unit conversion and saturation", "c/gnss_converters/src/ixcom_sbp.c")], observe=["SBP callback"])
# ------------------------------------------------------------------ NMEA
prop("C30", "NMEA sentences are well formed and say what the SBP messages said",
 "Every NMEA sentence produced has the right field count, ends in the right checksum and line end, and carries the position, time, velocity, heading, accuracy, satellite and quality values of the SBP messages it was made from, with rounding never producing an impossible value such as 60 seconds, 60 minutes of arc, 360 degrees or day 32.",
 ["inputs", "configurations"],
 "all sentence kinds; single and pairwise deviations of each source field over boundary and rounding-boundary values, all fix modes, satellite lists of 0..many per constellation",
 "Tests compare a few recorded sentences and a few rounding cases.",
 ["c/gnss_converters/src/nmea.c", "c/gnss_converters/include/gnss-converters/nmea.h"],
 [("sentence formatting, rounding, checksum", "c/gnss_converters/src/nmea.c")], observe=["NMEA output callback"])
prop("C31", "NMEA sentences are sent once per epoch, from one epoch's data, at the set rate",
 "A sentence is sent only when all SBP messages it needs carry the same epoch, at most once per epoch, only in epochs selected by its rate, and only from the data source of the selected mode, in fused mode only from completed solution groups whose messages carry the same epoch; satellite lists come only from complete observation sequences.",
 ["histories", "configurations"],
 "all orders and losses of the component messages over two epochs, all modes, rates 0..2, observation sequences with missing and repeated parts",
 "Tests replay recorded streams in one order.",
 ["c/gnss_converters/src/sbp_nmea.c"],
 [("readiness masks and last-sent times", "c/gnss_converters/src/sbp_nmea.c")],
 state=[("last message of each kind", "component data", "c/gnss_converters/include/gnss-converters/sbp_nmea.h")], observe=["NMEA output callback"])
# ------------------------------------------------------------------ system
prop("C32", "Converter instances are independent and restartable",
 "The output of a converter instance depends only on its own configuration and input since it was initialised: interleaving the inputs of two instances, or re-initialising one after any history, gives the same outputs as running each alone from a fresh start.",
 ["histories", "schedules"],
 "all interleavings of two instances' message histories up to the stated depth, and all re-initialisation points, for each converter",
 "Tests run one instance per process at a time.",
 ["c/gnss_converters/src/rtcm3_sbp.c", "c/gnss_converters/src/ubx_sbp.c", "c/gnss_converters/src/ixcom_sbp.c", "c/gnss_converters/src/sbp_nmea.c", "c/gnss_converters_extra/src/sbp_rtcm3.c"],
 [("initialisation functions; per-instance state", "c/gnss_converters/src/*.c")], observe=["output callbacks"])
prop("C33", "Command-line configuration selects exactly what it says",
 "Every accepted combination of the time, time source, constellation and bias options of rtcm3tosbp configures exactly the named time, constellations, signals and values (pseudorange biases by signal code, GLONASS code and phase biases proportional to the frequency channel), and malformed, unknown or impossible values are refused: the program ends with a failure and converts nothing.",
 ["configurations", "inputs"],
 "all option strings up to the stated length over the option alphabet, including separators, unknown names and missing values",
 "Tests parse a few constellation lists.",
 ["c/gnss_converters/src/options.c", "c/rtcm3tosbp/src/rtcm3tosbp.c"],
 [("option parsing", "c/gnss_converters/src/options.c and c/rtcm3tosbp/src/rtcm3tosbp.c")], observe=["SBP output under the configuration"])
prop("C34", "RTCM to SBP: positions, texts, warnings, forwarded and raw navigation data",
 "Every RTCM message outside the observation, ephemeris, correction and bias messages comes through with its values: 1005 and 1006 as one base position in metres, 1029 as one log text that keeps every whole character that fits, 4062 as the SBP message it carries, byte for byte, 4075 as one SBAS message per intact SBAS frame in order, all with the sender of the RTCM station; each kind of warning (MSM1 to MSM3, unknown signal, GLONASS P code) is sent exactly once per converter, an interrupted multi-signal epoch and an epoch with too many observations are announced each time; messages with other numbers have no effect; and before the time is known only messages that need no time are converted, the others leave no trace.",
 ["inputs", "histories"],
 "all values and patterns of each field, all text lengths and character sizes around the cut, all message numbers with the contents of all others, all pairs of messages around the moment the time becomes known, and sequences of warnings and interruptions up to the stated depth",
 "Tests convert one 1005, one 1006 and a few 1029 messages of a recorded stream.",
 ["c/gnss_converters/src/rtcm3_sbp.c", "c/gnss_converters/src/rtcm3_sbp_ephemeris.c", "c/gnss_converters/src/ephemeris/sbas.c", "c/librtcm/src/decode.c"],
 [("rtcm2sbp_decode_payload: which messages need the time; warnings", "c/gnss_converters/src/rtcm3_sbp.c")], observe=["SBP callback of the converter"])

prop("C35", "Programs: the whole input becomes the whole output, and the program ends",
 "Each converter program, the C program or the Rust front end of the same converter, writes to its output exactly the messages its converter makes of its whole input, complete, in order and with nothing else between them, whatever sizes the pieces have in which its input arrives; it ends when the input ends or a read fails, with everything converted from what came before already written; asked for help it converts nothing; a program given an input file, or an input and an output file, reads and writes these and only these, and one given none uses standard input and output.",
 ["inputs", "schedules", "fault_sequences"],
 "all ways to cut the input into reads with up to the stated number of short reads, all cut-off points and all points of a failing read, all combinations of file arguments",
 "Tests call the converter libraries and never run the programs.",
 ["c/rtcm3tosbp/src/rtcm3tosbp.c", "c/sbp2rtcm/src/sbp2rtcm.c", "c/ubx2sbp/src/ubx2sbp_main.c", "c/ixcom2sbp/src/ixcom2sbp_main.c", "c/nov2sbp/src", "rust/lib.rs"],
 [("main loops, read and write callbacks of the programs", "c/*/src/*main*.c"), ("fetch_io, converter main", "rust/lib.rs")], observe=["bytes written by the program", "end of the program"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P))
