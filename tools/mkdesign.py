#!/usr/bin/env python3
"""Writes DESIGN.md from the property list, the rules recorded in the evidence of the last runs, known_findings.txt,
the planted bugs' meta.json and the notes below.  Run the quick checks first."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

INTRO = r"""# Design: model checking gnss-converters

## Method

Every property is decided by **exhaustive enumeration of executions of the real
code** inside stated bounds.  A check is a C++ program linked with the sources of
/repo's working tree, compiled afresh for every run (AddressSanitizer, bounds,
division, unreachable and return checks, assertions on, automatic variables
filled with a pattern).  All its nondeterminism - which segment comes next, where
a read stops, which field departs from its base value and to what, which message
arrives next, which instance or thread steps - is a call `choose(n)` (free) or
`dev(n)` (a deviation from the default 0).  The explorer (`mc/`) enumerates all
choice sequences depth first: every combination of free choices, and all
combinations of at most *k* deviations (`bound_quick`, `bound_thorough`).  Work is
split over the cores by prefixes of choices; nothing is sampled and no seed
matters.  A thorough run that meets its time cap before the space is done
says `exhaustive: false` in its evidence (none does on this machine).

After each step the observable output (callbacks, frames, bytes, structures) is
compared with a **reference model** written independently of the code: a table of
a format's fields at its documented bit offsets, a scan of a whole stream, a set
of received pages, an epoch buffer, a rule for when a sentence is due.  The
reference runs side by side with the implementation on every enumerated history,
so a "model trace" is never only a model trace: each one is replayed against the
code (`traces_validated_against_impl`).  Where states can be recognised again
(C01, C19, C25) the search also stores hashes and closes the state space.

A violation is run again **alone in a fresh process** from its list of choices
before it is reported, so crashes, sanitizer reports, hangs (60 s) and aborts are
attributed to one execution; the list is written to `evidence/replay/` and can be
replayed with `python3 run.py <ID> --replay FILE -v`.

`known_findings.txt` lists the defects found: `fixed:` lines are repaired by
`fix:` commits in /repo (they suppress nothing), `known:` lines are recognised by
the signature of the specific failure and printed as KNOWN-FINDING.

What is *not* done: no sampling or fuzzing decides anything, no solver.  C19 is
the one concurrent property: `time_truth.c` is compiled with its atomic
operations replaced by calls into a controlled scheduler (a header of the check,
no hook in /repo), and all interleavings of 2-4 threads are enumerated and
checked for linearizability.

## The stand-ins

The submodules libswiftnav and libsbp are empty here and the network is off, so
`shim/` provides what the repository needs of them (time functions, leap-second
table, CRCs, signal tables, FIFO, SBP structures, packing and callbacks), written
from their public documentation.  It was validated by building the repository's
own tests (which the sandbox otherwise cannot build) against it: of the suites in
c/*/test, 94 %, 87 %, 100 %, 84 %, 100 %, 100 % and 100 % of the cases pass, the
rest need data or tables that are not in the sandbox (recorded output of the real
broadcast decoders, magnetic and geoid models); every `fix:` commit was checked to
leave these numbers unchanged.  The broadcast decoders of libswiftnav (u-blox
ephemerides) are stand-ins that record the pages they get.

## Bounds and cost

Quick checks take up to about 20 s each including the compilation (all of them
about 4 min), thorough checks at most about 11 min.  Numbers below are of the
quick tier.

## Per property
"""

NOTES = {
"C01": "Oracle: a scan of the whole stream that, after a failed candidate, resumes one byte further. Reaches what tests cannot: every cut, every damage position, every nesting of a true message in a false one.",
"C02": "Oracle: a table of field offsets, widths and kinds; bits are compared, so sign, width and neighbour errors show. Bodies are handed over in exact-size allocations.",
"C03": "Oracle: sanitizers and assertions, plus: the same message with other bytes behind it gives the same result.",
"C04": "Oracle: an independent conversion model (integers and long double) for every SBP field, and the numbering of the observation sequence. Ephemerides with a satellite, week or time that SBP cannot carry have to be left out.",
"C05": "Oracle: exact-size allocations, the return value, and how many bits the message declares, read from its own count fields.",
"C06": "Oracle: table of fields of each message, raw bits against every reported quantity. Background bit patterns show reads of neighbouring fields. Receiver texts (999/2, 999/25) are checked for every length and buffer size; the receiver RF status (999/24) is not judged: nothing in the repository calls its decoder, its format is not documented there, and the one recorded message contradicts the code.",
"C07": "Oracle: msmref.hpp, an MSM writer and reader from the standard's tables.",
"C08": "Oracle: the structure that was encoded, to half a unit of each field; unrepresentable quantities must come back invalid. Encoding goes into two differently filled buffers. Known finding glonass-l1-p-code (pinned by the repository's own tests).",
"C09": "Oracle: counting loops over the masks; the standard's message number table.",
"C10": "Oracle: a bit-by-bit writer and reader; buffers are exactly the bytes the field touches.",
"C11": "Oracle: the standard's formulas, and monotonicity over consecutive indicators.",
"C12": "Oracle: tables of the standards (absolute, not computed by the code under test), bijection checks within each constellation.",
"C13": "Oracle: scan of the whole stream with the standard CRC; the converter's output must be that of the found frames given one by one to a second instance.",
"C14": "Oracle: obsref.hpp, a model of the epoch buffer (what is pending, when it is sent, which cells it holds), compared after every message; scenarios include sub-second epochs and jumps of the converter's time by weeks. A first version asked for GLONASS epochs that `-c` (after 13ac2b0) excludes: false alarm, model corrected. The scenario 'other weeks' found that pending observations of the same time of week in another week were merged into the new epoch (fixed).",
"C15": "Oracle: times in integer milliseconds since the GPS epoch, nearest solution to the reference.",
"C16": "Oracle: obsref.hpp with the arbitration rules (5 s, 120 s). The wording was changed from 'no measurement of an excluded constellation in any message' to 'in the observations' after reading the documentation of the options.",
"C17": "Oracle: a cache of one orbit and one clock message per constellation. The wording was made precise (same update interval is not required; the orbit's is reported). Sequences include every setting of the multiple-message flag.",
"C18": "Oracle: each SBP field from the raw bits times the standard's scale factor. Reserved values are not judged.",
"C19": "Exploration of all interleavings (sequentially consistent, weak compare-exchange may fail as a deviation) of the instrumented time_truth.c; each history is checked for linearizability against a specification in milliseconds.",
"C20": "Oracle: the model of s2r.hpp (pending epoch of one sender, groups of one message each) and an independent reader of the RTCM bit layout. Not judged: reserved bits of the extended information of GPS lock times; a pending epoch that lies far in the future discards older observations by design. Known finding glonass-l1-p-code as in C08.",
"C21": "SBP ephemeris bytes are built from raw RTCM field values with the check's own scale factors; every RTCM field of the output is compared bit-exactly, then the frames are fed back RTCM to SBP and compared with the start.",
"C22": "Oracle: scan of the whole stream which resumes right after the sync bytes of a failed message. Streams end in 4106 zero bytes so that every false length is completed.",
"C23": "Oracle: table of fields at documented offsets; exact-size allocations; all counts, truncations, classes, lengths, checksums.",
"C24": "Oracle: the measurements the message was built from (range to a 2 cm unit, phase and Doppler to 1/256, lock, C/N0, flags).",
"C25": "Pages are built from the signal descriptions, the decoder stand-in records them. Reference: must-set and may-set of pages per satellite. The scenario 'reach' hashes the converter's memory together with the reference and closes the state space (about 2 million states in thorough). Not judged: BDS PRN 64, the 8-word Galileo page.",
"C26": "Oracle: each event is a message plus its meaning in a reference model of receiver and local time. 24 scenarios. Not judged: angles over 2147 degrees, ticks after a gap over 1 s, unknown systems of NAV-SAT, week of the offset after a local reset. Known finding velecef-accuracy-cm.",
"C27": "Oracle: scan of the whole stream resuming one byte after a failed sync byte.",
"C28": "Oracle: fields at documented offsets, CRC computed bit by bit.",
"C29": "Oracle: physical values to a unit, saturation, times and the message count. Not judged: NaN, the time-invalid bit.",
"C30": "Oracle: nmearef.hpp computes each field from the SBP values; four ways of producing sentences. Not judged: negative or NaN covariances with a fix, age 65535, UTC fields out of range, ties, SBAS PRN over 151, axes of near-circular ellipses to 2.5e-4.",
"C31": "Oracle: a rule model run side by side; after every single message the set of sentences and their contents are compared. The wording was corrected: rates are counted in solutions, and fused groups are complete when their end marker has come. Not judged: tow 0, periods that are no whole milliseconds, order of the sentences of one call.",
"C32": "Static variables of the code under test are found through a section pragma and restored before each execution, so every execution starts as a fresh process would; instances are run alone, interleaved, initialised again, abandoned, in memory with other contents.",
"C33": "The program is run end to end; oracle obsref.hpp with the denoted masks and biases. The wording was corrected (GLONASS biases proportional to the channel; what malformed input means). Times are seen through observations near half a week. Not judged: times before GPS week 1876, biases beyond single precision, values of -t and -s, trailing text of -w and -d.",
"C34": "Oracle: the values the message was built from; a rule model of the warnings; for the time gate, relational: a message sent before the time is known, the time, then another message against the same without the first, over all pairs of 330 messages. The scenario 'unsupported' gives every one of the other message numbers the contents of all known messages, with a partial epoch pending. Not judged: a closing zero byte of two warnings, a message MSM1 to MSM3 without a station number, empty observation messages at the end of an empty epoch.",
"C35": "The deciding step runs the real mains with read, write, exit and the standard streams replaced by a World the explorer controls (size of every read, end of input, failing reads, and a limit on reads after the end, which is what notices a program that does not end); oracle: the converter's output for the same bytes in memory, plus a minimum number and length of messages so that a converter silent everywhere does not pass. The five Rust front ends are compiled with rustc against small stand-ins for libc, lazy_static and if_chain (shim/rust) and run as processes with files and pipes in a scratch directory. Not judged: short writes and write errors, exit codes after a failing read, the log on standard error.",
}

def main():
    props = [json.loads(l) for l in open(f'{R}/properties.jsonl')]
    seeds = {}
    for m in sorted(glob.glob(f'{R}/seeded/*/meta.json')):
        d = json.load(open(m)); seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
    kf = [l.strip() for l in open(f'{R}/known_findings.txt') if l.startswith(('known:', 'fixed:'))]
    out = [INTRO]
    for p in props:
        i = p['id']
        ev = f'{R}/evidence/{i}.json'
        d = json.load(open(ev)) if os.path.exists(ev) else None
        out.append(f"### {i} {p['title']}\n")
        out.append(p['statement'] + "\n")
        if d:
            c = d['coverage']
            out.append(f"*Enumerated* ({d['tier']}: {c['executions']:,} executions, {c['transitions']:,} steps): " + c['rule'].rstrip('.') + ". Scenarios: " + ", ".join(c['scenarios']) + ".\n")
            if d['assumptions']: out.append("*Assumed*: " + "; ".join(d['assumptions']) + ".\n")
        if i in NOTES: out.append(NOTES[i] + "\n")
        out.append("*Tests cannot*: " + p['why_tests_cant'] + "\n")
        f = [l for l in kf if f'property={i} ' in l]
        if f:
            out.append("*Defects found*:\n")
            for l in f:
                kind, rest = l.split(':', 1); rest = rest.strip().replace(f'property={i} ', '')
                out.append(f"- {kind}: {rest}")
            out.append("")
        if i in seeds:
            out.append("*Planted bugs kept in seeded/, all caught by this check*:\n" if all(not s[1].get('missed') for s in seeds[i]) else "*Planted bugs kept in seeded/*:\n")
            for n, s in seeds[i]: out.append(f"- `{n}`: {s['what_it_breaks']}" + (" (missed)" if s.get('missed') else ""))
            out.append("")
    out.append(TAIL)
    open(f'{R}/DESIGN.md', 'w').write("\n".join(out))

TAIL = r"""## Planting bugs

Besides the bugs kept in seeded/, several hundred small independent changes were
planted while the checks were built (written from the property texts and the
code, run in scratch copies, thrown away).  What they taught:

- checks that take the code under test as their own reference (C08 round trips,
  C13, C22 and C27 against a second instance) miss errors common to both sides;
  each has absolute expectations besides, or the other side is judged by another
  check (C06, C07, C23);
- histories need times closer than a second (C14), repeated messages with another
  indicator (C16: 1230 of aligned measurements), and flags that only matter
  across messages (C17: multiple-message flag);
- static variables of converters keep state between executions; the explorer
  would find the failure and not reproduce it alone, so C32 restores them.

Found equivalent (no observable change) and therefore not caught: skipping a cell
index after the buffer is full, residual nanoseconds that are always zero,
defaults of channel numbers that the protocol rules out, thresholds on values
that cannot occur.

## Left unjudged, and why

`sbp2rtcm` called with more arguments than it knows; the wrong counter of
`rtcm3_1033_to_1008` (unreachable); zero date of 1029 texts; GLONASS ephemerides
with unknown channel; the log callback of librtcm (never called).
"""
main()
