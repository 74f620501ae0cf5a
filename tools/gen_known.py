#!/usr/bin/env python3
"""Writes known_findings.json from the list below (fixed entries name the fix commit by its subject)."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C03", "fix: decode half 0x7BFF", "the four-wide half-float decoder returned NaN for 0x7BFF/0xFBFF (+-65504); also broke C01"),
 ("C02", "fix: sampling with a context larger", "sampling with a context larger than the animation read and wrote keys of tracks the animation does not have (wrong output or panic); also broke C01"),
 ("C06", "fix: zero the memory of a new SamplingContext", "a new SamplingContext exposed uninitialised memory through its accessors, equality and serialisation; also broke C02"),
 ("C05", "fix: don't trust element counts", "corrupted element counts made archive loading abort on huge allocations, panic or read out of bounds; empty skeleton archives did not load (C04)"),
 ("C04", "fix: read archived booleans", "archived bytes other than 0/1 were transmuted to bool (undefined behaviour)"),
 ("C05", "fix: don't make zero-sized allocations", "empty skeletons and animations asked the allocator for zero bytes (undefined behaviour); also broke C04"),
 ("C06", "fix: announce the four elements of a serialised SoaQuat", "SoaQuat's serde implementation announced 3 elements but wrote 4"),
 ("C06", "fix: deserialise SamplingContext from any serde format", "SamplingContext could only be deserialised from formats that lend borrowed strings"),
 ("C06", "fix: SoA values are serialised as fixed-size arrays", "SoA values were written as sequences and read as arrays: skeletons, contexts and SoA values could not be restored from bincode"),
 ("C06", "fix: a sampling context can be restored from positional", "SamplingContext was written as a map of unknown length and read in another field order: bincode could neither write nor restore it"),
 ("C08", "fix: clamp local-to-model ranges", "to/from near i32::MAX overflowed when clamping the local-to-model range"),
 ("C09", "fix: blend the rest pose into an output longer", "an output buffer longer than the skeleton panicked/misindexed in the rest pose pass"),
 ("C06", "fix: accept correctly aligned archived sampling contexts", "validating a correctly aligned archived SamplingContext with bytecheck failed"),
 ("C14", "fix: sample a track before its first key", "sampling a track before its first key (first key not at 0) underflowed the key index: panic or extrapolated value"),
 ("C16", "fix: check all blending layers", "a blending job with an invalid or poisoned later layer wrote its output before reporting the error"),
 ("C16", "fix: check a whole skinning job", "SkinningJob: run() panicked without joint matrices, validate() and run() disagreed (tangents without normals, empty matrices, poisoned inverse-transpose matrices), vertex_count * influences overflowed"),
 ("C18", "fix: make BlendingJobRef usable", "the BlendingJobRef alias named an output type that is not a buffer, so the borrowed flavour of the blending job could not be used through it"),
 ("C19", "fix: same sine and cosine of huge angles", "sine/cosine of huge angles (also through the IK jobs' twist angle) converted out-of-range floats with to_int_unchecked: undefined behaviour, different results on x86-64 and WebAssembly"),
 ("C19", "fix: clamp negative zero", "a sampling ratio or joint weight of -0 gave zeros of different sign in different builds (min/max of +0 and -0 is unspecified)"),
]
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for p, subj, what in FIXED:
    m = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith(subj)]
    assert len(m) == 1, (subj, m)
    out.append(f"fixed: property={p} {m[0]} {what}")
KNOWN = [
 {"property": "C11", "signature": "pole-aligned-nan",
  "what": "IKTwoBoneJob: start joint correction is NaN when the pole vector lies exactly on the line to the target (null plane normal, src/ik_two_bone_job.rs compute_start_joint); not repaired because the existing test test_pole_target_alignment asserts the NaN"},
]
json.dump({"known": KNOWN, "fixed": out}, open(f"{root}/known_findings.json", "w"), indent=1)
open(f"{root}/known_findings.json", "a").write("\n")
