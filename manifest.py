#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after changes)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
T = {
 "P01": ("proptest: round trip through independent ZIP readers", "All generated archives are opened by the zip crate and an own strict parser; batches by Python zipfile, libarchive, unzip (and Java when thorough). Explores, doesn't prove; trusts those readers."),
 "P02": ("proptest: structural invariant by a strict ZIP parser", "Every byte of each generated archive is attributed to exactly one record and all redundant fields compared with the generator's facts. Sampled inputs."),
 "P03": ("proptest: stateful builder edits, reported size against delivered bytes", "Sampled builder/reader histories; the delivered byte count is the oracle."),
 "P04": ("proptest: model-based read/seek histories against a plain sequential read", "Sampled histories plus sweeps of every offset of small archives; the plain read is itself validated by the strict parser."),
 "P05": ("proptest: model-based histories with a position model", "Sampled histories; position compared after every single poll."),
 "P06": ("proptest: metamorphic comparison over schedules and buffer sizes", "Sampled schedules of scripted sources, abandoned reads and buffers against the undisturbed read."),
 "P07": ("proptest: hand-driven executor with deferred wake-ups", "Every poll has a fresh waker; a pending answer is accepted only when a source was pending and has registered the latest waker; budgets detect livelocks."),
 "P08": ("proptest: histories with a monotone CRC knowledge model", "Sampled histories; true CRCs computed independently."),
 "P09": ("proptest: metamorphic comparison with / without supplied CRCs", "Sampled subsets, histories and schedules."),
 "P10": ("proptest: event-log invariants over instrumented sources", "Sampled histories; opens, reads, seeks, closes and pulled bytes are logged by the source."),
 "P11": ("proptest: lying sources, error oracle with retries", "Sampled lies (size, CRC), buffer sizes and retries."),
 "P12": ("proptest: generated fault injection into sources", "Sampled faults at numbered calls of open/read/seek, plus enumeration of every fault point of small archives."),
 "P13": ("proptest: differential run of forks of a reader", "Sampled histories with clone/take at any moment, both sides continue."),
 "P14": ("proptest: virtual sources with 64 bit sizes, parser by random access", "Sampled sizes around 2^32, 2^63 and the 2^64 limit and up to 200 thousand entries; content sampled at positions."),
 "P15": ("proptest: admission model in 128 bit arithmetic", "Sampled sequences of additions around the limits; before/after comparison on rejection."),
 "P16": ("proptest: round trip of timestamps through archive records", "Sampled setter sequences decoded by the strict parser."),
 "P17": ("proptest: differential against independent calendar arithmetic", "Sampled instants (whole SystemTime range), zones and converters."),
 "P18": ("proptest: model of mode bits", "Sampled setter sequences decoded by the strict parser."),
 "P19": ("proptest: generated directory trees against an independent walk", "Sampled trees in scratch directories on the sandbox's file system."),
 "P20": ("proptest: generated file system objects, in-memory differential", "Sampled objects, names, modes, times, ranges in scratch directories."),
 "P21": ("proptest: generated file modifications between adding and reading", "Sampled modifications and read patterns in scratch directories."),
 "P22": ("proptest: stream histories against the plain archive", "Sampled stream histories with scripted sources and faults."),
 "P23": ("proptest: generated requests against an own range model", "Sampled Range headers, bodies compared with the plain archive."),
 "P24": ("proptest: drops at generated moments, channel history oracle", "Sampled moments, requests and sources."),
 "P25": ("proptest: allocation metering", "Peak heap growth and allocation counts measured by a counting allocator in sampled histories, entries up to 2^40 bytes long with sampled regions."),
 "P26": ("proptest: stateful builder edits against construction from scratch", "Sampled edit histories including clones."),
 "P27": ("proptest: differential between kinds of sources and processes", "Sampled histories over ten kinds of sources; separate processes with other environments."),
 "P29": ("proptest: histories with a count of open descriptors", "Sampled histories over files in scratch directories; descriptors are counted after every operation."),
 "P28": ("proptest: model-based read/seek histories against a cursor over the data", "Sampled histories over files and links in scratch directories."),
}
built = set(os.environ.get("BUILT", " ".join(T)).split())
m = {
 "version": 1,
 "setup_cmd": "./run.sh --build",
 "checks": [
  {"property": p, "quick_cmd": f"./run.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p}",
   "evidence_file": f"evidence/{p}.json", "technique": T[p][0], "level": "exploration", "level_note": T[p][1]}
  for p in props if p in built],
 "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in built],
 "notes": "Harness crate in harness/ (path dependency on /repo, no hooks). Saved regression inputs in corpus/<id>/. known_findings.txt lists repaired defects.",
}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
