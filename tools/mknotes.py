"""Writes tools/level_notes.json (one place to edit technique and note of each check)."""
import json, os
N = {
"C01": ("property-based testing (Hypothesis): encode generated series, decode with an independent Steim1 decoder", "Series to a few thousand samples; refusals, limits, offsets generated; exploration, no proof."),
"C02": ("property-based testing (Hypothesis): encode generated series, decode with an independent Steim2 decoder", "Series to a few thousand samples; refusals and limits generated; exploration, no proof."),
"C03": ("property-based testing: legal packings from an independent encoder, mutated blocks, coverage-guided search (atheris) over frames", "Packings of a few frames to some hundred samples."),
"C04": ("property-based testing: round trip and bit-level layout oracle (struct)", "Values include NaN payloads, signed zeros, extremes; small arrays."),
"C05": ("property-based testing: pack generated records, parse with an independent miniSEED3 parser, round trip", "Sizes up to and beyond the length fields' limits are generated; exploration, no proof."),
"C06": ("property-based testing: records from an independent writer, differential against a reference parser, re-pack metamorphic relation", "Records to some thousand samples."),
"C07": ("property-based fault injection: mutations of valid records and streams against a reference acceptance rule", "Random mutations, plus every single bit flip of small records."),
"C08": ("stateful property-based testing: generated streams and interleaved readers against a reference parser", "Streams to about a dozen records."),
"C09": ("model-based property testing: generated record sequences against a reference merge", "Sequences to about a dozen records; pairs whose gap is near the tolerance are excluded."),
"C10": ("model-based property testing: exact rational-time merge rule as oracle", "No claim between minus one and minus half a period and near plus half a period."),
"C11": ("property-based testing against exact calendar arithmetic", "Whole range of fields; leap seconds included."),
"C12": ("stateful model-based property testing: generated edit histories against a model record", "Histories to some dozen steps."),
"C13": ("property-based testing: pack generated records, parse with an independent miniSEED2 parser, round trip", "Record lengths 128 to 131072; years the byte-order rule can tell apart only."),
"C14": ("property-based testing: streams from an independent writer, differential against a reference parser; truncation faults", "Streams to some records; years 1801 to 2054 (byte order guess)."),
"C15": ("property-based testing against exact rational arithmetic; every whole rate and period enumerated", "Tolerance 3.1e-5; whole rates and periods to 32766 exact and enumerated."),
"C16": ("property-based differential testing against independent parsers of both formats", "Generated miniSEED2 records in all layouts of C14."),
"C17": ("property-based testing: round trips and algebraic relations against a model of the codes", "All legal codes by generation."),
"C18": ("property-based testing against an independent character-by-character rule", "Strings around each limit, all scripts; band content not claimed."),
"C19": ("property-based testing against an independent table of rates", "Rates between the table's ambiguous bounds (0.5 to 1, 1 to 1.5 Hz) only partly claimed."),
"C20": ("property-based testing of the command in scratch files against a model of the file's content, with faults", "In-process runs of the command's main function; small files."),
"C21": ("property-based testing of the command in scratch files against a reference merge, with faults", "In-process runs of the command's main function; small files."),
"C22": ("property-based testing of the command in scratch files against independent parsers", "In-process runs of the command's main function; small files."),
"C23": ("property-based testing of the commands' output against independent parsers", "Text is compared by the facts it must contain, not by layout."),
"C24": ("fuzzing: structured mutations (Hypothesis) and coverage-guided search (atheris) against reference parsers, with a bounded-step reader", "Inputs to some kilobytes."),
"C25": ("stateful model-based property testing: generated edit histories against a model record", "Histories to some dozen steps."),
"C26": ("property-based testing of the command's output against the published tables", "Text is compared by the facts it must contain, not by layout."),
"C27": ("stateful property-based testing: generated command sequences over one file, each step against a model of the file's content", "One to three channels of up to five records, up to six commands."),
}
V = os.path.dirname(os.path.abspath(__file__))
json.dump({k: dict(technique=t, note=n) for k, (t, n) in N.items()}, open(os.path.join(V, "level_notes.json"), "w"), indent=1)
