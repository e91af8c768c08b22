"""Writes /verif/properties.jsonl (one place to edit titles, statements, anchors)."""
import json, os

S = "src/simplemseed/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
            **({"observe_at": observe} if observe else {}),
            "hook_needed": None,
        },
    })


prop("C01", "Steim1 compression is lossless for every integer series",
     "Every one-dimensional series of 32-bit integers, given as a list or as any integer array type, compresses to Steim1 frames from which a decoder that follows the format definition recovers exactly the samples the result says it holds, starting at the requested offset, with the first and last of those samples stored as the integration constants. Without a frame limit every sample is held; with a limit no more than that many 64-byte frames are produced and encoding stops early only when they are full. Input that cannot be represented (empty, floating point, not one-dimensional, outside 32 bits, bad frame count or offset) is refused with a codec error and never silently altered.",
     ["inputs"],
     "All integer series (length, sample values over the whole 32-bit range, every difference width and its boundaries), all integer array types and byte orders, strided views, lists; all frame limits, starting offsets and carried-over previous values.",
     "The repository tests encode two fixed series as one array type; which word packing is chosen depends on every run of up to four neighbouring differences and on where frames end, so a handful of series cannot settle it.",
     ["steim1.py", "steimframeblock.py"],
     [("difference packing and word selection", S + "steim1.py encodeSteim1FrameBlock"),
      ("frame, nibble and integration-constant bookkeeping", S + "steimframeblock.py SteimFrameBlock")],
     state=[("frame block", "frames built so far, current write position and number of samples held", S + "steimframeblock.py")],
     observe=["encodeSteim1", "encodeSteim1FrameBlock", "decodeSteim1"])

prop("C02", "Steim2 compression is lossless or refuses, for every integer series",
     "Every one-dimensional series of 32-bit integers whose successive differences fit in 30 bits compresses to Steim2 frames from which a decoder that follows the format definition recovers exactly the samples the result says it holds, with the first and last of them stored as the integration constants. Without a frame limit every sample is held; with a limit no more than that many 64-byte frames are produced and encoding stops early only when they are full. A series with a larger difference, or any other input that cannot be represented, is refused with a codec error or still recovered exactly, never silently altered.",
     ["inputs"],
     "All integer series over every difference width (4, 5, 6, 8, 10, 15, 30 bits and beyond) and its boundaries, all integer array types, byte orders, strided views and lists; all frame limits and carried-over previous values.",
     "The repository tests encode two fixed series; the seven packings are chosen from windows of up to seven differences and interact with frame boundaries, so fixed series reach a tiny part.",
     ["steim2.py", "steimframeblock.py"],
     [("packing choice from difference widths", S + "steim2.py minBitsNeeded, bitsForPack"),
      ("bit packing of a word", S + "steim2.py steimPackWord"),
      ("frame bookkeeping", S + "steimframeblock.py SteimFrameBlock")],
     observe=["encodeSteim2", "encodeSteim2FrameBlock", "decodeSteim2"])

prop("C03", "Steim decoding follows the format for every legal packing",
     "Decoding a Steim1 or Steim2 block returns, for any legal packing of the differences into words and frames (not only packings this library's encoder would choose), exactly the requested number of samples with the values the format defines, honouring a carried-over previous value. Malformed blocks (length not a whole number of frames, an illegal packing code, fewer samples than requested) are refused with a codec error, and decoding never alters its input.",
     ["inputs"],
     "All sequences of legal Steim1/Steim2 words (every packing, any order, sign and magnitude), any number of frames, padding, requested counts, carried-over values; arbitrary corrupted blocks.",
     "Tests only decode what the library itself encoded plus a few reference files; other encoders choose other packings and other first differences, and malformed blocks are not tried.",
     ["steim1.py", "steim2.py", "seedcodec.py"],
     [("word extraction", S + "steim1.py extractSteim1Samples; " + S + "steim2.py extractSteim2Samples, extractDnibValues"),
      ("integration and count check", S + "steim1.py decodeSteim1; " + S + "steim2.py decodeSteim2")],
     observe=["decodeSteim1", "decodeSteim2", "decompress"])

prop("C04", "Uncompressed encodings preserve every value in either byte order",
     "Writing 16-bit, 32-bit integer, 32-bit or 64-bit float samples to bytes in either byte order and decoding them returns the same values bit for bit (not-a-number values stay not-a-number), for every supported container and with the byte layout the encoding defines. Decoding with fewer bytes than the sample count needs, or an encoding outside the supported set, raises a codec error; the library's statement of which encodings it can decode agrees with what it decodes.",
     ["inputs"],
     "All arrays over the four primitive encodings with extreme, denormal, infinite and signed-zero values, both byte orders, numpy arrays of either byte order, strided views, array.array and lists; all truncations; all encoding numbers.",
     "Tests round-trip a few small ramps in native byte order.",
     ["seedcodec.py"],
     [("encode", S + "seedcodec.py encode"), ("decode", S + "seedcodec.py decompress"),
      ("encoding from container type", S + "seedcodec.py mseed3EncodingFromNumpyDT, mseed3EncodingFromArrayTypecode")],
     observe=["encode", "decompress", "EncodedDataSegment.decode", "canDecompress"])

prop("C05", "Packed miniSEED3 records conform to the specification and round-trip",
     "Packing a record always yields bytes laid out as the miniSEED3 specification says: indicator, version, every header field at its offset in little-endian order, identifier, extra headers and payload with true byte lengths, and the CRC-32C of the whole record. Reading those bytes back gives the same identifier, header values, extra headers and samples, however the samples were supplied; records whose parts do not fit the format's length fields, or whose samples do not fit the encoding, are refused rather than written wrongly.",
     ["inputs"],
     "All header field values, identifiers of 0 to 255 bytes (and longer), extra headers as text or objects up to and beyond 65535 bytes, all sample containers, types and sizes including beyond 65535 samples, Steim-compressed and opaque payloads, and no payload.",
     "Tests pack a few short records; lengths near the limits of the 8-, 16- and 32-bit length fields, unusual containers and full-range header values are not reached.",
     ["mseed3.py", "seedcodec.py"],
     [("record assembly and CRC", S + "mseed3.py MSeed3Record.pack"),
      ("fixed header layout", S + "mseed3.py MSeed3Header.pack"),
      ("sample normalisation and sanity checks", S + "mseed3.py MSeed3Record._internal_set_data")],
     observe=["MSeed3Record.pack", "unpackMSeed3Record"])

prop("C06", "Reading a miniSEED3 record is faithful and repacking reproduces it",
     "For every well-formed miniSEED3 record, produced by any writer, reading it exposes exactly the header values, identifier, extra headers and payload that the bytes contain, decodes its samples to the values the encoding defines, and packing the untouched record again reproduces the same bytes. This holds for undefined flag bits, unknown encodings, and records without data, identifier or extra headers.",
     ["inputs"],
     "All well-formed records built independently of the library: every flag, encoding, publication version, time field, rate, identifier and extra header text, payloads in every decodable encoding and opaque ones.",
     "Tests read a fixed set of reference files, which share identifiers, rates and flags.",
     ["mseed3.py"],
     [("header parsing", S + "mseed3.py unpackMSeed3FixedHeader"), ("record parsing", S + "mseed3.py unpackMSeed3Record"),
      ("decode", S + "mseed3.py MSeed3Record.decompress")],
     observe=["unpackMSeed3Record", "readMSeed3Records", "MSeed3Record.pack"])

prop("C07", "A damaged miniSEED3 record is never returned as good data",
     "With checksum verification on, a record in which any bits were flipped, bytes overwritten, removed or inserted, or which was cut short, is reported as an error instead of being returned as data, whether it is read alone or from a stream. In a stream, all intact records before the damage are returned unchanged first.",
     ["inputs", "fault_sequences"],
     "All records and streams of records; all single and multiple bit flips, byte overwrites, deletions, insertions, swaps and truncation points in any part of a record including its length and checksum fields.",
     "No repository test damages a record; which part of the record is protected depends on how the checksum is accumulated over header, identifier, extra headers and payload.",
     ["mseed3.py"],
     [("checksum over whole record", S + "mseed3.py unpackMSeed3Record"), ("checksum in the stream reader", S + "mseed3.py readMSeed3Records")],
     observe=["unpackMSeed3Record", "readMSeed3Records"])

prop("C08", "Streams of miniSEED3 records are read completely, in order and filtered exactly",
     "Reading a stream yields every record exactly once, in order and unchanged, from the current position to the end, whatever mix of record sizes, encodings and identifiers it holds. With an identifier pattern it yields exactly the records whose identifier the regular expression matches anywhere, in the same order; readers over different streams do not affect one another.",
     ["inputs", "histories"],
     "All sequences of well-formed records (including empty payloads and identifiers and large payloads), all search patterns, starting positions, with and without checksum verification, and interleavings of several readers.",
     "Tests read two or three fixed files with one pattern; alignment errors only appear with particular sequences of sizes and skipped records.",
     ["mseed3.py"],
     [("stream framing and skipping", S + "mseed3.py readMSeed3Records")],
     observe=["readMSeed3Records"])

prop("C09", "Merging miniSEED3 records loses, repeats and alters nothing",
     "Merging records, pairwise or while reading a stream, gives records whose samples per channel, in order, are exactly those of the inputs. A merged record starts at its first part's start time, keeps that part's identifier, flags, rate, publication version and extra headers, counts all samples, packs to a valid record, shares no mutable state with its inputs, and leaves the inputs as they were; records that cannot be decoded come through unchanged.",
     ["inputs", "histories"],
     "All sequences of records: contiguous runs, gaps, overlaps, several channels, mixed encodings including Steim and opaque payloads, with and without extra headers, empty records, with and without an identifier pattern.",
     "The only merge test joins two fixed records; accumulation over longer runs, breaks, and mixed encodings are histories a sample cannot cover.",
     ["mseed3.py"],
     [("pairwise merge", S + "mseed3.py mseed3merge"), ("pending record in stream merge", S + "mseed3.py readMSeed3Records")],
     state=[("pending merged record", "run of contiguous records not yet yielded", S + "mseed3.py readMSeed3Records")],
     observe=["mseed3merge", "readMSeed3Records(merge=True)"])

prop("C10", "Records merge exactly when they are adjacent and of the same kind",
     "Two records of uncompressed samples merge into one when, and only when, they have the same identifier, sample rate, encoding and publication version and the second starts about one sample period after the first one's last sample: a difference of well under half a period either way still merges. A gap of more than half a period, a second record that starts at or before the first one's end, or any mismatch leaves both records as they were, and a stream splits into exactly the runs this rule defines.",
     ["inputs", "histories"],
     "All pairs and streams of records over all start times (across minute, day, leap-day and year ends), rates and periods, sample counts, gaps and overlaps away from the exact half-period tolerance, and every single-field mismatch.",
     "Tests show one pair that merges; the rule's negative side and its behaviour across rates and calendar boundaries are untested.",
     ["mseed3.py"],
     [("compatibility rule", S + "mseed3.py areCompatible"), ("record times", S + "mseed3.py MSeed3Header.starttime, endtime")],
     observe=["mseed3merge", "readMSeed3Records(merge=True)"])

prop("C11", "miniSEED3 record times and rates follow the calendar and each other",
     "Setting a start time from a date-time or ISO text in any time zone stores the same instant as UTC year, day of year and time of day, and reading it gives that instant back to the microsecond; fields read from bytes give the instant they denote, including leap days and leap seconds. A time written as text (isoWZ, as in summaries) denotes that same instant, whatever its zone. What is not a start time is refused and changes nothing. Sample rate and sample period are each other's inverse whichever was stored, and the end time is the start plus the period times one less than the number of samples, also for records without a sample rate.",
     ["inputs"],
     "All instants from year 1 to 9999 to the microsecond, naive and zoned with any offset, text in ISO forms, all stored field combinations the specification allows including second 60 and day 366, all rates and periods over many orders of magnitude, all sample counts.",
     "One test sets one start time; calendar and offset arithmetic varies with every date.",
     ["mseed3.py"],
     [("start time fields", S + "mseed3.py MSeed3Header.starttime"), ("end time", S + "mseed3.py MSeed3Header.endtime"), ("time as text", S + "util.py isoWZ"),
      ("rate/period", S + "mseed3.py MSeed3Header.sampleRate, samplePeriod")],
     observe=["MSeed3Header.starttime", "MSeed3Header.endtime", "MSeed3Header.sampleRate", "MSeed3Header.samplePeriod"])

prop("C12", "A miniSEED3 record always packs to what its edits say, after any history",
     "After any sequence of edits to a record (extra headers set, replaced, changed in place or deleted; identifier, start time, flags, version changed) mixed with packing, cloning, decoding, size and text queries, packing gives a valid record holding exactly the latest values and the original samples. Queries, decoding, cloning and packing change nothing that can be observed later, and a clone shares no later change with its origin.",
     ["histories"],
     "All sequences of record operations on records of every encoding, created or read from bytes, with extra headers as text, object or absent.",
     "Tests build, pack and read once; stale lengths, cached extra headers and shared objects only show after particular sequences.",
     ["mseed3.py"],
     [("extra header caching and deletion", S + "mseed3.py MSeed3Record.eh"), ("lengths recalculated on pack", S + "mseed3.py MSeed3Record.pack"),
      ("clone", S + "mseed3.py MSeed3Record.clone, MSeed3Header.clone")],
     state=[("extra headers", "either unparsed text or a parsed object, switched on first access", S + "mseed3.py MSeed3Record._eh"),
            ("header lengths and CRC", "refreshed when packing", S + "mseed3.py MSeed3Header")],
     observe=["MSeed3Record.pack", "MSeed3Record.clone", "MSeed3Record.eh", "MSeed3Record.details", "MSeed3Record.getSize"])

prop("C13", "A miniSEED2 record written here reads back as what was put in",
     "Packing a miniSEED2 record gives a record of exactly the declared length, readable by the format's definition, that holds the given codes, quality, sequence number, flags, start time (to 0.1 ms, or 1 microsecond with a timing blockette), rate, every blockette with its contents, and the samples bit for bit in the declared encoding and byte order. A blockette 1000 is always present, the blockette chain reaches every blockette, and data never overlaps blockettes. Data that does not fit the record is refused.",
     ["inputs"],
     "All codes of legal length, start times, flags, rates, sample counts, containers and byte orders, Steim payloads, record lengths from 128 to 4096+, and lists of blockettes of the known and unknown kinds.",
     "Tests create three small records with no blockettes, default flags and quality.",
     ["miniseed.py"],
     [("record assembly", S + "miniseed.py MiniseedRecord.pack, packBlockette, packData"), ("fixed header", S + "miniseed.py MiniseedHeader.pack, packBTime")],
     observe=["MiniseedRecord.pack", "unpackMiniseedRecord"])

prop("C14", "Reading miniSEED2 streams is faithful for any writer's layout",
     "Reading a stream of well-formed miniSEED2 records yields each record once, in order, with the codes, quality, times, rate, flags, blockettes and samples its bytes hold: whichever byte order header and data use, whatever the record length, blockette order and positions, and with or without data. With an identifier pattern exactly the matching records are yielded, a stream cut short never yields wrong samples, and packing an unedited record gives an equivalent one.",
     ["inputs", "histories"],
     "All streams of records built independently of the library: both header byte orders, both data byte orders, record lengths 128 to 4096, chains of known and unknown blockettes at any legal offset, all decodable encodings, dataless records, mixed within one stream, all patterns, all truncation points.",
     "Tests read three fixed files, all of 512-byte big-endian records from similar writers.",
     ["miniseed.py"],
     [("stream framing", S + "miniseed.py readMiniseed2Records"), ("byte order detection", S + "miniseed.py unpackFixedHeaderGuessByteOrder"),
      ("blockette parsing", S + "miniseed.py unpackBlockette")],
     observe=["readMiniseed2Records", "unpackMiniseedRecord", "MiniseedRecord.decompress"])

prop("C15", "Any sample rate survives the miniSEED2 factor and multiplier",
     "The sample rate read back from the two 16-bit numbers written for it differs from the rate given by at most about 3 parts in 100000, for rates from once in many months to many MHz, and is exact for whole rates and whole periods up to 32766. Records read from other writers get the rate that the format's four sign combinations of factor and multiplier define, and successive-record times follow from that rate.",
     ["inputs"],
     "All rates from 1e-8 to 1e8 samples per second, all whole rates and periods, all pairs of signed 16-bit factor and multiplier, all sample counts.",
     "Tests write one sample rate.",
     ["miniseed.py"],
     [("rate to factor and multiplier", S + "miniseed.py MiniseedHeader.calcSeedMultipilerFactor"),
      ("factor and multiplier to rate", S + "miniseed.py MiniseedHeader.__init__"), ("times from rate", S + "miniseed.py MiniseedRecord.endtime, next_starttime")],
     observe=["MiniseedHeader.pack", "unpackMiniseedHeader", "MiniseedRecord.endtime", "MiniseedRecord.next_starttime"])

prop("C16", "Converting miniSEED2 to miniSEED3 preserves the data and its meaning",
     "Converting a miniSEED2 record gives a valid miniSEED3 record with the same samples in the same encoding, the same start instant to the microsecond (a leap second stays one, marked in the extra headers), the same sample rate (the precise one when the record carries it), the source identifier for the same codes, the calibration, questionable-time and clock-locked flags in their miniSEED3 positions, and the data quality and timing quality as extra headers. This holds for either byte order and any layout, the result packs and merges like any other record, and the original is unchanged.",
     ["inputs"],
     "All miniSEED2 records over codes, times (including leap seconds and microsecond corrections), rates, flags, quality codes, encodings, both byte orders, record lengths and blockette combinations.",
     "One test converts one big-endian Steim file and compares with a fixed result.",
     ["mseed2to3.py", "miniseed.py", "mseed3.py"],
     [("conversion", S + "mseed2to3.py mseed2to3")],
     observe=["mseed2to3", "MSeed3Record.pack"])

prop("C17", "Source identifiers convert between their forms without loss",
     "For every set of codes, printing a network, station, location or channel source identifier and parsing the text gives an equal identifier with the same codes, and going through network-station-location-channel codes in short or extended form gives the same codes back. The enclosing location, station and network identifiers are those of the same codes, identifiers are equal exactly when of the same level with the same codes, a start year is appended exactly to old-style temporary networks, and text with a wrong prefix or number of parts is refused.",
     ["inputs"],
     "All legal codes of every length including empty location, band and subsource, all four levels, all separators, all years and two-letter networks.",
     "Tests parse a dozen fixed identifiers.",
     ["fdsnsourceid.py"],
     [("parse and print", S + "fdsnsourceid.py FDSNSourceId.parse, __str__"), ("older codes", S + "fdsnsourceid.py FDSNSourceId.fromNslc, parseNslc, asNslc, shortChannelCode"),
      ("temporary networks", S + "fdsnsourceid.py NetworkSourceId")],
     observe=["FDSNSourceId", "NetworkSourceId", "StationSourceId", "LocationSourceId", "NslcId"])

prop("C18", "Source identifier validation accepts exactly what the rules allow",
     "Validation accepts an identifier exactly when its network is 1 to 8 of A-Z and 0-9, its station 1 to 8 of A-Z, 0-9 and dash, its location 0 to 8 of A-Z, 0-9 and dash but not two dashes, its source one or more of A-Z and 0-9, and its subsource empty or the same, at every level that has those parts. Every rejection comes with a reason. Temporary network codes are recognised exactly by their published patterns, the test network excepted.",
     ["inputs"],
     "All strings for each part: lengths around the limits, every ASCII character, digits and letters of other scripts, whitespace and newlines, in one or several parts at once.",
     "Tests validate a handful of good identifiers and a few bad ones.",
     ["fdsnsourceid.py"],
     [("per-level validation", S + "fdsnsourceid.py validate methods and patterns")],
     observe=["validate", "isTemporary", "isTempNetConvention", "isTempNetHistorical", "isSeedTempNet"])

prop("C19", "Band codes follow the published table for every rate",
     "For every sample rate, or period given as a negative number, and response corner, the band code is the one whose row in the published table covers that rate and corner; a period gives the same code as the equivalent rate, and no or zero rate is irregular. Codes never go backwards as the rate grows, and every code that can be returned has a description that names its range.",
     ["inputs"],
     "All rates from 1e-12 to 1e9 including every table boundary and its neighbouring floating-point numbers, all periods, all response corners as frequency, period or absent.",
     "Tests try a few rates in the middle of rows.",
     ["fdsnsourceid.py", "bandcode.json"],
     [("band code choice", S + "fdsnsourceid.py bandCodeForRate"), ("descriptions", S + "fdsnsourceid.py bandCodeDescribe")],
     observe=["bandCodeForRate", "bandCodeInfo", "bandCodeDescribe", "FDSNSourceId.createUnknown"])

prop("C20", "Editing extra headers in files changes only what was asked",
     "The extra-header set command changes exactly the addressed value (or the whole object) in the first matching record, or in all matching records when asked, across the given files; every other record stays byte for byte in place, the edited ones keep all else and have a valid checksum. The get command prints exactly the addressed values in record order, and a command that fails leaves every file it could not complete as it was.",
     ["inputs", "configurations", "fault_sequences"],
     "All files of records, identifier patterns, pointers (existing, new, nested, missing, empty), JSON values given directly or by file, one or several files, and damaged input.",
     "No repository test runs the command line tools.",
     ["mseed3details.py", "mseed3.py"],
     [("set in place via temporary file", S + "mseed3details.py do_set_eh"), ("get", S + "mseed3details.py do_get_eh")],
     observe=["mseed3details --set/--setall/--fset/--fsetall/--get/--getall"])

prop("C21", "The merge command writes exactly the merged content of its input",
     "The merge command writes a file of valid records that holds, per channel and in order, exactly the samples of the input file, joined into as few records as the merge rule allows and no fewer, with undecodable records copied unchanged. The input file is not modified, and damaged input makes the command fail rather than quietly write incomplete data.",
     ["inputs", "configurations"],
     "All input files of records: contiguous runs, gaps, several channels, all encodings; damaged files; verbose or not.",
     "No repository test runs the command.",
     ["mseed3merge.py", "mseed3.py"],
     [("merge command", S + "mseed3merge.py main")],
     observe=["mseed3merge -o"])

prop("C22", "The conversion command converts every record of a miniSEED2 file",
     "The conversion command writes one valid miniSEED3 record per miniSEED2 record of the input, in order, each with the same samples, start instant, rate and codes, and exits successfully, with or without progress output. The input file is not modified.",
     ["inputs", "configurations"],
     "All files of miniSEED2 records over encodings, byte orders, record lengths, blockettes and channels; verbose or not.",
     "No repository test runs the command; the library test converts one file.",
     ["mseed2to3.py"],
     [("conversion command", S + "mseed2to3.py main")],
     observe=["mseed2to3 -2 -3"])

prop("C23", "The details commands report every matching record and its true contents",
     "The details commands for both formats report each record that matches the pattern once and in order across all given files, with its true identifier, start and end time and sample count, and finish with the true totals of samples and records; asked for data, they print every sample value. They handle every readable record, including ones without data or sample rate, and do not modify any file.",
     ["inputs", "configurations"],
     "All files of miniSEED3 and miniSEED2 records, one or several files, with and without patterns, summary, extra header and data options.",
     "No repository test runs the commands.",
     ["mseed3details.py", "mseed2details.py", "mseed3.py", "miniseed.py"],
     [("totals and filters", S + "mseed3details.py do_details; " + S + "mseed2details.py do_details"),
      ("record text", S + "mseed3.py MSeed3Record.summary, details; " + S + "miniseed.py MiniseedRecord.summary, details")],
     observe=["mseed3details", "mseed2details"])

prop("C24", "Arbitrary bytes never hang the readers or yield invented data",
     "Reading any bytes at all as either format ends after a bounded number of steps with an error or with records, never a hang. Every miniSEED3 record that is returned with checksum verification on is exactly the one the bytes at its position spell out, and every miniSEED2 record returned has the header its bytes spell out and decodes, if at all, to as many samples as its header counts.",
     ["inputs", "fault_sequences"],
     "All byte strings: random, valid records with random mutations, splices and truncations, extreme length, offset and count fields.",
     "Tests only read well-formed files.",
     ["mseed3.py", "miniseed.py", "seedcodec.py", "steim1.py", "steim2.py"],
     [("bounded reads", S + "mseed3.py readMSeed3Records; " + S + "miniseed.py readMiniseed2Records"), ("count checks", S + "seedcodec.py decompress")],
     observe=["readMSeed3Records", "unpackMSeed3Record", "readMiniseed2Records", "unpackMiniseedRecord", "decompress"])

prop("C25", "A miniSEED2 record always packs to what its edits say, after any history",
     "After any sequence of reading, decoding, packing, cloning, printing and changing the start time, rate, codes, flags or blockettes of a miniSEED2 record, packing gives a record with exactly the latest values and the original samples. Decoding, cloning, printing and packing change nothing that can be observed later, and repeated packing gives the same bytes.",
     ["histories"],
     "All sequences of record operations on records of every encoding and byte order, created or read from bytes, with any blockettes.",
     "Tests pack and read a record once; cached samples and blockettes inserted while packing only matter in longer histories.",
     ["miniseed.py"],
     [("cached samples versus encoded bytes", S + "miniseed.py MiniseedRecord.decompress, pack"), ("blockette insertion", S + "miniseed.py MiniseedRecord.pack"),
      ("time and rate setters", S + "miniseed.py MiniseedHeader.setStartTime, setSampleRate")],
     state=[("decoded samples", "cached after the first decode", S + "miniseed.py MiniseedRecord._data"),
            ("blockette list", "gains a blockette 1000 when packing", S + "miniseed.py MiniseedRecord.blockettes")],
     observe=["MiniseedRecord.pack", "MiniseedRecord.clone", "MiniseedRecord.decompress"])

prop("C26", "The source-identifier command explains every identifier, code and rate",
     "The source-identifier command prints, for every identifier of any level given, its codes, and for every known band or source code given or listed its own description, and for a sample rate or period the band code or codes that the table gives. An unknown code inside an otherwise valid identifier does not stop the command from explaining the rest.",
     ["inputs", "configurations"],
     "All valid identifiers at all four levels, every listed and unlisted band and source code, all rates and periods, in any combination of options.",
     "No repository test runs the command.",
     ["fdsnsourceid.py", "bandcode.json", "sourcecode.json"],
     [("command", S + "fdsnsourceid.py main"), ("descriptions", S + "fdsnsourceid.py bandCodeDescribe, sourceCodeDescribe")],
     observe=["fdsnsourceid"])

prop("C27", "Data survive any chain of the commands",
     "A miniSEED2 file that is converted to miniSEED3 and then taken through any sequence of merging, extra header edits and details listings yields, at every step, a file of valid records that holds, per channel and in order, exactly the original samples, with start times and extra headers that records had before the step or that the step set. Each command succeeds, reports the true totals, and leaves its inputs as they were.",
     ["inputs", "histories"],
     "All miniSEED2 files and all sequences of the commands over them.",
     "No repository test runs any command, nor one command on what another wrote.",
     ["mseed2to3.py", "mseed3merge.py", "mseed3details.py", "mseed3.py", "miniseed.py", "seedcodec.py"],
     [("conversion", S + "mseed2to3.py mseed2to3, main"), ("merging while reading", S + "mseed3.py readMSeed3Records, mseed3merge"), ("editing", S + "mseed3details.py main")],
     observe=["mseed2to3", "mseed3merge", "mseed3details"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
