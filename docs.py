"""What each check specifies, against which oracle, within which bounds.

Used for the evidence files, MANIFEST.json and the per-property part of DESIGN.md.
Keys: how (what is decided and against what), bounds, outside, assumptions (list), beyond (why tests cannot settle it)."""
IO = "allocation never fails; absl containers/strings/Status/logging are replaced by the header shim in shim/ (same interface, no hashing randomness, no formatting of log messages)"
DOCS = {
"P01": dict(
  how="Write a symbolic value with a symbolic width after a symbolic prefix of 0-7 bits, compare every bit of the buffer with an independent MSB-first bit model, read it back; every signed/boolean literal kind likewise; reads with too large or negative widths.",
  bounds="all 2^64 values, all widths 0..65 (reads: any int), all 8 starting offsets, one literal after one prefix",
  outside="buffers longer than one literal plus prefix (P02, P06 cover sequences)",
  beyond="width x offset x value interactions: the faulty combination is one in 2^70"),
"P02": dict(
  how="Histories of reader operations (read n bits, bytes, Tell, save/Seek back, Seek to any target, IgnoreBytes, PushBytes, Flush) on a memory, stream and file-like reader over symbolic source bytes, compared with an independent bit-array model after each operation; the last operation may Seek to any int64.",
  bounds="3 operations (thorough 4), source of up to 11 bytes, buffer capacities 1..4 bytes; operands as listed in the harness, the last seek target any int64",
  outside="longer histories and sources; read sizes other than the listed ones",
  beyond="errors depend on the refill boundary meeting a seek or flush at one specific offset"),
"P03": dict(
  how="Encode any uint32 with the minimal and each fixed-size generator, any int32 as SLEB, any value as ISO 14496-1; compare with a reference encoding, decode; decode any 9 bytes against a reference decoder with any limit; any generator size.",
  bounds="all 32-bit values, fixed sizes 1..8 (creation: any int8), any byte string of 0..9 bytes, any ISO limit",
  outside="nothing within the interface (nine bytes exceed the eight any decoder looks at)",
  beyond="single values at 7-bit boundaries per size"),
"P04": dict(
  how="Strings of chosen lengths with symbolic contents (including NULs) at bit offsets 0 and 3, byte arrays at all offsets, and any bytes read as a string, against a direct model.",
  bounds="string lengths 0,1,2,5,126..129 and neighbours; arrays of 0..7 bytes at every offset; arbitrary input of 0, 6, 128, 130 bytes",
  outside="other string lengths between 6 and 125 (same loop)",
  beyond="the terminator at exactly the 128th byte, embedded NULs at every position"),
"P05": dict(
  how="Write headers with any type, flags, trims and extension, compare with the specified bytes, read back; read any bytes and compare acceptance, every field, payload size and position with an independent parser; the same for peeking.",
  bounds="any field values; extension of 0,1,2,5,8 (and 200) bytes; generators minimal/fixed; arbitrary input of 0..7 bytes (thorough 10)",
  outside="longer arbitrary headers; extensions of other sizes",
  beyond="declared size one short of the optional fields; sizes at 2^21 and 2^32 limits"),
"P06": dict(
  how="Parse any payload bytes as each simple OBU with a payload size before, at and after the end of the fields; assert exact consumption, kept footer, rejection of short payloads, byte-identical re-writing and equal re-parsing.",
  bounds="any payload of 0..8 bytes (thorough 11) for IA sequence headers, delimiters, audio frames (explicit and 18 implicit types) and metadata; codec configs, elements, mixes and blocks: see P08-P12",
  outside="longer payloads of those types; padded ULEB sizes are read but not byte-identical by design",
  beyond="combinations of declared size and content length"),
"P07": dict(
  how="Any sequence header fields written, any payload bytes read; acceptance compared with 'code is iamf and primary profile known'.",
  bounds="all field values; payloads of 0..9 bytes", outside="none beyond the footer (P06)",
  beyond="every profile value and code byte"),
"P08": dict(
  how="Writer: any field values for LPCM, Opus, FLAC (6 block structures) and AAC (8 descriptor variants), acceptance compared with the specification's constraints, derived rate/depth/roll distance with the mandated ones, then read back. Reader: payloads with all fields symbolic against an independent decoder, re-written byte-identically when the writer takes them; arbitrary bytes.",
  bounds="all field values; FLAC with up to one extra metadata block; layouts of fixed encoded ULEB sizes with free contents; any payload of 0..7 bytes (thorough 13)",
  outside="longer unstructured payloads; FLAC with more metadata blocks",
  beyond="one illegal rate/size/roll among 2^32"),
"P09": dict(
  how="Payloads of every element kind with all fields symbolic in fixed layouts (4 layer counts, ambisonics mono/projection, 1-2 objects, extensions, parameter lists) with matching/mismatching substream counts, plus arbitrary bytes; writer side with any field values; independent decoder and acceptance rule; re-written byte-identically.",
  bounds="up to 7 layers written (limit is 6), 6 read; up to 4 substreams symbolic, 5-byte ids concrete layouts; parameter lists as listed; layer counts to 262, parameter counts to 100000; any payload of 0..7 bytes (thorough 10)",
  outside="more than four substreams with symbolic ids; longer unstructured payloads",
  beyond="duplicate ids in any pair of positions, counts that wrap at 8 bits"),
"P10": dict(
  how="Create mono/projection configurations with symbolic counts, maps and matrices, read configurations from bytes, compare acceptance with the definition and check round trips; the next valid channel count for any request.",
  bounds="channel counts 1,4,9,16,225 (mono: whole map with up to 4 free entries, 225: free entries at chosen places), any substream/coupled counts; wrong sizes as listed; any payload of 0..7 bytes (thorough 9)",
  outside="maps of 25..196 channels with free entries everywhere", beyond="a substream named nowhere in an otherwise valid map"),
"P11": dict(
  how="Build presentations with symbolic values over families of structures (loudness, rendering configurations with every position type, label counts, sub-mix/element structures, tags, optional fields), compare acceptance, exact payload bytes, read back, re-write; read arbitrary tails (tags, optional fields) and arbitrary loudness bytes against an independent reader.",
  bounds="up to 2 sub-mixes, 2 elements, 3 labels, 3 tags of up to 5 characters, 3 anchored loudness values; arbitrary tails up to 4 bytes and loudness of 5..9 bytes (thorough 15)",
  outside="more than 28 sub-mixes or 256 labels (writable but not readable); unstructured whole payloads",
  beyond="interactions of counts and flags (anchors equal, second content_language tag, missing stereo layout)"),
"P12": dict(
  how="Parameter blocks of all 13 type x schedule kinds with symbolic contents in fixed layouts against an independent decoder (schedule, durations, per-subblock data), re-written byte-identically; every tick of the block is looked up and compared with the covering subblock; arbitrary bytes.",
  bounds="1..3 subblocks, durations symbolic (ticks: small durations), two recon-gain layers, layouts one byte short/exact/longer; any payload of 0..5 bytes (thorough 7)",
  outside="more subblocks; unstructured longer payloads", beyond="the last (shorter) subblock, sums that wrap at 32 bits"),
"P13": dict(
  how="All eight definition types: written with symbolic fields and schedules, acceptance compared with the consistency rule; read from fixed layouts with symbolic contents and from arbitrary bytes; re-written and re-read.",
  bounds="schedules of 0..3 subblocks (any durations), any rates and defaults; any bytes of 1..6 (thorough 8)",
  outside="more than three listed subblocks", beyond="sums that wrap; constant interval equal to/above the duration"),
"P14": dict(
  how="Audio frames with any id/trim/payload written and read, metadata (ITU-T T.35, iamf tags, unknown types) written and read, arbitrary OBUs; field-level comparison with a reference decoder.",
  bounds="payloads up to 3 bytes, any substream id, tags 1..3 with strings of up to 2 characters (counts 0, 255, 256), any metadata payload of 0..7 bytes (thorough 10)",
  outside="longer contents", beyond="ids 17/18, T.35 extension byte 0xFF, tag counts at 255/256"),
"P16": dict(
  how="Times: any int64 start/end/target, acceptance exactly when ordered, a step constant. Values: control points symbolic, curve time concrete; the solver (linear real arithmetic over the code's own float expression) bounds the value by the control points and by the analytic curve within 0.02 dB.",
  bounds="all 16-bit control points; durations of 12 kinds (1..2^31), all relative-time classes listed (5 quick, 64 thorough) and 6-8 target positions each; any int64 times for acceptance and steps",
  outside="float rounding below the tolerance (floats are reals in these queries); other relative times/targets",
  assumptions=["floating-point arithmetic treated as real arithmetic with tolerance 0.02 dB for linear and Bezier values"],
  beyond="extrapolation for particular control points and times"),
"P17": dict(
  how="Every checked cast among 8x8 types (bit-precise, including float sources), checked add/mult, Q7.8/Q0.8/normalised conversions over all IEEE-754 inputs, range/size/uniqueness/endianness helpers against their mathematical definition.",
  bounds="all inputs (32/64-bit floats and integers); containers up to a few elements", outside="larger containers",
  beyond="boundary values, NaN payloads, subnormals"),
"P18": dict(
  how="Create the module from elements with symbolic ids, then any history of audio-frame and parameter-block requests with any id, duration and claimed start, against one clock per id.",
  bounds="3 requests (thorough 4) over up to 3 substreams and 2 parameter ids (shared or not); any id <128, any 32-bit duration and int64 start",
  outside="longer histories; continuing after a rejected block of the same id (unspecified)",
  beyond="a rejected request disturbing another clock"),
"P19": dict(
  how="Any collection of frames, blocks and arbitrary OBUs with symbolic ids, times, trims, and missing links; acceptance, interval, untrimmed count, multiset and order compared with the definition.",
  bounds="up to 3 frames, 2 blocks, 2 arbitrary OBUs; all 32/64-bit values", outside="more contents per unit",
  beyond="trims whose sum wraps, equal ids in non-adjacent positions"),
"P20": dict(
  how="Histories of adding demixing/recon-gain blocks and querying/updating at any time for two elements (separate, shared or partly defined ids) against an independent state machine; long walks of the weight index; creation rules; the conversion table.",
  bounds="4 operations (thorough 5) any int64 times; walks of 5 frames (thorough 8) with any mode per frame; one or two elements",
  outside="longer histories, more elements", beyond="state carried between frames: mode changes and missing blocks"),
"P21": dict(
  how="All 9 base layouts with chains of up to 3 layers: samples are symbolic reals, down-mixed by the real down-mixers and demixed by the real demixers; every original channel is proved equal (LP over reals), smaller layouts equal to the specification's formulas; missing/mis-sized/foreign substreams, degenerate parameters; DownmixerManager's handing to substreams.",
  bounds="chains of up to 3 layers, 1 tick, 6 mode/index pairs of down-mix parameters per chain, any sample in [-1,1]; recon gain one (and the de-emphasis by given gains); manager: 2 samples",
  outside="float rounding (tolerance 1e-6); longer frames",
  assumptions=["floating-point arithmetic treated as real arithmetic with tolerance"],
  beyond="every chain x mode combination for all signals"),
"P22": dict(
  how="Any loudspeaker layouts for chains of layers, symbolic substream ids and counts, ambisonics maps, objects: labels and substream assignment compared with an independent table of each layout's channels; ear order and demixing label tables.",
  bounds="1..3 layers with any of 16 layouts and 13 expanded ones (6 layers for ascending chains), mono maps of 4/9 channels, projection up to 8; any gain flags",
  outside="maps above 9 channels with symbolic entries", beyond="all ascending chains"),
"P23": dict(
  how="Profile filters applied to audio elements with any layouts/modes/codecs and mix presentations with symbolic channel counts; the surviving profile set compared with the limits of each profile.",
  bounds="any first/second layer layout, element counts to 29, channel counts around every limit, one/two sub-mixes, codecs as listed", outside="three or more sub-mixes",
  beyond="exactly-at-limit counts for each profile"),
"P24": dict(
  how="Selection of the mix presentation and layout for playback over shapes of presentations with symbolic ids/layouts, symbolic requested id and layout, compared with the rules of IAMF 7.4.1 and the API documentation; simplification for rendering.",
  bounds="1-3 mixes of the listed shapes (SHAPES 4 quick, 9 thorough), up to 2 sub-mixes x 2 layouts, any ids, any requested layout", outside="more mixes",
  beyond="precedence between id, layout, headphones and default"),
"P25": dict(
  how="Any layout value and reordering scheme with marker samples: output is the mandated permutation for exactly the documented layouts, identity otherwise, and refused for wrong channel counts.",
  bounds="any layout byte, 0..24+ channels as listed, one or two ticks", outside="none material", beyond="every layout x channel count"),
"P26": dict(
  how="LPCM sample packing, encoder and decoder with symbolic samples and bytes for all depths and both endiannesses; stale state between frames; interleaving/transposing helpers.",
  bounds="all samples of 16/24/32 bits; frames of up to 2 ticks, 1-2 channels, 2 frames in sequence; payload lengths from 0 to one frame over", outside="longer frames",
  beyond="sign extension for every value, partial payloads, frames after a shorter one"),
"P27": dict(
  how="Chosen label lists over chosen channel sets with any trims, any single label, presence/equal-length helper: arranged samples, order and trims compared with the definition.",
  bounds="up to 2 labels (thorough 3) over up to 3 channels of up to 4 ticks; any 32-bit trims", outside="more labels", beyond="trims that wrap or meet in the middle"),
"P28": dict(
  how="Any sequence of Push (any shape)/Flush with a recording processing step that may fail, plus the ambisonics mixer; protocol and exposed span compared with a model.",
  bounds="3 calls (thorough 4), up to 3 channels x 3 ticks, 0..2 output samples per input", outside="longer sequences", beyond="a failed flush followed by another"),
"P29": dict(
  how="Any history of PushDescriptorObus/PushTemporalUnit/UpdateDescriptorObusAndClose/Close/Abort on ObuSequencerBase with an output whose operations fail at any chosen points; the bytes and order reaching the output compared with an independent serialisation; single calls with symbolic ids for descriptor and unit order.",
  bounds="histories of 4 calls with up to 2 faults (thorough 5), delayed and immediate mode; up to 2 codec configs, 2 elements, 2 mixes, 2 arbitrary OBUs per hook with symbolic ids; units of 2 frames, 1 block",
  outside="file output of ObuSequencerIamf; longer histories", beyond="fault x history interleavings"),
"P15": dict(
  how="19 valid OBU payloads (every OBU kind, codec, element type, parameter kind) in which a window of bytes at any position is arbitrary and the data may end right there, parsed and printed by the real parsers; and a whole valid stream (descriptors, two temporal units with demixing, recon gain and mix gain blocks, a scalable element and a scene) in which any byte is arbitrary, read, decoded and rendered by ObuProcessor. Every load, store, division, allocation, CHECK and exception on every path is an assertion of the engine; the harness adds that nothing is read past the end and that every processing step makes progress.",
  bounds="windows of 2 bytes (thorough 3; 1 byte where numbers of subblocks are), at every position of the payloads, with and without an early end; one arbitrary byte (thorough two) anywhere in a stream of 211 bytes; allocations controlled by the input: every size up to 32, one representative above",
  outside="changes at two distant places at once; AAC/FLAC/Opus packets (third-party decoders); values of pow are arbitrary",
  beyond="every position x every value; tests corrupt a few chosen fields"),
"P30": dict(
  how="Three layers. DescriptorObuParser on descriptor streams ending anywhere: insufficient data leaves everything unconsumed and the completed stream parses to the same descriptors. ObuProcessor on temporal-unit streams given in up to three pieces at any positions: after each piece exactly the complete OBUs are consumed, and the units (times, samples, blocks) are those of the stream; any one OBU of a few bytes between units (any type, flags, contents) gives the same trace whole and in pieces. The whole public IamfDecoder (rendering included) on streams cut anywhere, with any policy of taking output, refused output buffers and resets: the samples are those of the stream, in order.",
  bounds="3 descriptor streams, 7 unit streams with symbolic samples, all single and double cuts; any OBU of 0-2 payload bytes (thorough 3; extension flag only without payload); decoder: 6 streams (stereo, 7.1 in both channel orders) with concrete samples, one cut (thorough two), 3 output policies, 3 kinds of reset",
  outside="longer streams, more cuts, AAC/FLAC/Opus and binaural rendering in the whole-decoder runs, what follows an error status",
  assumptions=[IO, "AAC, FLAC, Opus decoders and binaural rendering are compiled out with the repository's own switches"],
  beyond="every cut position x consumption policy; the tests cut at a few chosen points"),
"P31": dict(
  how="WavReader over a stand-in for the third-party header parser/sample reader that returns any header and symbolic samples and may end early; the samples exposed, their scaling and the open/close discipline compared with a model.",
  bounds="up to 3 channels x 2 ticks per frame (thorough 4x4), files of up to 2 frames+1; 16/24/32-bit and float samples, all values",
  outside="the third-party WAV header parser and raw sample decoding (iamf/../dsp, not in this repository)",
  assumptions=["ReadWavHeader/ReadWavSamples behave as their documentation says (stand-in); fopen/fclose are recorders"],
  beyond="early end of data, NaN and out-of-range floats"),
"P32": dict(
  how="Any BW64 file bytes through Bw64Reader against an independent chunk walk; chunk orders with one arbitrary size; long chunks; the XML parser replaced by a recorder.",
  bounds="any file of 0..45 bytes (thorough 51); listed chunk sequences with one arbitrary 32-bit size and up to 2 missing bytes; 32-bit chunk sizes up to 4 GB with stand-in stream", outside="longer arbitrary files",
  assumptions=["std::istream is a stand-in over memory with the standard seek/tell/read/eof semantics", "expat parsing is a recorder"],
  beyond="sizes that wrap, odd sizes, chunks past the end"),
"P33": dict(
  how="GetRenderingGains for any pair of names of listed lengths (all bytes symbolic): found exactly for the table's pairs with a complete finite matrix; decompression of any blob against an independent decoder.",
  bounds="names of 0,2,5,6,7,8 bytes; blobs for matrices of up to 2 elements (thorough 3), any bytes", outside="other name lengths (no table entry has them)",
  beyond="names near a table entry, malformed blobs"),
"P34": dict(
  how="Any sequence of pushes, pads and pops against per-channel queues.", bounds="4 operations (thorough 5), 1-3 channels, frame size 1-3, any samples", outside="longer sequences",
  assumptions=["channels are aligned when a frame is popped or padding is added (documented use)"], beyond="partial blocks crossing recycled frames"),
"P41": dict(
  how="CollectAndValidateParamDefinitions on two audio elements and one or two mix presentations with two definitions of the same or different kinds and ids, one aspect of them symbolic at a time; the verdict is compared with an independent field-by-field comparison and the result with the descriptors. Common rate, depth and frame size on up to three symbolic values.",
  bounds="14 pairs of kinds (gains, demixing, recon gain, two kinds of position, unknown) x three aspects (rate and reserved bits: any; schedules: none, constant or variable with small durations; own fields: any position, a few gains, modes, layers); up to 3 codec configurations, all rates, depths and frame sizes",
  outside="the remaining position kinds, more than two meeting definitions, two aspects differing at once",
  assumptions=[],
  beyond="every single field in which two definitions can differ",
  ),
"P42": dict(
  how="AudioElementRendererBinaural runs against a stand-in for the third-party binaural renderer (obr) which records what it is given and answers with symbolic samples; two frames in a row, one of them trimmed, with symbolic samples; what reaches the stand-in is compared channel by channel with the frame (projected where the element says so) followed by silence, and what comes out with the stand-in's answer.",
  bounds="every loudspeaker layout in one or two layers (expanded ones with all 13 values), ambisonics orders 0-5 mono (absent, permuted channels) and projection with one matrix per order; frames of 32 ticks of which the first two and last two are symbolic in [-1,1] (the others distinct constants), one of two frames trimmed in six ways, up to completely; frame sizes 0, 31, 32, 33, 16384, 16385 and the largest; a renderer that refuses; real arithmetic with a tolerance of 1e-5",
  outside="what the third-party renderer computes; other frame sizes; rounding to single precision",
  assumptions=["double and float arithmetic is modelled as real arithmetic", "obr's buffer has the interface of the stand-in and starts silent (obr is not installed here)"],
  beyond="every channel of every layout, and what an earlier frame leaves behind",
  ),
"P40": dict(
  how="AmbisonicsMixer for every codec and preset runs on frames of symbolic samples; the output goes through the repository's projection with the announced demixing matrix (or the announced channel mapping) and is compared with the input.",
  bounds="4 codecs x 4 presets and two given configurations; all samples in [-1,1] in real arithmetic; three frames of 2, 0 and 1 ticks (thorough 4, 0, 1); tolerance 5e-4 for the 16-bit matrices (their true error is below 3e-4)",
  outside="orders above three, rounding of double arithmetic",
  assumptions=["double arithmetic is modelled as real arithmetic"],
  beyond="every entry of the mixing and demixing matrices",
  ),
"P39": dict(
  how="WavWriter runs against recorders for fopen/fwrite/fseek/fclose/remove and the third-party header writer; sequences of calls (frames, byte blocks, flush, abort) chosen symbolically, with a symbolic failing operation; the recorded file is compared with a list of what was accepted.",
  bounds="1 to 3 channels, 16/24/32 bits, with and without header; frames of up to 2 ticks (3 offered); 2 calls (thorough 3) in any order before destruction; one sample any double, byte blocks any bytes; any depth when the writer is made; opening, header writing and each of the first two writes can fail",
  outside="failures of fclose, fseek and of the final header (the writer does not report them); the header's bytes (third-party audio_to_tactile); zero channels",
  assumptions=["the file operations behave as in ISO C and set errno when they fail"],
  beyond="every order of calls with every failing operation",
  ),
"P38": dict(
  how="The conversions are run on symbolic enumeration values in both directions and compared with the public header's documentation (sound system and number of channels).",
  bounds="every value of the 8-bit enumerations, all layout types, sound systems and reserved bits; channel counts any 32-bit integer",
  outside="values outside the public enumerations given to the conversions from the interface (they end the program by design)",
  assumptions=[],
  beyond="every value in both directions",
  ),
"P37": dict(
  how="RenderingMixPresentationFinalizer with the real renderers on mixes with symbolic samples and step gains per tick; recording processors and loudness calculators; every layout's samples are compared with output gain times the sum of element gain times rendered element at the tick before trimming; measured loudness (symbolic) against what is written and, when validating, the error; call sequences against a state machine.",
  bounds="7 sets of mixes (up to 2 mixes x 2 sub-mixes x 2 elements x 3 layouts, stereo/mono to stereo/mono/5.1, one layout nobody can render); frames of 3 ticks, two in sequence, trims up to 2 at the start and 1 at the end under all trimming settings; default gains, blocks for every, only element or only output gains, partial coverage, shared parameter ids; all samples in [-1,1] in real arithmetic, tolerance 1e-4 for float gains; loudness values any 16 bits; 3 calls (thorough 5, all combinations of both units)",
  outside="linear and Bezier gain animation inside a mix (P12 and P16 decide the gains of a block), more elements, the ITU-R 1770-4 loudness measurement (third-party)",
  assumptions=["double arithmetic is modelled as real arithmetic", "every element of a sub-mix has a frame in each unit (as the callers ensure)"],
  beyond="the alignment of animated gains with trimmed frames, every layout of every sub-mix at once",
  ),
"P36": dict(
  how="The renderer RendererFactory chooses is created and run on frames with symbolic samples for every pair of layouts, with and without down-mix parameters in the frame, with trims; the output is compared per channel and tick with the sum defined by the gain tables and the formulas of IAMF 7.3.",
  bounds="30 channel (and expanded) layouts x 15 playback layouts plus headphones; one or two layers; ambisonics orders 0-4, mono (absent, permuted channels) and projection with one matrix per order; all samples in [-1,1]; frames of 2 ticks, two in sequence; all down-mix parameters in [0,1]; real arithmetic with a tolerance of 1e-6",
  outside="binaural rendering (third-party), longer frames, other projection matrices; the values of the gain table itself (the reference here; P33 decides its completeness)",
  assumptions=["double arithmetic is modelled as real arithmetic"],
  beyond="every pair of layouts and every input channel",
  ),
"P35": dict(
  how="ProbeReportToJson for reports with symbolic numbers/flags/enums and symbolic string bytes in every string place; the text is parsed back by an independent RFC 8259 parser and compared value by value.",
  bounds="one symbolic string character (thorough two) in each string place, one entry per list (several entries in the list cases), all integer/flag values", outside="strings of more symbolic characters; non-finite report values",
  beyond="escaping of every byte in every place, separators for every emptiness combination"),
}
for d in DOCS.values():
  d.setdefault("assumptions", [])
  d["assumptions"] = d["assumptions"] + [IO]
