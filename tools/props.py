#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a))

C = "iamf/common/"; O = "iamf/obu/"; L = "iamf/cli/"
p("P01", "Fixed-width literals survive a write/read round trip at any bit offset",
  "Any value written as an unsigned, signed or boolean literal of n bits at any bit offset is stored most-significant bit first, leaves earlier bits untouched, advances the position by exactly n bits, and reads back as the same value. A write is refused exactly when the value does not fit in the requested width or the width exceeds what the call supports.",
  ["inputs"], "every value, width 0..65 and starting bit offset 0..7, for all literal kinds",
  "Byte-aligned and unaligned fast paths, word-boundary shifts and sign extension interact; tests sample a few widths at a few offsets out of 2^64 values.",
  [C+"write_bit_buffer.cc", C+"read_bit_buffer.cc"],
  [("bit packing", C+"write_bit_buffer.cc InternalWriteUnsigned"), ("bit unpacking", C+"read_bit_buffer.cc ReadUnsignedLiteralInternal")])
p("P02", "Bit-reader position, seeking and buffering never change what is read",
  "Whatever the internal buffer capacity and however bytes are pushed, flushed, skipped or re-sought, a reader returns exactly the source bits at its reported position, reports the number of whole bytes left correctly, and never moves or reads past the end: running out of data fails with a resource-exhausted error and leaves the position where it was. Seeking back to an earlier reported position and reading again gives the same value.",
  ["inputs", "histories"], "all source bytes, capacities and interleavings of push, read, seek, ignore, flush up to the stated lengths",
  "Refill logic depends on capacity, alignment and history; a test fixes one capacity and one sequence.",
  [C+"read_bit_buffer.cc", C+"read_bit_buffer.h"],
  [("refill and seek", C+"read_bit_buffer.cc ReadBitBuffer::Seek"), ("stream push/flush", C+"read_bit_buffer.cc StreamBasedReadBitBuffer")],
  [("source position and buffered window", "which source bits are cached and where the next bit comes from")])
p("P03", "Variable-length integers encode and decode consistently",
  "Every 32-bit value encoded as ULEB128 (minimal or with any fixed size that can hold it), SLEB-style or as an ISO 14496-1 expandable size decodes to the same value and consumes exactly the bytes produced; minimal encodings are the shortest possible and a fixed size is refused only when the value does not fit. Any byte string is either decoded to a value within range from at most eight bytes or rejected, never truncated to a wrong value.",
  ["inputs", "configurations"], "all 2^32 values, all generator modes and fixed sizes, all byte strings up to eight bytes",
  "The carry/size boundaries and the over-long or over-range encodings are a vanishing share of what tests sample.",
  [C+"leb_generator.cc", C+"read_bit_buffer.cc", C+"write_bit_buffer.cc"],
  [("ULEB128 encoding", C+"leb_generator.cc"), ("accumulating decoders", C+"read_bit_buffer.cc AccumulateUleb128OrIso14496_1Internal")])
p("P04", "Strings and byte arrays round trip with their terminator and length limits",
  "A string without embedded NUL and at most 127 characters, or any byte array, written at any bit offset reads back identically and consumes exactly its encoded size; longer strings and strings with an embedded NUL are refused, and reading never accepts a string without a terminator within 128 bytes.",
  ["inputs"], "all contents; lengths 0..129 and bit offsets 0..7",
  "Boundary lengths combined with arbitrary contents and unaligned offsets.",
  [C+"write_bit_buffer.cc", C+"read_bit_buffer.cc"],
  [("string framing", C+"write_bit_buffer.cc WriteString / "+C+"read_bit_buffer.cc ReadString")])
p("P05", "OBU headers round trip and account for every byte of the OBU",
  "Any header the writer accepts reads back field for field with exactly the payload size that was written and the reader positioned at the payload; the reader accepts a header only if the declared size covers the optional trimming and extension fields, and otherwise rejects it. Peeking at a header reports the same type and the same total size that reading it consumes, and never disturbs the position.",
  ["inputs"], "all header field values, payload sizes and all byte strings up to the stated length",
  "Sizes near 2^32 and inconsistent size fields come only from malformed or adversarial streams.",
  [O+"obu_header.cc", O+"obu_header.h"],
  [("payload size arithmetic", O+"obu_header.cc GetObuPayloadSize"), ("peek", O+"obu_header.cc PeekObuTypeAndTotalObuSize")])
p("P06", "OBU payload framing is respected and re-serialisation is byte-identical",
  "Parsing an OBU payload consumes exactly the declared payload size: bytes the parser does not understand are kept verbatim as a footer, a payload that needs more bytes than declared is rejected, and nothing beyond it is touched. An OBU that was parsed writes back the very same bytes (given the same size encoding), and an OBU that was written parses back equal.",
  ["inputs"], "all payload bytes and declared sizes up to the stated length for each OBU type",
  "Off-by-one framing errors show only for particular combinations of declared and actual sizes.",
  [O+"obu_base.cc", O+"obu_base.h", O+"temporal_delimiter.h", O+"arbitrary_obu.cc", O+"audio_frame.cc", O+"ia_sequence_header.cc"],
  [("framing", O+"obu_base.cc ReadAndValidatePayload / ValidateAndWriteObu")])
p("P07", "IA sequence header accepts exactly the supported code and known profiles",
  "A sequence header is accepted on read and write exactly when its code is 'iamf' and its primary profile is known, and then all fields round trip.",
  ["inputs"], "all four-byte codes and profile bytes",
  "2^48 combinations.", [O+"ia_sequence_header.cc"], [("validation", O+"ia_sequence_header.cc")])
p("P08", "Codec configurations round trip and only valid ones are accepted",
  "For LPCM, Opus, FLAC and AAC-LC, every codec configuration the writer accepts reads back equal, every configuration the reader accepts and the writer takes is written back byte-identically, and the derived sample rates, bit depths and audio roll distance are the ones mandated for that codec. Configurations that violate the codec's constraints (illegal sample size or rate, wrong roll distance, zero samples per frame, wrong version or fixed field) are rejected; FLAC frame sizes and MD5 that IAMF fixes to zero are tolerated on read but refused by the writer.",
  ["inputs"], "all field values for each codec", "Each codec has dozens of fields with constrained ranges; tests check single-field edits.",
  [O+"codec_config.cc", O+"decoder_config/lpcm_decoder_config.cc", O+"decoder_config/opus_decoder_config.cc", O+"decoder_config/flac_decoder_config.cc", O+"decoder_config/aac_decoder_config.cc"],
  [("codec config validation", O+"codec_config.cc"), ("decoder configs", O+"decoder_config/")])
p("P09", "Audio elements round trip and structurally invalid ones are rejected",
  "Every channel-based, ambisonics, object or extension audio element the writer accepts reads back equal in every field it carries, and one that was read is written back byte-identically. Elements with no layers or more than six, layers whose substream counts do not add up to the number of substreams, duplicate substream ids, duplicate or mix-gain parameter types, a binaural layer among others, a missing expanded layout, other than one or two objects or inconsistent sizes are rejected on both sides.",
  ["inputs"], "all field values within the stated numbers of substreams, parameters and layers",
  "The nested variants (layers, parameters, extension blobs) multiply combinations beyond sampling.",
  [O+"audio_element.cc", O+"audio_element.h"], [("audio element parsing and writing", O+"audio_element.cc")])
p("P10", "Ambisonics configurations describe a valid channel mapping",
  "An ambisonics configuration is accepted exactly when its output channel count is a full order (1, 4, 9, ... 225), its substream and coupled counts fit it, and a mono mapping names every substream at least once with only valid or dropped indices; unknown modes are rejected. Accepted configurations round trip.",
  ["inputs"], "all channel/substream counts and mapping or matrix entries within bounds",
  "Whether every substream is covered is a property of the whole mapping vector.",
  [O+"ambisonics_config.cc"], [("mapping validation", O+"ambisonics_config.cc")])
p("P11", "Mix presentations round trip, including loudness, layouts and tags",
  "A mix presentation is written exactly when it is valid (at least one sub-mix and one audio element per sub-mix, audio element ids unique over all sub-mixes, label counts matching, distinct languages, a stereo layout in every sub-mix, distinct anchors, at most one content_language tag and that of three characters, tags and optional fields present when the header announces them, fields fitting their width), its payload is the specified one, and it reads back with equal fields (sub-mixes, rendering configurations, element gain offsets, layouts, loudness, tags, optional fields) and is re-written byte-identically. On reading, tags, optional fields and loudness are accepted exactly when well formed and keep their contents; a sub-mix without a stereo layout keeps its layouts and gains a stereo one. The number of channels of a layout is that of its sound system.",
  ["inputs"], "all field values within the stated counts", "Optional fields are keyed on flag bits whose combinations tests do not cover.",
  [O+"mix_presentation.cc", O+"rendering_config.cc", O+"element_gain_offset_config.cc"],
  [("mix presentation parsing and writing", O+"mix_presentation.cc")])
p("P12", "Parameter blocks follow their schedule and round trip",
  "A parameter block's subblock durations add up to its duration and every subblock's data is returned for exactly the interval it covers; blocks read with their parameter definition re-write byte-identically, for mix gain, demixing, recon gain and extension parameters. Inconsistent schedules (a subblock sum different from the duration, zero durations) are rejected.",
  ["inputs", "configurations"], "all schedules and payload values within the stated subblock counts", "Schedule arithmetic involves the definition's mode, constant durations and remainders together.",
  [O+"parameter_block.cc", O+"param_definitions/subblock_schedule.cc", O+"mix_gain_parameter_data.cc", O+"demixing_info_parameter_data.cc", O+"recon_gain_info_parameter_data.cc"],
  [("subblock schedule", O+"param_definitions/subblock_schedule.cc"), ("parameter block", O+"parameter_block.cc")])
p("P13", "Parameter definitions accept exactly consistent schedules and round trip",
  "A parameter definition is written exactly when its rate is non-zero and its schedule is consistent (subblock durations non-zero and summing to the duration, constant interval not exceeding it) and the type-specific restrictions for demixing and recon gain hold; on reading, a schedule carried in the definition is validated the same way, and written definitions round trip.",
  ["inputs"], "all field values within the stated subblock counts", "Cross-field constraints over 32-bit durations.",
  [O+"param_definitions/param_definition_base.cc", O+"param_definitions/mix_gain_param_definition.cc", O+"param_definitions/demixing_param_definition.cc", O+"param_definitions/recon_gain_param_definition.cc", O+"param_definitions/extended_param_definition.cc"],
  [("definition validation", O+"param_definitions/param_definition_base.cc")])
p("P14", "Audio frame, delimiter and metadata OBUs round trip",
  "Audio frames keep their substream id (implicit or explicit), trimming and payload; metadata OBUs of every type keep their contents; each re-writes byte-identically, and the implicit-id types are used for exactly ids 0 to 17.",
  ["inputs"], "all ids, trims and payload bytes within bounds", "The id-to-type mapping and the implicit payload length leave many corner cases.",
  [O+"audio_frame.cc", O+"metadata_obu.cc", O+"temporal_delimiter.h", O+"arbitrary_obu.cc"], [("audio frame", O+"audio_frame.cc"), ("metadata", O+"metadata_obu.cc")])
p("P15", "Parsing arbitrary bytes is memory-safe and always terminates",
  "No byte sequence fed to any descriptor, parameter-block, audio-frame or header parser causes an out-of-bounds access, use after free, division by zero, failed internal check, uncaught exception, oversized allocation or endless loop; the outcome is always a parsed object or an error status.",
  ["inputs"], "all byte strings up to the stated length for each parser", "Hostile inputs are exactly the ones nobody wrote a test for.",
  [O+"obu_base.cc", O+"audio_element.cc", O+"mix_presentation.cc", O+"codec_config.cc", O+"parameter_block.cc", L+"obu_processor.cc", L+"descriptor_obu_parser.cc"],
  [("all ReadAndValidate parsers", O)])
p("P16", "Mix-gain animations stay within their control points",
  "Interpolating a mix-gain animation returns the start value at the start and the end value at the end, the same constant for a step, and for every time in between a finite value inside the range spanned by its control points, namely that of the straight line or Bezier curve at that time; times outside the animation are rejected.",
  ["inputs"], "all control points (16-bit) and times", "Quadratic solving over 2^48 control-point combinations, with degenerate control points that divide by zero.",
  [C+"utils/obu_util.h", O+"mix_gain_parameter_data.cc", O+"parameter_block.cc"], [("interpolation", C+"utils/obu_util.h InterpolateMixGainValue")])
p("P17", "Numeric conversions are exact, saturating or rejected as documented",
  "Checked additions and narrowing conversions succeed exactly when the mathematical result is representable; Q7.8/Q0.8 fixed-point conversions reject values outside the format, normalised-sample conversions clip to full scale and reject NaN and infinities, both round trip within one quantisation step and are monotonic; range, size and equality checks agree with the mathematical definition, whatever the operand types, infinities or NaN.",
  ["inputs"], "all 32/64-bit and floating-point inputs", "Rounding and overflow boundaries are single points among 2^32 or 2^64 inputs.",
  [C+"utils/numeric_utils.cc", C+"utils/numeric_utils.h", C+"q_format_or_floating_point.h", L+"sample_processing_utils.h"], [("conversions", C+"utils/numeric_utils.cc")])
p("P18", "Timestamps advance contiguously per substream and parameter",
  "Each substream's audio frames and each parameter id's blocks get back-to-back intervals starting at zero whose lengths are the reported durations; a global timestamp is reported exactly when all substreams agree, and unknown ids, gaps or overlaps are rejected: an unknown id changes no clock, and a rejected block never disturbs another id's clock.",
  ["histories"], "all interleavings of frames and blocks up to the stated length", "Errors appear only in particular interleavings of several substreams and parameters.",
  [L+"global_timing_module.cc"], [("timestamp bookkeeping", L+"global_timing_module.cc")], [("per-id next timestamp", "where the next frame or block must start")])
p("P19", "Temporal units contain exactly one aligned set of frames",
  "A temporal unit is formed only from frames that share timestamps and trimming with unique substream ids and from parameter blocks with unique ids, its contents come out sorted, and its untrimmed duration equals frame duration minus trims; inconsistent inputs, including trims longer than a frame, are rejected.",
  ["inputs"], "all ids, timestamps and trims within the stated counts", "Consistency is a property of the whole collection.",
  [L+"temporal_unit_view.cc"], [("validation and sorting", L+"temporal_unit_view.cc")])
p("P20", "Parameter state is applied to the frame it belongs to",
  "Demixing and recon-gain values returned for an audio element at a time are those of the parameter block covering that time, or the specified defaults when there is none; the demixing weight index follows its update rule from frame to frame, elements that share a parameter id each follow its blocks, and blocks without data or whose timing does not match are rejected.",
  ["histories"], "all sequences of blocks and queries up to the stated length", "The weight index is a running state over frames.",
  [L+"parameters_manager.cc"], [("parameter lookup", L+"parameters_manager.cc")], [("previous weight index", "running demixing state per audio element")])
p("P21", "Demixing inverts down-mixing",
  "Reconstructing a larger layout from the down-mixed layers with the same down-mix parameters and unit recon gain returns the original channels, for every supported layer combination and down-mix mode; substreams whose channels, sample counts or timestamps do not match, or that reconstruction needs and are missing, are reported as errors.",
  ["inputs", "configurations"], "all sample values (over the reals) for every loudspeaker-layer combination and down-mix parameters in range",
  "The inverse relation must hold for all sample values and every chain of layers.",
  [L+"downmixer.cc", L+"demixer.cc", L+"downmixer_factory.cc", L+"demixing_manager.cc"], [("down-mix formulas", L+"downmixer.cc"), ("de-mix formulas", L+"demixer.cc")])
p("P22", "Channels are assigned to substreams completely and once",
  "For every accepted audio-element layer configuration each substream gets its one or two channel labels, no label is assigned twice, coupled substreams come before uncoupled ones within a layer, and the channels of all layers up to n are exactly those of layer n's loudspeaker layout; output-gain flags map to exactly the flagged channels.",
  ["configurations"], "all sequences of layouts and flags up to six layers", "The number of layer sequences is exponential.",
  [L+"obu_with_data_generator.cc", L+"channel_label.cc"], [("label assignment", L+"obu_with_data_generator.cc")])
p("P23", "Profile filtering keeps exactly the profiles whose limits are met",
  "The profiles left for a mix presentation are exactly those requested whose limits on audio elements, channels, sub-mixes, layouts and codecs it satisfies; when none is left an error is returned, and adding elements or channels never adds a profile.",
  ["inputs", "configurations"], "all combinations of elements, layouts and requested profile sets within bounds", "Limits interact across elements and sub-mixes.",
  [L+"profile_filter.cc"], [("profile limits", L+"profile_filter.cc")])
p("P24", "The chosen mix presentation and layout follow the selection rules",
  "Given the available mixes and a requested id and layout, the selected mix is the requested one if present, otherwise the first that suits the requested layout (for binaural one with a single binaural element, then one offering a binaural layout; for stereo one with a single stereo layout and element, preferring stereo headphone rendering; for any other layout one that offers it), otherwise the first mix; the returned indices always refer to a layout of that mix which is the requested one, added if the mix lacks it, and no other mix changes.",
  ["inputs", "configurations"], "all sets of mixes and layouts within bounds", "Priority rules over a collection.",
  [L+"obu_processor_utils.cc"], [("mix and layout selection", L+"obu_processor_utils.cc")])
p("P25", "Channel reordering is a permutation",
  "For every supported layout, reordering output channels to the requested ordering moves every channel to exactly one place and loses or duplicates none; layouts with no special ordering are unchanged, and frames with too few channels are left alone.",
  ["inputs", "configurations"], "all layouts and channel contents", "Hand-written index maps.",
  ["iamf/api/conversion/channel_reorderer.cc"], [("reordering maps", "iamf/api/conversion/channel_reorderer.cc")])
p("P26", "PCM samples encode and decode losslessly in either byte order",
  "A sample written at a sample size of 8 to 32 bits and byte order and decoded again yields the same sample truncated to that size; LPCM encoding followed by decoding returns every frame unchanged, and buffer positions advance by exactly the bytes written. Buffers too small or sample sizes not supported are rejected.",
  ["inputs", "configurations"], "all sample values, sizes, orders and small frame shapes", "Byte order and sign handling over 2^32 samples and every size.",
  [L+"codec/lpcm_decoder.cc", L+"codec/lpcm_encoder.cc", L+"cli_util.cc", L+"sample_processing_utils.cc"], [("sample packing", L+"sample_processing_utils.cc")])
p("P27", "Trimming and arranging removes exactly the trimmed samples",
  "Arranging channel samples for output keeps every sample except the requested number at the start and end, in order, with silent fill only for channels declared absent; trims longer than the frame are rejected.",
  ["inputs"], "all samples, channel orders and trim amounts within bounds", "Boundary trims and channel orders.",
  [L+"sample_processing_utils.cc", L+"labeled_frame.cc", L+"renderer/audio_element_renderer_base.cc"], [("arranging", L+"sample_processing_utils.cc ArrangeSamplesToRender")])
p("P28", "Sample processors enforce their push/flush protocol",
  "A sample processor accepts frames of at most the declared size and channel count, exposes exactly the span it produced, accepts one flush, and refuses everything after it; the previous output is cleared before each processing step, a refused call never reaches the processing step and adds nothing to the exposed output, and after the flush the output stays as it was.",
  ["histories", "inputs"], "all sequences of push and flush calls with all frame shapes up to the stated length", "Order-dependent protocol.",
  [L+"sample_processor_base.cc", L+"sample_processor_base.h"], [("state machine", L+"sample_processor_base.cc")], [("flush state", "whether the processor was flushed")])
p("P29", "The OBU sequencer emits a valid order whatever happens",
  "Descriptors reach the output once and before any temporal unit, in the mandated order with ids sorted, and each accepted temporal unit exactly once, in order, byte for byte as specified; when units are delayed until the first untrimmed sample, none of them is lost or overtaken. Temporal units are accepted only after descriptors and before close; after any failure or call out of order (other than a failed descriptor push while closing, which may be retried) the output is aborted once and no more data reaches it. Changed descriptors are finalised only after descriptors were pushed and when their size, sample rate, bit depth, frame size and channel count are unchanged.",
  ["histories", "fault_sequences"], "all call sequences up to the stated length with any subset of writes failing", "Failure-and-retry sequences are numerous.",
  [L+"obu_sequencer_base.cc"], [("sequencer state", L+"obu_sequencer_base.cc")], [("sequencer state", "initial, pushed descriptors, pushing units, closed or aborted")])
p("P30", "Incremental decoding does not depend on how the stream is chunked",
  "Splitting a stream into arbitrary chunks yields the same descriptors and the same sequence of OBUs and temporal units as providing it at once: an incomplete OBU is left unconsumed, and a malformed one is skipped by exactly its size.",
  ["inputs", "schedules"], "all chunk boundaries for the stated streams and all payload bytes within bounds", "The number of ways to split a stream is exponential.",
  [L+"descriptor_obu_parser.cc", L+"obu_processor.cc", "iamf/api/decoder/iamf_decoder.cc"], [("incremental parsing", L+"obu_processor.cc")])
p("P31", "WAV reading returns every sample of the file and nothing else",
  "Reading a WAV file yields exactly the samples the file has, in order and on their channels, integer samples scaled to full 32-bit scale and float samples converted with clipping (NaN as zero), with the last partial frame shortened and only complete ticks returned. A missing file, an empty frame size or a header the WAV library rejects is refused with no file left open; otherwise the file is closed exactly once, when the reader is destroyed, however often it was moved.",
  ["inputs"], "all header fields and sample bytes within the stated size", "Adversarial headers.",
  [L+"wav_reader.cc"], [("header parsing and sample conversion", L+"wav_reader.cc")])
p("P32", "ADM/BW64 files are read safely and completely",
  "Reading any BW64 byte stream terminates with a reader that exposes exactly the chunks present (format, channel map, XML, data position) or an error; no malformed chunk table causes an endless loop or out-of-range access.",
  ["inputs"], "all byte streams up to the stated length", "Chunk-table corruption.",
  [L+"adm_to_user_metadata/adm/bw64_reader.cc"], [("chunk scan", L+"adm_to_user_metadata/adm/bw64_reader.cc")])
p("P33", "Pre-computed rendering gains are found for exactly the supported layouts",
  "Looking up rendering gains for a pair of layouts returns a complete matrix (one row per input channel, one column per output channel, all finite) exactly for the supported pairs and reports not-found otherwise; compressed gain tables decode to the same matrices.",
  ["configurations"], "all supported layout keys and arbitrary other keys within bounds", "Large generated tables.",
  [L+"renderer/gains/get_gains.cc", L+"renderer/gains/precomputed_compressed_gains_decoder.cc"], [("gain lookup", L+"renderer/gains/get_gains.cc")])
p("P34", "Substream frame buffers are first-in first-out",
  "Samples pushed to a substream buffer, channel by channel and block by block, come out once, in order, in blocks of the frame size; padding adds exactly the requested silence to every channel, and the buffer reports empty exactly when nothing is left.",
  ["histories", "inputs"], "all interleavings of push, pad and pop up to the stated length", "Order-dependent buffering.",
  [L+"substream_frames.h"], [("buffer", L+"substream_frames.h")])
p("P35", "Stream probing emits well-formed JSON for any content",
  "The JSON report of a probed stream is syntactically valid, with all strings escaped and all numbers finite or null, whatever bytes the stream contains.",
  ["inputs"], "all string contents and numeric values within bounds", "Escaping bugs need unusual characters.",
  [L+"probe_json.cc"], [("JSON emission", L+"probe_json.cc")])

p("P36", "Rendering a frame is exactly the specified weighted sum of its channels",
  "For every supported input and playback layout, the samples a renderer returns for a frame are exactly, per output channel and tick, the sum over the input channels of sample times the gain prescribed for that pair of layouts (pass-through, pre-computed table, down-mix from the frame's parameters, or ambisonics table times projection matrix), with trims removed and absent channels silent, whatever frames were rendered before; unsupported pairs get no renderer.",
  ["inputs", "configurations"], "all samples and down-mix parameters and all supported pairs of layouts", "The number of pairs of layouts, parameters and samples is far beyond sampled tests, and a wrong gain shows only for that one channel.",
  [L+"renderer/renderer_utils.cc", L+"renderer/audio_element_renderer_channel_to_channel.cc", L+"renderer/audio_element_renderer_ambisonics_to_channel.cc", L+"renderer/audio_element_renderer_passthrough.cc", L+"renderer/loudspeakers_renderer.cc", L+"renderer_factory.cc"],
  [("gain application", L+"renderer/loudspeakers_renderer.cc"), ("choice of renderer", L+"renderer_factory.cc")])

p("P37", "A mix is the gain-weighted sum of its elements, measured and given out as is",
  "For each layout of each sub-mix that can be rendered, the samples of a temporal unit are, per channel and tick, the output gain times the sum over the elements of element gain times the rendered element; gains are those of the unit's parameter blocks at that tick of the untrimmed frame, or the defaults, so trimming never changes which gain a sample gets. Post-processors and loudness calculators get exactly these samples, once per unit; what a processor gives out is what the caller gets. At the end only the loudness of measured layouts is replaced, by what was measured, and when validating an error is returned exactly if it differs from what was said. Calls out of order, blocks with other times and gains at another rate are refused.",
  ["inputs", "histories", "configurations"], "all samples, gains, trims, measured loudness values and call orders within bounds", "Gains vary per tick and interact with trimming, sub-mixes and layouts.",
  [L+"rendering_mix_presentation_finalizer.cc", L+"renderer/default_layout_renderer.cc", L+"layout_renderer_factory.cc", "iamf/obu/parameter_block.cc"],
  [("mixing and gains", L+"renderer/default_layout_renderer.cc"), ("loudness and protocol", L+"rendering_mix_presentation_finalizer.cc")],
  [("protocol state", "taking units, finalized, or mixes given out")])

p("P38", "Public layouts, profiles and counts mean the same inside and outside",
  "Each output layout of the public interface becomes the sound system it names, with the documented number of channels, and comes back as the same layout; internal layouts and profiles the interface does not have are refused and never mapped to another one. Profiles survive the round trip. A substream has exactly one or two channels. An error status is never a success, whatever its message.",
  ["inputs"], "all values of the enumerations and counts", "A swap of two layouts with equally many channels changes what is heard but not the size of anything.",
  ["iamf/api/conversion/mix_presentation_conversion.cc", "iamf/api/conversion/profile_conversion.cc", "iamf/obu/substream_channel_count.cc", "iamf/include/iamf_tools/iamf_tools_api_types.cc"],
  [("layout conversion", "iamf/api/conversion/mix_presentation_conversion.cc"), ("profile conversion", "iamf/api/conversion/profile_conversion.cc")])

p("P39", "A written wav file holds exactly the accepted samples",
  "The wav writer's file holds, behind one header, exactly the samples of the frames and byte blocks it accepted, in order, as little-endian samples of the chosen depth; frames which are too long, of another number of channels, with samples which are not numbers, or after the end are refused and leave no trace. The final header has the format and the number of samples written. Whatever calls are made in whatever order and whichever operation fails, the file is opened and closed exactly once, never used after it was closed, and removed when writing is aborted or could not begin.",
  ["inputs", "histories", "faults"], "all sample values, call orders and single failing file operations within bounds", "Cleanup after failures and unusual call orders is rarely exercised by tests.",
  [L+"wav_writer.cc", L+"sample_processing_utils.cc", L+"sample_processor_base.cc"],
  [("samples to bytes", L+"wav_writer.cc"), ("file life cycle", L+"wav_writer.cc")])

p("P40", "Decoding mixed ambisonics gives back what went in",
  "For every preset and codec the samples the ambisonics mixer gives out, decoded with the ambisonics configuration it announces, are the input samples again (exactly for mono mode, up to the precision of the 16-bit matrices for projection); its configuration has the preset's order and can be written, inputs are expected in ambisonics channel order, given configurations pass through, frames that do not fit are refused, and nothing is given out twice.",
  ["inputs", "configurations"], "all samples and all presets", "A wrong matrix entry or index affects one pair of 256 and is not visible in round-trip sizes.",
  [L+"ambisonics_mixer.cc", L+"sample_processor_base.cc", L+"renderer/renderer_utils.cc"],
  [("mixing", L+"ambisonics_mixer.cc"), ("projection", L+"renderer/renderer_utils.cc ProjectSamplesToRender")])

p("P41", "Parameter definitions are collected once and conflicts refused",
  "Collecting the parameter definitions of a sequence gives exactly one definition per parameter id used by the audio elements and mixes (gains, down-mixing, recon gain with the layers of its element, positions), exactly as the descriptors say; the descriptors are refused exactly if two definitions of an id differ in anything; element parameters of unknown type are ignored. The common sample rate, bit depth and frame size are those all codec configurations share; otherwise 48 kHz (with resampling), 16 bits, and an error for the frame size.",
  ["inputs", "configurations"], "all values of two meeting definitions within bounds", "Conflicts can hide in any single field of any kind of definition.",
  [L+"cli_util.cc", "iamf/obu/param_definitions/param_definition_base.h", "iamf/obu/param_definitions/subblock_schedule.h"],
  [("collection", L+"cli_util.cc CollectAndValidateParamDefinitions"), ("common values", L+"cli_util.cc")])

p("P42", "Binaural rendering hands over exactly the frame's channels",
  "For every supported loudspeaker layout and ambisonics order (and only for supported frame sizes and rates) a binaural renderer is set up for exactly that kind of input; for each frame, trimmed or not, it is given the kept samples of every channel in order (ambisonics after projection where the element has a matrix), followed by silence and never by samples of another frame, and what it returns for these samples is what comes out.",
  ["inputs", "configurations", "histories"], "all samples, layouts and trims within bounds", "Channel order, projection and left-over samples are only audible, and the renderer cannot be observed in tests.",
  [L+"renderer/audio_element_renderer_binaural.cc", L+"renderer/audio_element_renderer_base.cc", L+"renderer/renderer_utils.cc"],
  [("hand-over", L+"renderer/audio_element_renderer_binaural.cc RenderSamples"), ("projection", L+"renderer/renderer_utils.cc ProjectSamplesToRender")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
