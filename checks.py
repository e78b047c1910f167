BITS = ["iamf/common/read_bit_buffer.cc", "iamf/common/write_bit_buffer.cc", "iamf/common/leb_generator.cc"]
OBUBASE = BITS + ["iamf/obu/obu_header.cc", "iamf/obu/obu_base.cc", "iamf/common/utils/numeric_utils.cc"]
PD = ["iamf/obu/param_definitions/%s.cc" % x for x in ("param_definition_base","subblock_schedule","mix_gain_param_definition","demixing_param_definition","recon_gain_param_definition","extended_param_definition","polar_param_definition","cart8_param_definition","cart16_param_definition","dual_polar_param_definition","dual_cart8_param_definition","dual_cart16_param_definition")]
PDATA = ["iamf/obu/%s.cc" % x for x in ("demixing_info_parameter_data","extension_parameter_data","mix_gain_parameter_data","recon_gain_info_parameter_data","polar_parameter_data","cart8_parameter_data","cart16_parameter_data","dual_polar_parameter_data","dual_cart8_parameter_data","dual_cart16_parameter_data")] + ["iamf/common/q_format_or_floating_point.cc"]
CODEC = ["iamf/obu/codec_config.cc"] + ["iamf/obu/decoder_config/%s_decoder_config.cc" % x for x in ("lpcm","opus","flac","aac")]
ELEMS = ["iamf/obu/%s.cc" % x for x in ("audio_element","ambisonics_config","mix_presentation","rendering_config","element_gain_offset_config")]
DESC = OBUBASE + CODEC + PD + PDATA + ["iamf/obu/audio_element.cc","iamf/obu/ambisonics_config.cc","iamf/obu/audio_frame.cc","iamf/obu/parameter_block.cc"]
NOCODECS = ["-DIAMF_TOOLS_DISABLE_AAC_DECODER","-DIAMF_TOOLS_DISABLE_FLAC_DECODER","-DIAMF_TOOLS_DISABLE_OPUS_DECODER","-DIAMF_TOOLS_DISABLE_BINAURAL_RENDERING"]
DECODER = DESC + ["iamf/obu/%s.cc" % x for x in ("mix_presentation","rendering_config","element_gain_offset_config","ia_sequence_header","metadata_obu","arbitrary_obu","substream_channel_count")] + ["iamf/cli/%s.cc" % x for x in
  ("descriptor_obu_parser","obu_processor","obu_processor_utils","obu_with_data_generator","channel_label","parameters_manager","global_timing_module","cli_util","sample_processing_utils","profile_filter","audio_frame_decoder","demixer","demixing_manager","downmixer","labeled_frame",
   "rendering_mix_presentation_finalizer","layout_renderer_factory","renderer_factory","sample_processor_base","codec/lpcm_decoder","renderer/audio_element_renderer_ambisonics_to_channel","renderer/audio_element_renderer_base","renderer/audio_element_renderer_channel_to_channel","renderer/audio_element_renderer_passthrough",
   "renderer/default_layout_renderer","renderer/layout_renderer_base","renderer/loudspeakers_renderer","renderer/renderer_utils","renderer/gains/get_gains","renderer/gains/precomputed_compressed_gains","renderer/gains/precomputed_compressed_gains_decoder","renderer/gains/precomputed_gains")]
API = DECODER + ["iamf/api/decoder/iamf_decoder.cc","iamf/api/conversion/channel_reorderer.cc","iamf/api/conversion/mix_presentation_conversion.cc","iamf/api/conversion/profile_conversion.cc","iamf/include/iamf_tools/iamf_tools_api_types.cc"]
CHECKS = {
  "P01": dict(harnesses=[
     dict(name="bits", merge=20000, src="bits.cc", repo=BITS, cases=17, reach=["roundtrip","rejected","kinds"]),
  ]),
  "P02": dict(harnesses=[
     dict(name="reader", merge=20000, src="reader.cc", repo=BITS, cases=60, reach=["read","exhausted","seek","seek_any","flush"], thorough=dict(flags=["-DOPS=4"])),
  ]),
  "P03": dict(harnesses=[
     dict(name="leb", merge=20000, src="leb.cc", repo=BITS, cases=22, reach=["uleb","refused","sleb","iso","decoded","rejected"]),
  ]),
  "P04": dict(harnesses=[
     dict(name="strings", merge=20000, src="strings.cc", repo=BITS, cases=36, reach=["string","refused","bytes","read_any"]),
  ]),
  "P05": dict(harnesses=[
     dict(name="obuheader", merge=0, src="obuheader.cc", repo=OBUBASE, cases=22 + 8, thorough=dict(cases=22 + 11), reach=["refused","trim","plain","peek","rejected","extension","accepted"]),
  ]),
  "P06": dict(harnesses=[
     dict(name="framing", src="framing.cc", repo=OBUBASE + ["iamf/obu/arbitrary_obu.cc","iamf/obu/audio_frame.cc","iamf/obu/ia_sequence_header.cc","iamf/obu/metadata_obu.cc"], cases=5*9, thorough=dict(cases=5*12),
          reach=["rejected","identical","sequence_header","delimiter","audio_frame","implicit_audio_frame","metadata"]),
  ]),
  "P08": dict(harnesses=[
     dict(name="codec", engine=["--alloc-small=32"], src="codec.cc", repo=OBUBASE + ["iamf/obu/codec_config.cc"] + ["iamf/obu/decoder_config/%s_decoder_config.cc" % x for x in ("lpcm","opus","flac","aac")], cases=46+8, thorough=dict(cases=46+14),
          reach=["rejected","refused","written","identical","read_only"]),
  ]),
  "P07": dict(harnesses=[
     dict(name="seqheader", src="seqheader.cc", repo=OBUBASE + ["iamf/obu/ia_sequence_header.cc"], cases=10, reach=["refused","written","rejected","accepted"]),
  ]),
  "P14": dict(harnesses=[
     dict(name="frames", src="frames.cc", repo=OBUBASE + ["iamf/obu/arbitrary_obu.cc","iamf/obu/audio_frame.cc","iamf/obu/metadata_obu.cc"], cases=31+8, thorough=dict(cases=31+11),
          reach=["explicit","implicit","rejected","frame","refused","t35","tags","read_t35","read_tags","read_unknown","arbitrary"]),
  ]),
  "P13": dict(harnesses=[
     dict(name="paramdefs", engine=["--alloc-small=32","--div-split=5","--any-result=pow"], src="paramdefs.cc", repo=OBUBASE + PD + PDATA, cases=9*9+3*6+36+6, thorough=dict(flags=["-DMAXN=8","-DTHOROUGH"], cases=9*9+3*8+36+8),
          reach=["rejected","identical","read_only","constant","variable","in_block","bad_schedule","refused","written","extended"]),
  ]),
  "P12": dict(harnesses=[
     dict(name="paramblock", engine=["--alloc-small=32","--div-split=5","--any-result=pow"], src="paramblock.cc", repo=OBUBASE + PD + PDATA + ["iamf/obu/parameter_block.cc"], cases=4+7*13+5*6, thorough=dict(cases=4+7*13+5*8),
          reach=["rejected","identical","mode0","mode1_constant","mode1_variable","ticks"]),
  ]),
  "P17": dict(harnesses=[
     dict(name="numeric", src="numeric.cc", repo=["iamf/common/utils/numeric_utils.cc","iamf/common/q_format_or_floating_point.cc"], cases=64+26, reach=["converted","refused"]),
  ]),
  "P28": dict(harnesses=[
     dict(name="processor", src="processor.cc", flags=["-DOPS=3"], repo=["iamf/cli/sample_processor_base.cc"], merge=20000, cases=36, thorough=dict(flags=["-DOPS=4"]), reach=["push","flush","refused"]),
  ]),
  "P34": dict(harnesses=[
     dict(name="substream", src="substream.cc", flags=["-DOPS=4"], repo=[], cases=9, thorough=dict(flags=["-DOPS=5"]), reach=["push","pad","pop"]),
  ]),
  "P26": dict(harnesses=[
     dict(name="pcm", src="pcm.cc", repo=OBUBASE + CODEC + ["iamf/obu/audio_frame.cc","iamf/cli/codec/lpcm_decoder.cc","iamf/cli/codec/lpcm_encoder.cc","iamf/cli/codec/encoder_base.cc","iamf/cli/sample_processing_utils.cc","iamf/cli/cli_util.cc","iamf/obu/substream_channel_count.cc"], cases=2+16+12+12+9,
        reach=["sample","packed","decoded","codec","transposed","refused"]),
  ]),
  "P33": dict(harnesses=[
     dict(name="gains", src="gains.cc", flags=["-DTHOROUGH=0"], repo=["iamf/cli/renderer/gains/%s.cc" % x for x in ("get_gains","precomputed_compressed_gains","precomputed_compressed_gains_decoder","precomputed_gains")], cases=32+36, thorough=dict(flags=["-DTHOROUGH=1"]), reach=["gains","unknown","decompressed","refused"]),
  ]),
  "P32": dict(harnesses=[
     dict(name="bw64", src="bw64.cc", flags=["-DANY=46"], repo=[], cases=92+120+8, thorough=dict(flags=["-DANY=52"],cases=104+120+8), reach=["accepted","refused","dbmd","data"]),
  ]),
  "P35": dict(harnesses=[
     dict(name="json", src="json.cc", fast_strcat=False, flags=["-DSTR=1"], repo=["iamf/cli/probe_json.cc"], cases=30+18, thorough=dict(flags=["-DSTR=2"]), reach=["parsed","string"]),
  ]),
  "P25": dict(harnesses=[
     dict(name="reorder", src="reorder.cc", repo=["iamf/api/conversion/channel_reorderer.cc"], cases=27, reach=["refused","unchanged","reordered"]),
  ]),
  "P27": dict(harnesses=[
     dict(name="arrange", src="arrange.cc", repo=["iamf/cli/sample_processing_utils.cc","iamf/cli/labeled_frame.cc","iamf/cli/channel_label.cc","iamf/cli/renderer/audio_element_renderer_base.cc","iamf/common/utils/numeric_utils.cc"], flags=["-DMAXL=2"], cases=24+1+8, thorough=dict(flags=["-DMAXL=3"], cases=32+1+8), reach=["arranged","refused","rendered","none","demixed","common"]),
  ]),
  "P18": dict(harnesses=[
     dict(name="timing", src="timing.cc", flags=["-DOPS=3"], repo=DESC + ["iamf/cli/global_timing_module.cc","iamf/cli/cli_util.cc","iamf/cli/sample_processing_utils.cc"], cases=9+12, thorough=dict(flags=["-DOPS=4"]), reach=["created","not_created","global","block","frame","misplaced","unknown"]),
  ]),
  "P19": dict(harnesses=[
     dict(name="tunit", src="tunit.cc", repo=DESC + ["iamf/cli/temporal_unit_view.cc","iamf/obu/arbitrary_obu.cc"], cases=[c for c in range(36) if c % 4 < 3 or c == 3], thorough=dict(cases=36), reach=["refused","frames","arbitrary","blocks"]),
  ]),
  "P23": dict(harnesses=[
     dict(name="profiles", src="profiles.cc", repo=DESC + ["iamf/obu/mix_presentation.cc","iamf/obu/rendering_config.cc","iamf/obu/element_gain_offset_config.cc","iamf/obu/ia_sequence_header.cc","iamf/cli/profile_filter.cc"], cases=5+31+31+64, reach=["element","element_refused","mix","mix_refused"]),
  ]),
 "P16": dict(harnesses=[
     dict(name="interptimes", src="interp.cc", flags=["-DRELS=4","-DTARGETS=5"], repo=OBUBASE + PD + PDATA + ["iamf/obu/parameter_block.cc"], cases=3, reach=["outside","step","instant"]),
     dict(name="interp", src="interp.cc", real=True, flags=["-DRELS=5","-DTARGETS=6"], repo=OBUBASE + PD + PDATA + ["iamf/obu/parameter_block.cc"], cases=list(range(3, 27)), thorough=dict(flags=["-DRELS=64","-DTARGETS=8"]), reach=["start","end","between"]),
 ]),
 "P10": dict(harnesses=[
     dict(name="ambi", src="ambi.cc", repo=BITS + ["iamf/common/utils/numeric_utils.cc","iamf/obu/ambisonics_config.cc"], cases=36+8, thorough=dict(cases=36+10), reach=["full","next","mono","refused","size","projection","rejected","read_projection","read_mono"]),
 ]),
 "P09": dict(harnesses=[
     dict(name="audelem", src="audelem.cc", repo=OBUBASE + PD + PDATA + ["iamf/obu/audio_element.cc","iamf/obu/ambisonics_config.cc"], cases=173+8, thorough=dict(cases=173+11), reach=["many_substreams","read","rejected","channels","scene","objects","extension","written","refused","unwritable","many_layers","params","any"]),
 ]),
 "P11": dict(harnesses=[
     dict(name="mixpres", src="mixpres.cc", repo=OBUBASE + PD + PDATA + ["iamf/obu/mix_presentation.cc","iamf/obu/rendering_config.cc","iamf/obu/element_gain_offset_config.cc"], cases=1+36+13+3+3+8+8+3+10+10+5, thorough=dict(cases=1+36+13+3+3+8+8+3+10+10+11), reach=["rendering_read","opaque","overrun","refused","written","range_refused","completed","rejected","tail","loudness","channel_count"]),
 ]),
 "P20": dict(harnesses=[
     dict(name="params", src="params.cc", flags=["-DOPS=4","-DFRAMES=5"], repo=DESC + ["iamf/cli/parameters_manager.cc","iamf/cli/cli_util.cc","iamf/cli/sample_processing_utils.cc"], cases=3+4+72, thorough=dict(flags=["-DOPS=5","-DFRAMES=8"]), reach=["undefined","default","mismatch","block","update_refused","advanced","walked","unit_gain","recon_mismatch","recon","table","empty"]),
 ]),
 "P22": dict(harnesses=[
     dict(name="layers", src="layers.cc", repo=DESC + ["iamf/cli/obu_with_data_generator.cc","iamf/cli/channel_label.cc","iamf/cli/parameters_manager.cc","iamf/cli/global_timing_module.cc","iamf/cli/cli_util.cc"], cases=2+16+16+10+9+9+6+8+9, reach=["rejected","assigned","same_id","any_id","fits","misfits","no_codec","mono","projection","objects","unknown","table"]),
 ]),
 "P21": dict(harnesses=[
     dict(name="demix", src="demix.cc", real=True, flags=["-DTICKS=1","-DDEPTH=3","-DWIDX(m)=(int)sym_choose(\"w\",2)*3+(m)"], repo=DESC + ["iamf/cli/downmixer.cc","iamf/cli/downmixer_factory.cc","iamf/cli/demixer.cc","iamf/cli/demixing_manager.cc","iamf/cli/labeled_frame.cc","iamf/cli/obu_with_data_generator.cc","iamf/cli/channel_label.cc","iamf/cli/parameters_manager.cc","iamf/cli/global_timing_module.cc","iamf/cli/cli_util.cc","iamf/cli/sample_processing_utils.cc","iamf/cli/sample_processor_base.cc"], cases=36, thorough=dict(flags=["-DTICKS=2","-DDEPTH=6","-DWIDX(m)=(int)sym_choose(\"w\",11)"]), reach=["rebuilt","error","fine","undone","degenerate","unused","bad_input"]),
     dict(name="mixmgr", src="mixmgr.cc", repo=DESC + ["iamf/cli/downmixer_manager.cc","iamf/cli/channel_label.cc"], cases=5, reach=["unknown","error","handed"]),
 ]),
 "P24": dict(harnesses=[
     dict(name="selectmix", src="selectmix.cc", flags=["-DSHAPES=4","-DFREE=1"], repo=DESC + ["iamf/cli/obu_processor_utils.cc","iamf/obu/mix_presentation.cc","iamf/obu/rendering_config.cc","iamf/obu/element_gain_offset_config.cc"], cases=9+9+9+9, thorough=dict(flags=["-DSHAPES=9","-DFREE=2"]), reach=["none","default","added","by_id","by_layout","fallback","refused","simplified"]),
 ]),
 "P31": dict(harnesses=[
     dict(name="wav", src="wav.cc", flags=["-DMAXC=3","-DMAXF=2","-include","@VERIF/harness/stand_stdio.h"], repo=["iamf/cli/wav_reader.cc"], cases=4+6, thorough=dict(flags=["-DMAXC=4","-DMAXF=4","-include","@VERIF/harness/stand_stdio.h"], cases=4+16), reach=["scaled","refused","end","full","short","float"]),
 ]),
 "P29": dict(harnesses=[
     dict(name="sequencer", src="sequencer.cc", flags=["-DOPS=4","-DFAULTS=2"], repo=DESC + ["iamf/obu/mix_presentation.cc","iamf/obu/rendering_config.cc","iamf/obu/element_gain_offset_config.cc","iamf/obu/ia_sequence_header.cc","iamf/obu/metadata_obu.cc","iamf/obu/arbitrary_obu.cc","iamf/cli/profile_filter.cc","iamf/cli/temporal_unit_view.cc","iamf/cli/cli_util.cc","iamf/cli/obu_sequencer_base.cc","iamf/cli/obu_sequencer_streaming_iamf.cc"], cases=10+4+22, thorough=dict(flags=["-DOPS=5","-DFAULTS=2"]), reach=["ordered","disagree","streaming","streaming_unit","unit_order","unit","key","first","delayed","trivial","finalized","closed","aborted","fault","refused_over","closed_twice","close_failed"]),
 ]),
 "P15": dict(harnesses=[
     dict(name="hostile", src="hostile.cc", flags=["-DWINDOW=2","-DSTREAM_WINDOW=1","-DVERIF_LOG_EVAL=1"] + NOCODECS, repo=DECODER, cases=65, engine=["--alloc-small=32","--div-split=5"], reach=["parsed","rejected","rendered"], thorough=dict(flags=["-DWINDOW=3","-DSTREAM_WINDOW=1","-DVERIF_LOG_EVAL=1"] + NOCODECS)),
     dict(name="streams", src="hostile.cc", flags=["-DWINDOW=2","-DSTREAM_WINDOW=1"] + NOCODECS, repo=DECODER, cases=list(range(65,65+15+13)), engine=["--alloc-small=32","--div-split=5","--any-result=pow"], reach=["rendered","unrendered","unit_rejected","no_descriptors"], thorough=dict(flags=["-DWINDOW=2","-DSTREAM_WINDOW=2"] + NOCODECS)),
 ]),
 "P30": dict(harnesses=[
     dict(name="decoder", src="decoder.cc", flags=["-DCUTS=1"] + NOCODECS, repo=API, cases=12, thorough=dict(flags=["-DCUTS=2"] + NOCODECS), reach=["delivered","small","reset","unrendered"]),
     dict(name="chunks", src="chunks.cc", fast_strcat=True, flags=["-DCUTS=2"] + NOCODECS, repo=DECODER, cases=25, thorough=dict(cases=29), reach=["incomplete","complete","units","anything"]),
 ]),
 "P41": dict(harnesses=[
     dict(name="collect", src="collect.cc", fast_strcat=True, repo=DESC + ["iamf/obu/%s.cc" % x for x in ("mix_presentation","rendering_config","element_gain_offset_config")] + ["iamf/cli/%s.cc" % x for x in ("cli_util","sample_processing_utils","labeled_frame","channel_label")], cases=2+14*6, reach=["conflict","shared","ignored","common","frames","mixed_frames"]),
 ]),
 "P40": dict(harnesses=[
     dict(name="ambimix", src="ambimix.cc", real=True, flags=["-DTICKS=2"], repo=DESC + ["iamf/cli/%s.cc" % x for x in ("ambisonics_mixer","sample_processor_base","sample_processing_utils","labeled_frame","channel_label","renderer/renderer_utils","obu_with_data_generator","parameters_manager","global_timing_module","cli_util")], cases=18, thorough=dict(flags=["-DTICKS=4"]), reach=["mono","projection","refused"]),
 ]),
 "P39": dict(harnesses=[
     dict(name="wavwrite", src="wavwrite.cc", flags=["-DOPS=2","-include","@VERIF/harness/stand_wavio.h"], repo=["iamf/cli/wav_writer.cc","iamf/cli/sample_processor_base.cc","iamf/cli/sample_processing_utils.cc","iamf/common/utils/numeric_utils.cc"], cases=1+6, thorough=dict(flags=["-DOPS=3","-include","@VERIF/harness/stand_wavio.h"]), reach=["made","refused","pushed","bytes","aborted","short","finished"]),
 ]),
 "P38": dict(harnesses=[
     dict(name="apitypes", src="apitypes.cc", repo=OBUBASE + PD + PDATA + ["iamf/obu/mix_presentation.cc","iamf/obu/rendering_config.cc","iamf/obu/element_gain_offset_config.cc","iamf/obu/substream_channel_count.cc","iamf/api/conversion/mix_presentation_conversion.cc","iamf/api/conversion/profile_conversion.cc","iamf/include/iamf_tools/iamf_tools_api_types.cc"], cases=4, reach=["from_api","to_api","unknown","unknown_profile","profile","rest"]),
 ]),
 "P37": dict(harnesses=[
     dict(name="mix", src="mix.cc", real=True, flags=["-DOPS=3","-DALL=0"] + NOCODECS, repo=DECODER + ["iamf/cli/loudness_calculator_base.cc","iamf/cli/loudness_calculator_factory_base.cc"], cases=3*7+7+2+7, thorough=dict(flags=["-DOPS=5","-DALL=1"] + NOCODECS), reach=["mixed","nothing","loudness","differs","protocol","refused"]),
 ]),
 "P42": dict(harnesses=[
     dict(name="binaural", src="binaural.cc", real=True, flags=["-DABSL_DCHECK_ENABLED=1"], repo=DESC + ["iamf/cli/renderer/%s.cc" % x for x in ("audio_element_renderer_binaural","audio_element_renderer_base","renderer_utils")] + ["iamf/cli/sample_processing_utils.cc","iamf/cli/channel_label.cc","iamf/cli/labeled_frame.cc","iamf/cli/cli_util.cc"], cases=14+16+12, reach=["made","refused","unsupported","channels","scene","projection","whole","trimmed"]),
 ]),
 "P36": dict(harnesses=[
     dict(name="render", src="render.cc", real=True, flags=NOCODECS, repo=DECODER, cases=30+10, reach=["channels","scene","impossible"]),
 ]),
}
from docs import DOCS
for _k, _d in DOCS.items():
  if _k in CHECKS: CHECKS[_k].update({k: v for k, v in _d.items() if k not in CHECKS[_k]})
