#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": list(state),
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


I, H, C = "inputs", "histories", "configurations"

p("C01", "Parameter resolution: supported configurations and their sizes",
  "For any frame duration, sampling rate and high-resolution flag, the size functions (frame samples, delay samples, "
  "encoder and decoder memory sizes) either all accept the combination or all report their failure sentinel (-1 or 0); "
  "accepted are exactly 2.5/5/7.5/10 ms with 8/16/24/32/48 kHz, and 2.5/5/10 ms with 48/96 kHz in high-resolution mode. "
  "For accepted ones the sample count is rate x duration, the delay is the documented look-ahead (2.5 ms, 4 ms at 7.5 ms "
  "frames), and the plain functions equal the high-resolution ones with the flag off.",
  [I, C], "all 2^32 durations x 2^32 rates x flag values",
  "Tests use the handful of valid values; sentinels for every other integer are never sampled.",
  ["src/lc3.c", "include/lc3.h", "src/tables.h", "src/tables.c", "include/lc3_private.h"],
  [("configuration resolution", "src/lc3.c resolve_dt, resolve_srate"),
   ("size tables", "src/tables.h lc3_ns, lc3_nd, lc3_nh")],
  ["lc3_hr_frame_samples", "lc3_hr_delay_samples", "lc3_hr_encoder_size", "lc3_hr_decoder_size"])

p("C02", "Bitrate and frame size conversion is exact, clamped and overflow free",
  "For every bitrate, channel count and configuration, the returned block size is the largest number of bytes whose bitrate "
  "does not exceed the requested one, clamped to the per-channel limits of the configuration, and -1 exactly for unsupported "
  "parameters; it never decreases when the bitrate increases. Converting a frame size to a bitrate and back yields that size "
  "for every size in the limits, and no conversion overflows for any integer argument.",
  [I, C], "all 2^32 bitrates, sizes and channel counts, all configurations",
  "Tests use a few bitrates; rounding and overflow at the ends of the integer range are not sampled.",
  ["src/lc3.c", "include/lc3.h", "src/tables.c"],
  [("clip and integer division", "src/lc3.c lc3_hr_frame_block_bytes"),
   ("64-bit rounding up", "src/lc3.c lc3_hr_resolve_bitrate")],
  ["lc3_hr_frame_block_bytes", "lc3_hr_resolve_bitrate"])

p("C03", "Codec setup stays inside the advertised memory and lays out disjoint regions",
  "Setting up an encoder or decoder returns NULL exactly for unsupported parameters (or missing memory) without writing "
  "anything, and otherwise returns the given memory after writing only inside the size advertised for the PCM rate. "
  "The statically sized memory types are large enough for the configuration they name, and the initial state holds silence "
  "(no history, no concealment pending, long-term filter enabled).",
  [I, C], "all integer durations, codec rates, PCM rates, flags; arbitrary previous memory contents",
  "Tests set up valid configurations in calloc'ed memory and never check out-of-bounds writes or stale contents.",
  ["src/lc3.c", "include/lc3.h", "include/lc3_private.h"],
  [("offsets and clearing", "src/lc3.c lc3_hr_setup_encoder, lc3_hr_setup_decoder"),
   ("buffer counts", "include/lc3_private.h LC3_ENCODER_BUFFER_COUNT, LC3_DECODER_BUFFER_COUNT")],
  ["lc3_hr_setup_encoder", "lc3_hr_setup_decoder", "LC3_ENCODER_MEM_T", "LC3_DECODER_MEM_T"])

p("C04", "Invalid frame sizes and missing handles are rejected with no effect",
  "Encoding or decoding with a missing codec handle, or with a frame size outside the limits of the configuration, returns -1 "
  "and modifies neither the codec state nor the output buffers. Any size inside the limits is accepted: encoding returns 0, "
  "and decoding returns 0 or 1 (concealed), a missing input always being concealed.",
  [I, H, C], "all integer frame sizes, all configurations, arbitrary codec states and buffer contents",
  "Tests only call with valid sizes.",
  ["src/lc3.c", "src/tables.c"],
  [("parameter checks", "src/lc3.c lc3_encode, lc3_decode"), ("limits", "src/tables.h lc3_min_frame_bytes, lc3_max_frame_bytes")],
  ["lc3_encode", "lc3_decode"])

p("C05", "The bitstream writer never leaves the frame buffer",
  "Whatever sequence of raw bit fields and arithmetic-coded symbols is written, and however much it exceeds the frame, no "
  "byte outside the frame buffer is read or written, and the termination always completes. An overrun is reported by the "
  "status check, and the reported remaining space never grows as more is written.",
  [I, H], "every writer state consistent with its buffer x every operation and value (one inductive step), and every short "
  "sequence from the start",
  "Tests write frames that fit; the overrun paths and carry chains at the buffer boundary are not sampled.",
  ["src/bits.c", "src/bits.h"],
  [("guarded writes", "src/bits.c ac_put, accu_flush"), ("termination", "src/bits.c lc3_flush_bits")],
  ["lc3_put_bits", "lc3_put_symbol", "lc3_flush_bits", "lc3_check_bits"])

p("C06", "Entropy coding round trip: what is written is what is read",
  "Any sequence of raw fields and arithmetic-coded symbols that fits the frame is read back identically, in order, whatever "
  "the interleaving of both kinds and including carry propagation and termination. Neither side reports an error on it.",
  [I, H], "all sequences within the stated length x all symbol values over the codec's own probability models",
  "Tests compare a few encoded frames; carry chains over 0xff bytes and the termination corner cases are vanishingly rare.",
  ["src/bits.c", "src/bits.h", "src/tables.c"],
  [("range coder", "src/bits.h lc3_put_symbol, lc3_get_symbol"), ("carry", "src/bits.c ac_shift"),
   ("termination", "src/bits.c ac_terminate")],
  ["lc3_put_bits", "lc3_get_bits", "lc3_put_symbol", "lc3_get_symbol"])

p("C07", "The bitstream reader is safe and bounded on arbitrary bytes",
  "Reading any sequence of fields and symbols from any bytes never touches memory outside the frame, returns values inside "
  "the requested range, terminates, and performs no undefined operation even beyond the end of the frame. Consuming more "
  "than the frame holds is always reported by the status check, and once reported it stays reported.",
  [I, H], "every reader state consistent with its buffer x every operation (one inductive step), and every short sequence "
  "from the start",
  "Fuzzing samples a tiny part of the inputs and does not see over-reads that stay inside the frame's allocation.",
  ["src/bits.c", "src/bits.h"],
  [("guarded reads", "src/bits.c ac_get, accu_load"), ("error flag", "src/bits.h lc3_get_symbol"),
   ("left bits", "src/bits.c lc3_check_bits")],
  ["lc3_get_bits", "lc3_get_symbol", "lc3_check_bits"])

p("C08", "Entropy models are well formed and their cost tables agree with them",
  "Every probability model of the codec partitions the whole coder range into 17 contiguous, ordered intervals, so that "
  "every symbol the encoder can emit has a non-empty interval and exactly one symbol matches any coder position. "
  "The bit-cost tables used for rate decisions match the model probabilities, and every model lookup index is valid.",
  [I, C], "all models, all symbols, all 2^24 coder positions",
  "Tests exercise only the symbols occurring in the test vectors; one wrong table entry among thousands stays unseen.",
  ["src/tables.c", "src/tables.h", "src/bits.h"],
  [("models and costs", "src/tables.c lc3_spectrum_models, lc3_spectrum_bits, lc3_tns_order_models, lc3_tns_coeffs_models")],
  ["lc3_get_symbol", "lc3_put_symbol"])

p("C09", "Bandwidth and pitch side data round trip; invalid bandwidth is rejected",
  "Every bandwidth and every long-term filter parameter set the encoder can emit is decoded to the same values, using exactly "
  "the number of bits the encoder accounted for. From arbitrary bits the decoder returns either a bandwidth not above the "
  "codec rate or an error, and pitch data always inside its documented range.",
  [I, C], "all rates, all bandwidths and pitch data, all bit patterns",
  "Tests decode only what the encoder of the test produced.",
  ["src/bwdet.c", "src/ltpf.c"],
  [("bandwidth field", "src/bwdet.c lc3_bwdet_put_bw, lc3_bwdet_get_bw"), ("pitch field", "src/ltpf.c lc3_ltpf_put_data, lc3_ltpf_get_data")],
  ["lc3_bwdet_get_bw", "lc3_ltpf_get_data"])

p("C10", "Temporal noise shaping data round trip and its exact bit accounting",
  "Every temporal-noise-shaping configuration is decoded to the same filters it was encoded from, using the number of bits the encoder "
  "accounted for (rounded up). From arbitrary bits the decoder returns a filter order and coefficients inside the valid "
  "range or an error, and the number of filters is fixed by duration and bandwidth.",
  [I, C], "all durations, bandwidths, frame sizes, orders and coefficient values, all bit patterns",
  "Tests sample a few filters from test vectors.",
  ["src/tns.c", "src/tables.c"],
  [("symbols", "src/tns.c lc3_tns_put_data, lc3_tns_get_data"), ("accounting", "src/tns.c lc3_tns_get_nbits")],
  ["lc3_tns_put_data", "lc3_tns_get_data", "lc3_tns_get_nbits"])

p("C11", "Spectral shape codebook: index coding is a bijection, invalid codes rejected",
  "Every spectral-noise-shaping parameter set is decoded to the same envelope the encoder selected, with every codebook index, gain and shape. "
  "From arbitrary bits the decoder returns an error exactly when the code is outside the codebook, and otherwise a valid "
  "pulse vector with the number of pulses of its shape; it always consumes the fixed number of bits.",
  [I], "all parameter sets and all 2^38 codes",
  "The index space has millions of entries per shape; tests touch a few dozen.",
  ["src/sns.c", "src/tables.c"],
  [("pulse enumeration", "src/sns.c enumerate, deenumerate"), ("field packing", "src/sns.c lc3_sns_put_data, lc3_sns_get_data")],
  ["lc3_sns_put_data", "lc3_sns_get_data", "lc3_sns_synthesize"])

p("C12", "Quantized spectrum round trip",
  "The quantized spectrum, gain, noise level and mode the encoder writes are what the decoder reconstructs: every coefficient "
  "that is transmitted comes back with the same integer value and sign, refined by at most the residual step. "
  "From arbitrary bits the decoder returns either an in-range header and coefficient set or an error.",
  [I, C], "all header values and all coefficient pairs and contexts within the stated sizes, both rate modes",
  "Tests compare a few frames; escape depths, least-significant-bit mode and sign/zero combinations are sampled sparsely.",
  ["src/spec.c", "src/tables.c"],
  [("header", "src/spec.c lc3_spec_put_side, lc3_spec_get_side"), ("coefficients", "src/spec.c lc3_spec_encode, lc3_spec_decode")],
  ["lc3_spec_encode", "lc3_spec_decode"])

p("C13", "Rate control: the encoder's frame always fits",
  "For every spectrum the rate loop's estimate of the coded size is never below what is really written, so that the frame "
  "never overflows its byte budget. The chosen gain and the count of transmitted coefficients always are in the range their "
  "header fields can represent.",
  [I, C], "all coefficient values within the stated counts, all frame sizes in the limits",
  "An overflow needs a particular spectrum at a particular frame size.",
  ["src/spec.c", "src/bits.c", "src/tables.c"],
  [("bit consumption", "src/spec.c compute_nbits, lc3_spec_analyze"), ("budget", "src/spec.c get_nbits_spec")],
  ["lc3_spec_analyze", "lc3_spec_encode"])

p("C14", "Decoding arbitrary bytes is memory safe at every stage",
  "For any frame contents accepted by the parser, every synthesis stage (noise filling, temporal noise shaping, envelope "
  "shaping, inverse transform, long-term filter) reads and writes only inside the decoder's own memory, for every supported "
  "configuration including a higher PCM rate. No stage performs an out-of-range table access or an undefined integer operation.",
  [I, C], "all parsed side data values, all configurations, all sample values",
  "Fuzz targets sample frames for some configurations only.",
  ["src/spec.c", "src/tns.c", "src/sns.c", "src/mdct.c", "src/ltpf.c", "src/plc.c"],
  [("per stage bounds", "src/*.c lc3_*_synthesize, lc3_mdct_inverse, lc3_spec_decode")],
  ["lc3_decode"])

p("C15", "Packet loss concealment: state, fading and recovery over any loss pattern",
  "Over any sequence of received, corrupted and missing frames, each missing or corrupted frame is concealed from the last "
  "good spectrum only by sign changes and a gain that never grows with consecutive losses and never exceeds one; a good frame "
  "ends the concealment at once, so later concealment starts afresh. A corrupted frame has exactly the effect of a missing one.",
  [H, I], "all loss patterns (by induction over one frame), all spectra",
  "Tests run one short loss pattern.",
  ["src/plc.c", "src/lc3.c"],
  [("state machine", "src/plc.c lc3_plc_reset, lc3_plc_suspend, lc3_plc_synthesize"), ("dispatch", "src/lc3.c synthesize")],
  ["lc3_decode"])

p("C16", "PCM output: rounding, saturation, layout and format consistency",
  "For every decoded sample value, each output format stores the value rounded to nearest and saturated to the format's range "
  "(float output is the scaled value clamped to +/-1), whatever its magnitude. The packed and unpacked 24-bit outputs are "
  "identical, exactly the frame's samples are written at the given stride, and nothing between or around them is touched.",
  [I, C], "all 2^32 float sample values, all formats, all strides within the stated bound",
  "Tests compare a few signals at stride 1 or 2; values beyond the saturation range and underflowing values are not sampled.",
  ["src/lc3.c", "src/fastmath.h"],
  [("stores", "src/lc3.c store_s16, store_s24, store_s24_3le, store_float"), ("scaling", "src/fastmath.h lc3_ldexpf")],
  ["lc3_decode"])

p("C17", "PCM input: every format loads the same signal, only the frame's samples",
  "The same signal given in any input format reaches the codec with the same sample values (24-bit packed equals unpacked, "
  "16-bit equals 24-bit scaled, float equals its integer equivalent), full scale and negative values included. Exactly the "
  "samples of one frame at the given stride are read, the encoder writes only its own memory and the frame, and the sample "
  "history carried to the next frame is exactly the end of this frame.",
  [I, C], "all sample values, all formats, all strides within the stated bound, all configurations",
  "Tests use one format per test and never check what is read.",
  ["src/lc3.c", "src/fastmath.h"],
  [("loads", "src/lc3.c load_s16, load_s24, load_s24_3le, load_float"), ("history", "src/lc3.c analyze")],
  ["lc3_encode"])

p("C18", "Decoder sample history stays in place over any frame history",
  "Over any sequence of good and lost frames, the decoder's current frame position always leaves room for a whole frame inside "
  "its memory and does not overlap the overlap or spectrum memory, and the history the long-term filter refers to holds the "
  "most recently output samples. Filtering never reads further back than the history kept, for any pitch value.",
  [H, C, I], "all histories (induction over one frame), all configurations, all pitch values",
  "The ring wraps after several frames and out-of-history reads need extreme pitch values.",
  ["src/lc3.c", "src/ltpf.c", "include/lc3_private.h"],
  [("ring", "src/lc3.c complete"), ("lag computation", "src/ltpf.c lc3_ltpf_synthesize")],
  ["lc3_decode"],
  [{"name": "xs_off", "meaning": "current frame position in the history ring", "where": "include/lc3_private.h struct lc3_decoder"}])

p("C19", "Pitch analysis never overflows and yields only valid pitch data",
  "For every input signal and history, the encoder's pitch analysis performs no integer overflow that is undefined and no out-of-range access, "
  "and its result is always representable in the bitstream and inside the range the decoder accepts. "
  "The fractional resamplers to the analysis rate read only the history they keep.",
  [I, H, C], "all 16-bit sample values, all configurations",
  "Overflow needs adversarial full-scale signals.",
  ["src/ltpf.c", "src/tables.c"],
  [("analysis", "src/ltpf.c lc3_ltpf_analyse"), ("fixed point resampling", "src/ltpf.c resample_*")],
  ["lc3_ltpf_analyse"])

p("C20", "Attack detection: overflow free, only where enabled",
  "For every 16-bit input signal and detector state, attack detection performs no integer overflow, reports an attack only for "
  "the durations, rates and frame sizes where it is defined, and an attack once detected is signalled for the documented hold "
  "time. Silence never triggers an attack.",
  [I, H, C], "all sample values and detector states consistent with previous frames, all configurations",
  "Accumulator overflow needs adversarial signals.",
  ["src/attdet.c"],
  [("energy accumulation", "src/attdet.c lc3_attdet_run")],
  ["lc3_attdet_run"])

p("C21", "Bandwidth detection returns a valid bandwidth and follows the energies",
  "For any band energies the detected bandwidth is a valid one, not above the codec's own; a spectrum with no energy above a "
  "lower bandwidth's cut-off is detected as that lower bandwidth, and a spectrum with high energy everywhere keeps the full "
  "bandwidth. High-resolution mode always keeps the full bandwidth.",
  [I, C], "all finite non negative band energies, all configurations",
  "Tests sample a few spectra.",
  ["src/bwdet.c", "src/energy.c", "src/tables.c"],
  [("detection", "src/bwdet.c lc3_bwdet_run"), ("bands", "src/tables.c lc3_band_lim")],
  ["lc3_bwdet_run"])

p("C22", "Numeric approximations stay within their stated error on the whole domain",
  "The codec's exponent, power of two, logarithm and decibel approximations stay within a small stated error of the exact "
  "function for every input in their domain, subnormal and extreme values included, and the exact scaling operations are exact "
  "(underflow goes to zero with the right sign). The results are monotone where the rate control depends on it.",
  [I], "all 2^32 float inputs of the domain",
  "Tests sample the approximations through the codec only.",
  ["src/fastmath.h"],
  [("approximations", "src/fastmath.h lc3_ldexpf, lc3_frexpf, lc3_exp2f, lc3_log2f, lc3_db_q16")],
  ["lc3_ldexpf", "lc3_exp2f", "lc3_log2f", "lc3_db_q16"])

p("C23", "SIMD variants compute the same results as the portable code",
  "For every input the ARM variants of the pitch resamplers and correlations return bit-identical results to the portable "
  "implementation, and the NEON variants compute the same integer results. No input makes one variant saturate or overflow "
  "where the other does not.",
  [I], "all sample values within the stated lengths",
  "The repository's comparison tests use random signals only, which never hit the saturation corners.",
  ["src/ltpf_arm.h", "src/ltpf_neon.h", "src/mdct_neon.h", "src/ltpf.c"],
  [("variants", "src/ltpf_arm.h, src/ltpf_neon.h")],
  ["lc3_ltpf_analyse"])

p("C24", "The lapped transform reconstructs every signal perfectly",
  "For every signal and every configuration, forward transform followed by inverse transform and overlap-add gives the signal back delayed by the "
  "codec's documented delay, up to the rounding of float arithmetic. When the codec runs at a lower rate than the PCM, the "
  "upper part of the spectrum is taken as zero and the gain is preserved.",
  [I, C], "all signals (linear symbolic execution), all durations and rates",
  "Tests compare a few spectra with reference vectors; a wrong coefficient in one size of the transform needs that size.",
  ["src/mdct.c", "src/tables.c"],
  [("transform", "src/mdct.c lc3_mdct_forward, lc3_mdct_inverse")],
  ["lc3_mdct_forward", "lc3_mdct_inverse"])

p("C25", "Noise shaping filters are undone exactly by the decoder",
  "With the transmitted parameters, the decoder's temporal-noise-shaping filter is the exact inverse of the encoder's one, and the decoder's "
  "spectral envelope is the exact inverse of the encoder's one, for every signal and every parameter set (up to rounding). "
  "Both sides restart the filters at the same band limits.",
  [I, C], "all signals, all coefficient and envelope values within the stated sets",
  "Tests compare a few vectors.",
  ["src/tns.c", "src/sns.c"],
  [("lattice filters", "src/tns.c forward_filtering, inverse_filtering"), ("envelope", "src/sns.c spectral_shaping")],
  ["lc3_tns_analyze", "lc3_tns_synthesize", "lc3_sns_analyze", "lc3_sns_synthesize"])

p("C26", "LC3 file container round trip and robustness",
  "A container header written by the tool is read back with the same parameters for every supported configuration, channel count and "
  "sample count, and frames are read back unmodified. Reading arbitrary bytes never overruns the frame buffer; truncated or "
  "oversized blocks end the stream.",
  [I], "all header values and all file contents within the stated sizes",
  "Tools have no unit test at all.",
  ["tools/lc3bin.c", "tools/lc3bin.h"],
  [("header", "tools/lc3bin.c lc3bin_write_header, lc3bin_read_header"), ("blocks", "tools/lc3bin.c lc3bin_read_data")],
  ["lc3bin_read_header", "lc3bin_read_data"])

p("C27", "WAVE header parsing and writing",
  "A WAVE header written by the tool is read back with the same parameters, and any well formed PCM file with extra chunks or "
  "an extended format chunk is positioned at its first sample. Arbitrary file contents never cause memory errors, and an "
  "unsupported format is rejected.",
  [I], "all header field values, chunk orders and sizes within the stated bounds",
  "Tools have no unit test at all.",
  ["tools/wave.c", "tools/wave.h"],
  [("chunk walk", "tools/wave.c wave_read_header")],
  ["wave_read_header", "wave_write_header"])

p("C28", "C++ wrapper: channel interleaving, frame splitting and formats match the C API",
  "For any channel count and block size, the C++ wrapper hands each channel its own samples, its own part of the block and the "
  "format matching the sample type, so that the parts cover the block without overlap in the order the decoder uses. "
  "Any failure of one channel is reported as failure.",
  [I, C], "all block sizes and channel counts within the stated bound, all sample types",
  "The C++ wrapper has no test.",
  ["include/lc3_cpp.h"],
  [("splitting", "include/lc3_cpp.h Encoder::EncodeImpl, Decoder::DecodeImpl")],
  ["lc3::Encoder::Encode", "lc3::Decoder::Decode"])

p("C29", "Python wrapper: channel interleaving, frame splitting and padding",
  "For any channel count, input length and block size, the Python wrapper hands each channel its own samples, its own part of "
  "the block, and pads short input with silence; the parts cover the block without overlap in the order the decoder uses. "
  "Encoder and decoder wrappers agree on the split of a block.",
  [I, C], "all block sizes and lengths, channel counts within the stated bound",
  "The Python tests use a few sizes and full-length input.",
  ["python/lc3.py"],
  [("splitting", "python/lc3.py Encoder.encode, Decoder.decode")],
  ["lc3.Encoder.encode", "lc3.Decoder.decode"])

p("C30", "Disabling the long-term filter removes it from every later frame",
  "After the encoder's long-term filter has been disabled, no later frame signals it as present or active, for any signal "
  "and history, and everything else of the frame is encoded as usual. Disabling affects only that encoder and lasts until it is set up again.",
  [I, H], "all encoder states and signals (stage results arbitrary)",
  "Tests never disable it.",
  ["src/lc3.c", "src/ltpf.c"],
  [("bypass", "src/lc3.c lc3_encoder_disable_ltpf, analyze")],
  ["lc3_encoder_disable_ltpf", "lc3_encode"])

p("C31", "Output depends only on the inputs and the codec's own history",
  "Encoding and decoding results depend only on the frame given and the codec's own past, never on uninitialised memory, stack contents, "
  "other codec instances or the previous contents of the output buffer. The same call sequence on two instances therefore "
  "gives identical results.",
  [I, H], "all initial contents of unspecified memory, all parsed values",
  "A test run sees one memory content; stale stack data usually holds the same values on each run.",
  ["src/lc3.c", "src/tns.c", "src/sns.c", "src/ltpf.c", "src/spec.c", "src/bits.c"],
  [("full initialisation of side data", "src/lc3.c struct side_data, src/*.c lc3_*_get_data")],
  ["lc3_encode", "lc3_decode"])

p("C32", "Long-term post-filter: transparent when inactive, smooth transitions",
  "A frame without active long-term filter data, following another one, passes through the decoder's long-term filter "
  "unchanged, whatever its history; the filter state after a frame is determined by that frame's data. Switching the filter on or off cross-fades over "
  "2.5 ms, and samples after the transition are those of the new state alone.",
  [H, I, C], "all filter states, all pitch data, all configurations, all signals (linear)",
  "Tests use a few vectors with a few transitions.",
  ["src/ltpf.c"],
  [("synthesis filter", "src/ltpf.c lc3_ltpf_synthesize")],
  ["lc3_decode"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
