import json
P=[]
def add(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

add("C01","Every bitstream decodes bit-exactly to the reported reconstruction",
"For every valid configuration and every video (8-bit video held in 8- or 16-bit samples alike), each packet the encoder emits is accepted without error by independent conforming AV1 decoders and decodes to exactly one picture. That picture is sample-for-sample identical, in every plane and including odd-sized edges, to the reconstruction the encoder returned with the packet.",
["configurations","inputs"],
"All valid encoder configurations (frame size, 4:0:0/4:2:0/4:2:2/4:4:4, 8/10/12 bit, all speed presets and individual coding-tool switches, quantizer, tiles, key/switch frames, error resilience, low latency, rate control, still pictures) times all video content.",
"The decode tests sample a few dozen fixed configurations with white noise only, mostly with one setting varied at a time, and skip the last odd chroma column/row; most coding paths (edges, partial superblocks, reference selection, loop filters, entropy contexts) depend on the joint choice of size, format, tools and content.",
["src/encoder.rs","src/header.rs","src/context/","src/ec.rs","src/deblock.rs","src/cdef.rs","src/lrf.rs","src/predict.rs","src/mc.rs","src/recon_intra.rs","src/transform/","src/quantize/","src/segmentation.rs","src/rdo.rs","src/me.rs","src/partition.rs"],
[("the encoder mirrors the decoder: prediction, inverse transform, loop filters, CDF adaptation and header syntax","src/encoder.rs encode_frame, encode_tile_group, src/header.rs")],
["Packet::data decoded by dav1d and libaom, against Packet::rec"])

add("C02","Exactly one packet per accepted frame, in order, under any call sequence",
"Under any interleaving of sending frames, receiving packets and flushing, every accepted frame produces exactly one packet, packets come out in input order numbered 0,1,2,…, and each carries its own source picture and its own user data. After a flush further frames are refused with 'enough data' and have no effect, the receive call never asks for more data, and it reports 'limit reached' once and for all exactly when every accepted frame has been delivered; before a flush it asks for more data only while the frames still held are within the configured look-ahead and reordering depth. A still-picture encoder accepts exactly one frame.",
["histories","configurations"],
"All sequences of send / send with parameters / receive / flush calls, all lengths including zero frames, all reordering and look-ahead configurations.",
"The API tests run a handful of fixed call patterns (send everything, flush, drain) for fixed lengths; statuses depend on the whole history of calls together with look-ahead, pyramid position and keyframe placement.",
["src/api/context.rs","src/api/internal.rs","src/api/lookahead.rs","src/encoder.rs"],
[("frame and packet queues and the output frame schedule","src/api/internal.rs ContextInner::{send_frame,receive_packet,compute_frame_invariants,set_frame_properties}"),("flush and limit state","src/api/context.rs Context::send_frame")],
["Context::send_frame / receive_packet / flush return values and Packet fields"])

add("C03","Output is a function of frames and configuration only",
"The packets of an encode (bytes, frame types, quantizers, order) depend only on the configuration and the visible pixels and per-frame parameters sent. They are identical for any number of worker threads, any thread pool, any interleaving of send and receive calls (in constant-quantizer mode; a bitrate target may be met differently when more of the video is known), repeated runs, and whatever lies in the frame buffer outside the visible area.",
["schedules","histories","inputs"],
"All thread counts and rayon schedules, all call interleavings, both sample storage types for 8-bit content, all contents of the invisible buffer area.",
"Unit tests encode once with one thread setting and never compare two encodes; a race between tile workers or a dependence on call timing shows only under particular schedules and configurations.",
["src/api/internal.rs","src/encoder.rs","src/api/context.rs","src/rdo.rs","src/tiling/","src/me.rs","src/rate.rs","src/frame/mod.rs"],
[("tile workers own disjoint state and results are combined in tile order","src/encoder.rs encode_tile_group"),("look-ahead runs only on frames that are certain to be available","src/api/internal.rs needs_more_frame_q_lookahead"),("padding of input frames","src/api/internal.rs send_frame")],
["Packet bytes of paired encodes"])

add("C04","Assembly level never changes results",
"Encoding the same video with the same configuration gives byte-identical packets at every CPU feature level the machine supports, from pure Rust up. Each accelerated primitive (distortion metrics, motion compensation, intra prediction, forward and inverse transforms, directional filter) returns exactly what its pure Rust version returns for every block size, bit depth and input.",
["configurations","inputs"],
"All CPU levels selectable on the machine, all block/transform sizes and types, prediction modes, filters, bit depths and sample/coefficient values within the codec's range.",
"check_asm tests compare kernels on a few fixed or random blocks with limited values, strides and levels; whole-encode equality across levels is not tested.",
["src/asm/","src/cpu_features/","src/dist.rs","src/mc.rs","src/predict.rs","src/transform/","src/cdef.rs","src/quantize/mod.rs","src/lrf.rs"],
[("per-level dispatch tables with a Rust fallback","src/asm/x86/, src/cpu_features/x86.rs")],
["Packet bytes per RAV1E_CPU_TARGET level; kernel outputs per CpuFeatureLevel"])

add("C05","Configuration validation is exact, and accepted configurations work",
"Validation accepts a configuration exactly when it meets the documented limits (frame and render size, aspect ratio, time base, tile counts, look-ahead, keyframe interval, reservoir delay, switch-frame, still-picture, colour and level rules) and otherwise names the offending setting. It never panics, and every accepted configuration can create an encoder that encodes frames to completion without a panic.",
["configurations","inputs"],
"All values of all configuration fields, in particular both sides of every limit and combinations of limits.",
"Tests construct some invalid configurations one at a time and encode with a few mild valid ones; the limits interact and the extreme accepted values are never encoded.",
["src/api/config/mod.rs","src/api/config/encoder.rs","src/api/config/rate.rs","src/levels.rs","src/encoder.rs","src/rate.rs","src/tiling/tiler.rs"],
[("Config::validate","src/api/config/mod.rs"),("level limits","src/levels.rs")],
["Config::validate / new_context result, panics during a short encode"])

add("C06","Keyframes and switch frames appear where requested; keyframes restart decoding",
"The first frame and every frame for which the caller requested it is a keyframe, no two keyframes are further apart than the maximum interval, and with scene detection off keyframes appear at no other place; switch frames appear at the configured interval counted within the group of pictures and nowhere else. Decoding that starts at any keyframe's packet yields exactly the pictures of a decode from the beginning.",
["histories","configurations","inputs"],
"All keyframe interval settings, forced-keyframe patterns, clip lengths, reordering modes, scene detection modes and contents.",
"Tests check a few fixed interval/length pairs by comparing tables of frame numbers, and never decode from the middle of a stream.",
["src/api/internal.rs","src/api/lookahead.rs","src/encoder.rs","src/header.rs","src/frame/mod.rs"],
[("keyframe placement","src/api/internal.rs compute_keyframe_placement, next_keyframe_input_frameno"),("switch frames and reference refresh","src/encoder.rs FrameInvariants::new_key_frame/new_inter_frame")],
["Packet::frame_type, decode from a mid-stream keyframe packet"])

add("C07","Stream headers state the configuration",
"Every packet is a well-formed sequence of OBUs (one temporal delimiter first, exact sizes, a sequence header with every keyframe, exactly one shown frame last), and the sequence and frame headers as read by an independent parser carry the configured size, render size, profile, bit depth, chroma format and position, range, colour description, still-picture and timing information, level, error resilience, frame type and quantizer reported with the packet. The container configuration record agrees with the sequence header in the stream.",
["configurations","inputs"],
"All valid configurations and resulting frame structures.",
"Existing tests never parse the bitstream back; a wrong but syntactically valid header field is invisible to decode-and-compare tests.",
["src/header.rs","src/encoder.rs","src/api/context.rs","src/api/color.rs"],
[("header writers","src/header.rs"),("sequence parameters","src/encoder.rs Sequence::new"),("container record","src/api/context.rs container_sequence_header")],
["Packet::data parsed by dav1d and by an OBU walker; container_sequence_header()"])

add("C08","Metadata reaches the stream intact and with the right frame",
"T.35 metadata attached to an input frame appears, byte for byte and in order, exactly once, in the packet that shows that frame; mastering-display and content-light values appear unchanged with every keyframe; user data attached to a frame comes back once with that frame's packet. This holds for any payload and any reordering.",
["inputs","histories","configurations"],
"All metadata payloads (any country code and length), any subset of frames, all reordering configurations.",
"One test attaches opaque data to fixed frames; no test reads metadata back out of the bitstream.",
["src/header.rs","src/encoder.rs","src/api/internal.rs","src/api/color.rs"],
[("metadata OBU writers","src/header.rs write_t35_metadata_obu, write_sequence_metadata_obu"),("per-frame queues","src/api/internal.rs opaque_q, t35_q")],
["OBU_METADATA in Packet::data, Packet::opaque"])

add("C09","Rate control respects the quantizer limits and the bitrate target",
"In constant-quantizer mode a smaller quantizer never yields a coarser quantizer for a frame, in bitrate mode no frame is coarser than the same frame coded at the configured maximum quantizer nor finer than at the minimum quantizer, and the reported quantizer is the one in the frame header. When the bitrate target lies well inside what the content can reach and no maximum quantizer is set, the encoded size stays within the bit reservoir's tolerance of the target.",
["inputs","configurations","histories"],
"All contents, quantizers, bitrates, reservoir sizes, frame rates and clip lengths.",
"Tests only check that rate-controlled encodes finish; whether limits and targets hold depends on the feedback history of all previous frame sizes.",
["src/rate.rs","src/api/internal.rs","src/quantize/mod.rs","src/util/logexp.rs"],
[("quantizer selection and reservoir update","src/rate.rs RCState::select_qi, update_state, calc_flat_quantizer, new_from_log_q")],
["Packet::qp, frame header base quantizer, packet sizes"])

add("C10","Multi-pass statistics transfer losslessly or are rejected",
"First-pass statistics taken from one encode and given to a second encode of the same video drive it to completion with one packet per frame, identically whether delivered through the byte-stream or the packet interface and however the bytes are split. A summary that round-trips through its serialized form is unchanged, an encode stops with 'not ready' rather than proceeding when data is missing, and truncated or corrupted statistics are refused with an error and never cause a panic.",
["inputs","histories","fault_sequences"],
"All videos, configurations, chunkings of the data, orders of calls, and corruptions of the statistics.",
"Tests run two-pass once with well-formed data in fixed chunks; malformed and partially delivered data is not exercised.",
["src/rate.rs","src/api/config/rate.rs","src/api/context.rs","src/api/channel/data.rs"],
[("serialisation and parsing of pass data","src/rate.rs emit_frame_data, emit_summary, RCDeserialize, twopass_in, parse_frame_data_packet")],
["twopass_out/twopass_in/rc_* results, second-pass packets"])

add("C11","The channel interface delivers the same stream as the direct interface",
"Feeding the same frames and parameters through the channel interface produces exactly the packets of the direct interface, in order, for any queue bounds and consumer timing, and dropping the frame sender flushes the encoder and ends the packet stream. With parallel groups of pictures every frame still yields exactly one packet in order and the concatenated stream decodes to the reported reconstructions.",
["schedules","histories","configurations"],
"All frame counts, consumer/producer timings, thread pool sizes and group-of-pictures parallelism.",
"Channel tests drive one fixed pattern and only count packets.",
["src/api/channel/mod.rs","src/api/channel/data.rs","src/api/channel/by_gop.rs"],
[("encoder thread and channels","src/api/channel/mod.rs"),("GOP split and reassembly","src/api/channel/by_gop.rs")],
["PacketReceiver output against Context output"])

add("C12","The C interface behaves like the Rust interface and owns memory correctly",
"Driving the encoder through the C functions with a given configuration, frames and flags gives byte-identical packets, statuses and headers to the Rust interface. Plane data filled into a frame is read back unchanged, option strings are accepted or rejected exactly as documented and rejected ones leave the configuration unchanged, every user pointer attached to a frame is either returned with its packet or passed to its destructor exactly once, and no documented call aborts the process.",
["histories","inputs","configurations"],
"All option key/value strings, call sequences, plane strides and byte widths, and pass-data buffers.",
"Two C-API tests encode one default clip; ownership on error paths, option parsing and plane copying with unusual strides are untested.",
["src/capi.rs"],
[("option parser","src/capi.rs option_match"),("frame/packet ownership","src/capi.rs rav1e_frame_*, rav1e_packet_unref, FrameOpaque")],
["C entry points called directly"])

add("C13","The command line tool writes a complete, decodable, faithful file",
"Encoding a Y4M file with the command line tool produces an IVF file whose header states the video's size and rate and whose frames have increasing timestamps, one per input frame selected by the skip and limit options, and which decodes to exactly the reconstruction file it writes. Two-pass runs and runs with saved statistics do the same, and bad options or malformed input end with an error exit, not a panic or a truncated success (input that ends within a frame ends there).",
["inputs","configurations"],
"All Y4M inputs (size, chroma, depth, frame rate, length) and option combinations.",
"The binary tests run the tool on tiny random input and check only the exit status.",
["src/bin/rav1e.rs","src/bin/common.rs","src/bin/decoder/y4m.rs","src/bin/muxer/","ivf/src/lib.rs"],
[("input, option and mux loop","src/bin/rav1e.rs process_frame, do_encode; src/bin/common.rs parse_config"),("IVF/Y4M writers","src/bin/muxer/ivf.rs, src/bin/muxer/y4m.rs")],
["exit code, IVF output, reconstruction Y4M"])

add("C14","IVF writing and reading are inverse, and reading rejects damage",
"A file written frame by frame with the IVF writer reads back with the same header fields, timestamps and payloads for all values. Reading any byte sequence either yields packets wholly contained in it or reports an error, and never panics or returns bytes that were not there.",
["inputs","fault_sequences"],
"All header values, timestamps and payloads, and all truncations/corruptions of a file.",
"The ivf crate has no test that reads back what it writes or reads damaged files.",
["ivf/src/lib.rs"],
[("writer and reader","ivf/src/lib.rs write_ivf_header, write_ivf_frame, read_header, read_packet")],
["ivf crate functions"])

add("C15","Entropy coding is lossless",
"Any sequence of symbols, booleans, literals and Golomb/sub-exponential values written to the range coder is recovered exactly by a decoder built from the AV1 specification with the same probability tables, which end in the same adapted state. Recording and replaying a sequence, rolling back to a checkpoint, and counting bits without output are all equivalent to writing it directly.",
["inputs","histories"],
"All symbol sequences, alphabet sizes, probability tables, and record/replay/rollback histories.",
"Unit tests code a fixed short sequence; carry propagation, long runs and rollback positions depend on the entire history.",
["src/ec.rs","src/util/cdf.rs","src/context/cdf_context.rs"],
[("range coder and recorder","src/ec.rs WriterBase, StorageBackend"),("adaptation and rollback log","src/ec.rs update_cdf, src/context/cdf_context.rs CDFContextLog")],
["WriterEncoder/WriterCounter/WriterRecorder output"])

add("C16","Coding distortion is bounded by the quantizer",
"For any video the squared error of each reconstructed plane stays within a fixed multiple of the squared quantizer step the frame was coded with, and at the finest quantizer the reconstruction is near-lossless. For every transform size and type, forward followed by inverse transform returns the residual within the rounding tolerance at all bit depths.",
["inputs","configurations"],
"All contents, quantizers, bit depths, chroma formats, transform sizes and types and residuals.",
"Tests check that streams decode, not that they resemble the input; transform round-trips are sampled at 8-bit with small residuals.",
["src/transform/forward_shared.rs","src/transform/forward.rs","src/transform/inverse.rs","src/quantize/mod.rs","src/encoder.rs","src/rdo.rs"],
[("forward transform, quantization","src/transform/, src/quantize/mod.rs"),("mode decision","src/rdo.rs")],
["source against Packet::rec; forward_transform/inverse_transform_add"])

add("C17","Tile layout honours the request within AV1 limits",
"For every frame size and requested tile layout, the tiles form a uniform grid that covers the frame exactly, satisfies the AV1 limits on tile count, width and area, and is the layout a decoder derives from the frame header. Requested column and row counts (or at least the requested total) are met whenever the frame is large enough and the limits allow.",
["configurations"],
"All frame sizes up to 65535x65535, frame rates, chroma formats and tile requests.",
"Tests cover a few fixed sizes; encoding never happens at the sizes where the limits bind.",
["src/tiling/tiler.rs","src/encoder.rs","src/header.rs"],
[("layout computation","src/tiling/tiler.rs TilingInfo::from_target_tiles, src/encoder.rs Sequence::new"),("tile info syntax","src/header.rs write_frame_header_obu")],
["Sequence::tiling, decoded frame header tile counts"])

add("C18","Film grain parameters are signalled exactly and never alter the coded video",
"With a film grain table, every shown frame carries exactly the parameters of the table segment covering its presentation time, with a per-frame seed, and frames outside all segments carry none. Apart from these parameters the coded video is the same as without the table: decoding with grain synthesis disabled yields the reported reconstruction.",
["inputs","configurations"],
"All grain tables (points, coefficients, shifts, chroma scaling), segment timings and frame structures.",
"One test encodes with a fixed table and only checks that it decodes.",
["src/header.rs","src/encoder.rs","src/api/config/encoder.rs","src/api/internal.rs"],
[("segment lookup","src/api/config/encoder.rs get_film_grain_at"),("film grain syntax","src/header.rs write_film_grain_params")],
["frame header film grain data parsed by dav1d"])

add("C19","Serialized configurations and packets are restored exactly",
"An encoder configuration written out and read back is the same configuration: it has the same value in every field and encodes the same video to the same bytes. Serialized packets and rate-control summaries are restored with the same data.",
["configurations","inputs"],
"All configurations, packets and summaries.",
"No test round-trips a configuration; a field skipped or swapped in serialization is silent.",
["src/api/config/encoder.rs","src/api/config/speedsettings.rs","src/api/util.rs","src/api/color.rs","src/rate.rs"],
[("serde implementations","src/api/util.rs Rational, derived elsewhere")],
["serialize then deserialize, compare"])

open("/verif/properties.jsonl","w").write("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in P))
