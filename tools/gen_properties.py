#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept in one place so ids, anchors and statements stay consistent)."""
import json, os
L="cloudini_lib/"
I=L+"include/cloudini_lib/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech])))

p("P01","Varint codec is a bijection with exact lengths and strict bounds",
  "For every int64 value, decodeVarint(encodeVarint64(v)) returns v and consumes exactly the bytes written (1 to 10), and no non-NaN value is ever encoded as the reserved byte 0. "
  "On arbitrary bytes decodeVarint either throws or returns having read only bytes inside the given size, and never reports more consumed bytes than the size it was given.",
  ["inputs"],"all 2^64 values; all byte strings up to the longest varint and every max_size",
  "2^64 values and every truncation point; the tests sample values and small exhaustive ranges, while boundary values (2^62, INT64_MIN, overlong forms) sit outside them.",
  [I+"encoding_utils.hpp"],[("encodeVarint64",I+"encoding_utils.hpp"),("decodeVarint",I+"encoding_utils.hpp")])

p("P02","Integer fields survive encode/decode exactly",
  "Encoding a cloud whose fields are any mix of INT8/UINT8/INT16/UINT16/INT32/UINT32/INT64/UINT64 and decoding the result returns every field value bit-exactly, for every value sequence, in format versions 3, 4 and 5, in every encoding option, and whichever adaptive section mode (delta, palette, RLE, delta-RLE) V5 selects. "
  "This includes full-range values whose differences wrap, any number of points, and clouds spanning several chunks.",
  ["inputs","configurations"],"all field values, all integer types, versions and encoding options; point counts around the probe (4096) and chunk (32768) boundaries",
  "Mode selection, run/palette boundaries and wrap-around deltas depend on the data; a test can only sample a handful of sequences.",
  [L+"src/v5_codec.cpp",L+"src/v4_codec.cpp",I+"field_encoder.hpp",I+"field_decoder.hpp"],
  [("FieldEncoderInt/FieldDecoderInt",I+"field_encoder.hpp"),("V5 adaptive integer sections",L+"src/v5_codec.cpp"),("decodeV5AdaptiveIntSection",L+"src/v5_codec.cpp")],
  [("committed_mode","adaptive mode chosen in the first chunk and kept for the cloud",L+"src/v5_codec.cpp")])

p("P03","Lossless float encodings are bit-exact",
  "FLOAT32 and FLOAT64 fields encoded without loss (LOSSLESS or NONE option, or FLOAT64 without a resolution) decode to exactly the same bit pattern, including NaN payloads, infinities, signed zeros and denormals. "
  "It holds for every sequence of values within a chunk and across chunk resets, both through the XOR and the Gorilla codecs and both through the field codecs and the cloud API.",
  ["inputs","histories"],"all bit patterns and all value sequences up to the stated length",
  "The Gorilla window state depends on the leading/trailing zero counts of every earlier XOR; tests use smooth or random signals that hardly visit the window corner cases.",
  [I+"field_encoder.hpp",I+"field_decoder.hpp",L+"src/codec_common.cpp"],
  [("FieldEncoderFloat_Gorilla",I+"field_encoder.hpp"),("FieldDecoderFloat_Gorilla",I+"field_decoder.hpp"),("FieldEncoderFloat_XOR",I+"field_encoder.hpp")],
  [("prev_leading_/prev_trailing_","current Gorilla window",I+"field_encoder.hpp")])

p("P04","Lossy float fields stay within half a resolution; NaN stays NaN",
  "In LOSSY mode every finite FLOAT32/FLOAT64 value with a resolution (within the quantizer's integer range) decodes to a value within 0.5*resolution plus floating-point rounding of the original, and a NaN decodes to NaN. "
  "A NaN in one field or point never changes the error bound of any other field or point, and decoding never drifts: the bound holds for every point independently of the values before it.",
  ["inputs","histories"],"all finite values in the quantizer range, all NaN placements over the points and fields of a cloud, single-field and 3/4-field SIMD paths",
  "Rounding at ties, NaN resets and delta histories combine; tests use a few values with a loose tolerance.",
  [L+"src/field_encoder.cpp",L+"src/field_decoder.cpp",I+"field_encoder.hpp",I+"field_decoder.hpp",I+"intrinsics.hpp"],
  [("FieldEncoderFloatN_Lossy::encode",L+"src/field_encoder.cpp"),("FieldDecoderFloatN_Lossy::decode",L+"src/field_decoder.cpp"),("FieldEncoderFloat_Lossy",I+"field_encoder.hpp"),("cast_vector4f_to_vector4i",I+"intrinsics.hpp")],
  [("prev_vect_","last quantized vector per field",I+"field_encoder.hpp")])

p("P05","Any supported cloud round-trips through the encoder/decoder pair",
  "For every supported configuration (any field list and order, offsets with padding or reordering, organized or unorganized dimensions, encoding option, compression option, version 3 to 5) the bytes produced by PointcloudEncoder decode, after DecodeHeader, without error and in full: lossless fields are exact, lossy fields are within tolerance. "
  "Bytes of the output point that belong to no field are left untouched by the decoder. "
  "The encoder accepts a field list exactly when every field lies inside point_step; otherwise it throws instead of reading outside the cloud.",
  ["configurations","inputs"],"field lists up to the stated length over all types, all option combinations, all values within the bounds",
  "Encoder and decoder choose per-field codecs in separate places (leading-float grouping, adaptive split, legacy rules); only the product of configurations shows a disagreement.",
  [L+"src/cloudini.cpp",L+"src/codec_common.cpp",L+"src/v4_codec.cpp",L+"src/v5_codec.cpp",L+"src/chunk_writer.cpp"],
  [("PointcloudEncoder::encode",L+"src/cloudini.cpp"),("PointcloudDecoder::decode",L+"src/cloudini.cpp"),("CreateCompatibleEncoder/Decoder",L+"src/codec_common.cpp"),("DecompressChunk",L+"src/codec_common.cpp")])

p("P06","Headers round-trip in both encodings",
  "DecodeHeader(EncodeHeader(info)) returns the same version, dimensions, point step, options and field list (name, offset, type, exact resolution), for the YAML and the BINARY header encodings, and leaves the input view positioned exactly after the header; EncodingInfoFromYAML(EncodingInfoToYAML(info)) restores the same. "
  "It holds for every EncodingInfo with a supported version whose strings are plain one-line YAML scalars (printable, no blank at either end, '#' only inside a word) and whose resolutions are positive normal floats, and for any bytes that follow the header.",
  ["inputs","configurations"],"all numeric header values, all field types/offsets/resolutions, names over printable characters up to the stated length; binary headers whose width and height spell the text \"\\nversion\" (10^18 points) are excluded",
  "Text formatting, format detection and field parsing interact with specific values (e.g. a width whose low byte is a newline, a resolution that needs 9 digits).",
  [L+"src/cloudini.cpp",I+"yaml_parser.hpp"],
  [("EncodeHeader",L+"src/cloudini.cpp"),("DecodeHeader",L+"src/cloudini.cpp"),("EncodingInfoToYAML/FromYAML",L+"src/cloudini.cpp"),("YAML::Parser",I+"yaml_parser.hpp")])

p("P07","Decoding untrusted payloads never touches memory out of bounds",
  "For any header that DecodeHeader can return and any payload bytes, PointcloudDecoder::decode either returns normally or throws a std::exception: it terminates, never reads outside the payload, and never writes outside the output buffer it was given. "
  "This covers truncated data, hostile varints, run lengths, palette sizes, chunk sizes and field offsets or point steps that do not match.",
  ["inputs","fault_sequences"],"all payload byte strings up to the stated length under each listed header shape, with symbolic offsets and point steps",
  "Corruption has unbounded variety; tests try a few truncations and cannot see silent out-of-bounds accesses.",
  [L+"src/cloudini.cpp",L+"src/v4_codec.cpp",L+"src/v5_codec.cpp",I+"field_decoder.hpp",L+"src/field_decoder.cpp",I+"encoding_utils.hpp"],
  [("PointcloudDecoder::decode",L+"src/cloudini.cpp"),("DecodeV4Stage1Chunk",L+"src/v4_codec.cpp"),("DecodeV5Stage1Chunk",L+"src/v5_codec.cpp"),("field decoders",I+"field_decoder.hpp")])

p("P08","DecodeHeader is memory-safe and strict on arbitrary bytes",
  "For any input bytes DecodeHeader either returns an EncodingInfo with version 2 to 5 or throws a std::exception, never reads outside the input and terminates. "
  "A wrong magic, an unsupported version, a truncated binary header or an unterminated YAML header is always rejected.",
  ["inputs"],"all byte strings up to the stated length after the magic, and mutated valid headers",
  "The space of malformed headers cannot be sampled meaningfully; the tests try two.",
  [L+"src/cloudini.cpp",I+"yaml_parser.hpp",I+"encoding_utils.hpp"],
  [("DecodeHeader",L+"src/cloudini.cpp"),("YAML::Parser",I+"yaml_parser.hpp")])

p("P09","MaxCompressedSize bounds every encoder output",
  "For every supported configuration and every cloud content, the encoded size never exceeds MaxCompressedSize(info, points, include_header), and encoding into a preallocated buffer of that size succeeds and writes only inside that buffer and inside the encoder's own scratch buffers. "
  "A smaller caller buffer is rejected with an exception before anything is written out of bounds.",
  ["inputs","configurations"],"all values (worst-case deltas, alternating runs, incompressible data), all field types, chunk counts around the boundaries",
  "The worst case needs adversarial data for each mode; random data does not approach it.",
  [L+"src/cloudini.cpp",L+"src/codec_common.cpp",L+"src/v5_codec.cpp",L+"src/chunk_writer.cpp"],
  [("MaxCompressedSize",L+"src/cloudini.cpp"),("MaxSerializedFieldSize",L+"src/codec_common.cpp"),("V5StageBufferSize",L+"src/v5_codec.cpp")])

p("P10","Incomplete or surplus encoded data is always rejected",
  "If the encoded payload of a non-empty cloud with at least one field is cut at any byte or has bytes or chunks appended, PointcloudDecoder::decode throws instead of returning success; so it does when the header declares a number of points that needs a different number of chunks, or, in formats 3 and 4, any different number of points. "
  "Passing data that still carries the header, or an output buffer smaller than the declared cloud, is rejected as well. Whatever the data, a decode that returns successfully has set every field (that is not skipped) of every point.",
  ["inputs","fault_sequences"],"every cut position and every appended byte of every encoding within the bounds",
  "Every prefix of every encoding must fail; tests check one or two hand-picked truncations.",
  [L+"src/cloudini.cpp",L+"src/v5_codec.cpp",L+"src/v4_codec.cpp"],
  [("chunk loop of PointcloudDecoder::decode",L+"src/cloudini.cpp"),("trailing-bytes check",L+"src/v5_codec.cpp")])

p("P11","Wire formats V2 to V5 are stable",
  "For every cloud the bytes produced for versions 3 and 4 are exactly those of the format earlier releases write (headers, chunk framing, varint/zigzag, NaN marker, XOR/Gorilla residuals), those produced for version 5 (mode ids and section layout) are read back by an independent reader of that format, and the decoder reconstructs clouds from streams produced by that format for versions 2 to 5, including every V5 section mode regardless of which one this encoder would have chosen. "
  "Data written by earlier releases therefore stays readable, and new data stays readable by other implementations.",
  ["inputs","configurations"],"all field values within the bounds against an independent reference codec",
  "A symmetric change to encoder and decoder passes every round-trip test while breaking all stored data.",
  [L+"src/v5_codec.cpp",L+"src/v4_codec.cpp",I+"field_encoder.hpp",I+"field_decoder.hpp",I+"encoding_utils.hpp"],
  [("field codecs",I+"field_encoder.hpp"),("V5 sections",L+"src/v5_codec.cpp"),("chunk framing",L+"src/chunk_writer.cpp")])

p("P12","Encoding and decoding do not depend on earlier calls",
  "A PointcloudEncoder or PointcloudDecoder that has already processed other clouds (or has thrown) produces exactly the same result for the next cloud as a fresh object, and so does every chunk: no delta, palette, window or buffer state leaks from one cloud or chunk to the next. "
  "Encoding the same cloud twice gives identical bytes, whatever the contents of reused or uninitialised memory.",
  ["histories","inputs"],"sequences of two or three encode/decode calls with arbitrary contents, sizes and headers, including failing ones",
  "State leaks only show for particular earlier contents; tests use a fresh object per case.",
  [L+"src/cloudini.cpp",L+"src/v4_codec.cpp",L+"src/v5_codec.cpp",I+"field_encoder.hpp"],
  [("ResetEncoders/ResetDecoders",L+"src/codec_common.cpp"),("PointcloudDecoder::updateDecoders",L+"src/cloudini.cpp")],
  [("decompressed_buffer_, decoders_, encoders_","state surviving between calls",I+"cloudini.hpp")])

p("P13","Threaded compression is equivalent to single-threaded on every schedule",
  "With use_threads enabled, for every interleaving of the encoding and compression threads encode() terminates, returns the same bytes as the single-threaded encoder, and has no data race on the shared buffers; destruction always joins the worker. "
  "If compression fails in the worker the exception reaches the caller and the encoder remains usable.",
  ["schedules","fault_sequences"],"all schedules at synchronisation points for clouds of one to three chunks, reuse of the encoder, and a failing compressor at any chunk",
  "The order in which the two threads reach the mutex is not controllable from a unit test.",
  [L+"src/cloudini.cpp",I+"cloudini.hpp"],
  [("compressionWorker",L+"src/cloudini.cpp"),("waitForCompressionComplete",L+"src/cloudini.cpp"),("write_stage1_chunk",L+"src/cloudini.cpp")],
  [("has_data_to_compress_, compression_done_, should_exit_, worker_failed_","hand-over protocol flags",I+"cloudini.hpp")])

p("P14","CDR codec round-trips and never reads past its buffer",
  "For either endianness every sequence of primitives, strings, byte buffers, vectors and arrays written by nanocdr::Encoder is read back identically by nanocdr::Decoder, with the alignment rules of the CDR header in force. "
  "On arbitrary buffers the Decoder either decodes or throws a std::exception; it never reads outside the buffer, and views it returns lie inside the buffer.",
  ["inputs","configurations"],"all primitive values, string lengths, alignments up to the bound, both endiannesses; arbitrary buffers up to the stated length",
  "Alignment depends on every earlier item; malformed lengths and short buffers have no exhaustive tests.",
  [I+"contrib/nanocdr.hpp"],
  [("nanocdr::Encoder::encode",I+"contrib/nanocdr.hpp"),("nanocdr::Decoder::decode",I+"contrib/nanocdr.hpp")])

p("P15","ROS PointCloud2 conversion to compressed form and back preserves the message",
  "Compressing a PointCloud2 DDS message and decompressing the result gives a message with the same header stamp and frame, height, width, fields, point_step, is_dense and endianness of the CDR encoding, row_step = width*point_step, and point data equal to the original (within tolerance for lossy fields). "
  "Empty clouds are preserved, and a compressed message with inconsistent or hostile contents raises an exception instead of reading or writing out of bounds.",
  ["inputs","configurations"],"all stamps, names, dimensions and data within the bounds; arbitrary compressed message bytes",
  "The metadata travels through two serializers and a size patch; tests use one sample message.",
  [L+"src/ros_msg_utils.cpp",I+"ros_msg_utils.hpp"],
  [("convertPointCloud2ToCompressedCloud",L+"src/ros_msg_utils.cpp"),("convertCompressedCloudToPointCloud2",L+"src/ros_msg_utils.cpp"),("getDeserializedPointCloudMessage",L+"src/ros_msg_utils.cpp")])

p("P16","RosPointCloud2 copies and moves keep the data view valid",
  "After any sequence of copies, moves and assignments (including self-assignment) of RosPointCloud2, `data` of the destination has the same content as the source had, every metadata member is carried over, and when it was a view of owned_data it points into the destination's own buffer, so it stays valid after the source is destroyed. "
  "Views of external memory keep pointing at that memory.",
  ["histories","inputs"],"all sequences of copy/move construction/assignment up to the bound with owned, external and empty data",
  "A dangling view is invisible until the source dies; the unit test checks one copy.",
  [I+"ros_msg_utils.hpp"],[("RosPointCloud2 special members",I+"ros_msg_utils.hpp"),("rebindOwnedDataView",I+"ros_msg_utils.hpp")])

p("P17","Visualization preprocessing drops only invalid and same-voxel points",
  "applyVizLossyPreprocessing keeps, unchanged and in order, the first point of every xyz voxel among the points with finite coordinates, and nothing else; width, height=1, row_step, data and owned_data describe exactly the kept points, and FLOAT64 fields without a resolution get 1e-6. "
  "Without a valid geometry triple the message is left untouched, and no input makes it read outside the message data.",
  ["inputs"],"all coordinates (within the documented voxel range) and NaN/Inf placements for clouds up to the stated size, all field layouts in the bound",
  "Which points share a voxel depends on rounding of arbitrary floats; no unit test exists for it.",
  [L+"src/ros_msg_utils.cpp"],[("applyVizLossyPreprocessing",L+"src/ros_msg_utils.cpp"),("packVoxelKey21",L+"src/ros_msg_utils.cpp")])

p("P18","Resolution profiles affect exactly the named fields",
  "applyResolutionProfile removes exactly the fields whose profile resolution is 0, sets the resolution of every other profiled field, gives the default only to remaining FLOAT32 fields when a default is passed, and leaves the order and all other attributes of the fields unchanged. "
  "toEncodingInfo carries width, height, point_step and all fields over unchanged.",
  ["inputs","configurations"],"all subsets of profiled fields and types for field lists within the bound, symbolic resolutions",
  "Needs all combinations of presence, zero and default; no test covers it.",
  [L+"src/ros_msg_utils.cpp"],[("applyResolutionProfile",L+"src/ros_msg_utils.cpp"),("toEncodingInfo",L+"src/ros_msg_utils.cpp")])

p("P19","WASM entry points report failure as 0 and respect the caller's buffers",
  "Every exported cldn_* function returns 0 for malformed or inconsistent input instead of letting an exception escape, and never reads outside the message it was given. "
  "On success the first `returned` bytes of the output hold the whole result and nothing is written beyond the capacity the contract gives the caller (the input size for the encoders, cldn_GetDecompressedSize for the decoders); an encoded cloud that does not fit is reported as 0; encode followed by decode returns the original cloud within tolerance, and the header functions return the YAML of the header the data carry.",
  ["inputs"],"arbitrary message bytes up to the bound; valid messages with symbolic content",
  "The entry points are only exercised from JavaScript; malformed-input space cannot be sampled.",
  [L+"src/wasm_functions.cpp"],[("cldn_* functions",L+"src/wasm_functions.cpp")])

p("P20","Skipped fields are consumed but never stored",
  "Decoding with a field whose offset is kDecodeButSkipStore gives every other field exactly the value it has without skipping and writes nothing for the skipped field, for every field type, codec and version. "
  "This is what lets a PCL point type load a cloud holding fields it does not know.",
  ["configurations","inputs"],"each field position and type skipped, all versions and encoding options, all values within the bound",
  "Each codec handles the marker separately; the tests skip one field of one type.",
  [I+"basic_types.hpp",I+"field_decoder.hpp",L+"src/field_decoder.cpp",L+"src/v5_codec.cpp",I+"pcl_conversion.hpp"],
  [("kDecodeButSkipStore",I+"basic_types.hpp"),("decodeV5AdaptiveIntSection",L+"src/v5_codec.cpp"),("PointcloudDecode",I+"pcl_conversion.hpp")])

p("P21","SIMD vector helpers compute the lane-wise result",
  "Vector4f and Vector4i arithmetic and conversions equal the lane-wise scalar operation for every input, and the SIMD and scalar builds of the quantizer both honour the half-resolution bound. "
  "cast_vector4f_to_vector4i rounds to a nearest integer for every value in int32 range.",
  ["inputs"],"all float and int32 lane values",
  "The tests check a handful of vectors; tie, sign and range behaviour is data dependent.",
  [I+"intrinsics.hpp"],[("Vector4f/Vector4i",I+"intrinsics.hpp"),("cast_vector4f_to_vector4i",I+"intrinsics.hpp")])

p("P22","PCL conversion maps every field and cloud attribute faithfully",
  "ConvertToEncodingInfo maps every PCL field to the same name, offset and type with the resolution on FLOAT32 fields only, and encoding a PCLPointCloud2 and decoding it back restores dimensions, point_step, row_step, fields and data (FLOAT32 fields as the codec quantises them, everything else exactly). "
  "A cloud decoded into PointCloud<PointXYZ> or PointCloud<PointXYZI> has the values of the fields with the same name in every point, whatever the layout of the encoded cloud; a field of another type is rejected. "
  "ReadEncodingInfoFromPCD maps each FIELDS/SIZE/TYPE triple of a PCD header, with comments, blank lines, extra spaces and CR line ends, to the corresponding FieldType, and the file overload of PCLPointCloudEncode uses it for the types PCL does not report; isSameEncodingInfo is true exactly for equal dimensions, point step and field names, offsets and types. "
  "Headers with arbitrary dimensions are rejected with a std::exception or give a cloud of exactly the declared size.",
  ["inputs","configurations"],"all PCL datatypes and attribute values; all SIZE/TYPE pairs; all layouts up to the bound",
  "Tests use a single file and one point type.",
  [L+"src/pcl_conversion.cpp",I+"pcl_conversion.hpp"],[("ConvertToEncodingInfo",L+"src/pcl_conversion.cpp"),("PCLPointCloudDecode",L+"src/pcl_conversion.cpp"),("ReadEncodingInfoFromPCD",L+"src/pcl_conversion.cpp")])

p("P23","MCAP conversion preserves topics, timestamps and message order",
  "Converting an MCAP bag with McapConverter to compressed clouds, back, or both in turn keeps every message that is not a cloud byte-identical, every message's channel, sequence number, log and publish time, the order of the messages, every channel's topic, encoding and metadata, the schemas that are not clouds and the metadata records, and converts exactly the PointCloud2 (encode) or CompressedPointCloud2 (decode) channels. "
  "Converted clouds carry the type and definition of their new schema, are readable by the library and restore the cloud with the resolution asked for (globally or by a profile). "
  "Inputs that cannot be read, outputs that cannot be written and cloud messages that are cut short end in a std::exception instead of a wrong file reported as success, and the same converter object can be used again, also for another file.",
  ["inputs","histories"],"all bags within the bound: schemas, channels, messages, metadata, options and contents",
  "Depends on whole-file histories; the converter is not built by the tests at all.",
  [L+"tools/src/mcap_converter.cpp",L+"tools/include/mcap_converter.hpp"],
  [("McapConverter::encodePointClouds",L+"tools/src/mcap_converter.cpp"),("McapConverter::decodePointClouds",L+"tools/src/mcap_converter.cpp"),("McapConverter::open",L+"tools/src/mcap_converter.cpp"),("McapConverter::addProfile",L+"tools/src/mcap_converter.cpp")])

p("P24","Front-end decoders agree with the C++ library",
  "The Python, web and Foxglove front-ends decode a compressed message to the same fields, dimensions and bytes as the C++ library and surface decoding failures as errors.",
  ["inputs","configurations"],"all messages","Spread over three languages around the WASM module.",
  ["cloudini_py","cloudini_web","cloudini_foxglove"],[("front-end decoders","cloudini_py")])

p("P25","ROS 2 nodes and point_cloud_transport plugin deliver every cloud once",
  "Each little-endian cloud (fields of count 1, rows not padded) that goes through the point_cloud_transport plugin, the topic converter node (either direction) or CloudiniSubscriberPCL is delivered exactly once and in order with its stamp, frame, dimensions, point_step, fields, is_dense and content (FLOAT32 fields within the configured resolution, everything else exactly), empty clouds included, whatever was delivered before; the converter publishes only if somebody subscribes and never changes the message it received. "
  "CloudiniSubscriber::decodeTyped accepts a message exactly if its dimensions, point_step and fields describe the cloud in its data, and rejects anything else with a std::exception, without reading or writing outside its buffers; "
  "CloudiniSubscriberPCL calls back once per valid message and survives damaged ones; a cloud the user keeps is never changed by later messages, may outlive the subscriber, and may be used and released by another thread while later messages are delivered, without a data race; "
  "the subscription of the converter is reliable (transient local) exactly if every publisher is.",
  ["inputs","histories","configurations","schedules"],"all clouds, parameters, message sequences, schedules of the consumer threads and QoS combinations within the bound",
  "The tests need a ROS installation, are not part of the build, and send a few fixed clouds.",
  ["cloudini_ros/src/cloudini_publisher_plugin.cpp","cloudini_ros/src/cloudini_subscriber_plugin.cpp","cloudini_ros/src/topic_converter.cpp","cloudini_ros/src/cloudini_subscriber_pcl.cpp","cloudini_ros/src/conversion_utils.cpp"],
  [("CloudiniPublisher::encodeTyped","cloudini_ros/src/cloudini_publisher_plugin.cpp"),("CloudiniSubscriber::decodeTyped","cloudini_ros/src/cloudini_subscriber_plugin.cpp"),("CloudiniPointcloudConverter","cloudini_ros/src/topic_converter.cpp"),("CloudiniSubscriberPCL","cloudini_ros/src/cloudini_subscriber_pcl.cpp"),("SerializeCompressedPointCloud2","cloudini_ros/src/conversion_utils.cpp")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
