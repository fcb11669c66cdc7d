#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json.
import json
S="supported images (8-bit, baseline or progressive Huffman, grayscale or three components numbered 1,2,3 with luminance sampling 1x1, 2x1, 1x2 or 2x2 and chrominance 1x1)"
P=[]
def p(id,title,st,over,q,why,files,mech,obs,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
p("C01","Baseline images decode to the right pixels",
 "For every supported baseline JPEG (8-bit, grayscale or three components numbered 1,2,3, luminance sampling 1x1/2x1/1x2/2x2, chrominance 1x1, any size, any legal 8-bit quantisation tables) decoding succeeds and every sample is within 1 of the clamped exact inverse DCT of its block (equal to it where that is an integer because only the DC and half-frequency terms occur), with no systematic rounding bias. Missing chrominance samples are interpolated as (3*nearest+next+2)/4 between neighbours (vertically within each group of eight component rows), and RGB is within 2 of BT.601. This holds for every pixel, including the last rows and columns of images whose size is no multiple of the MCU.",
 ["inputs","configurations"],"all supported baseline files x output colorspaces x use_unsafe x thread counts",
 "The suite decodes a few sample pictures and compares some against a stored decode; no test compares pixels with the standard's arithmetic over sizes, samplings, tables and coefficient values.",
 ["src/mcu.rs","src/bitstream.rs","src/huffman.rs","src/idct.rs","src/idct/scalar.rs","src/idct/avx2.rs","src/upsampler.rs","src/upsampler/scalar.rs","src/upsampler/sse.rs","src/color_convert.rs","src/worker.rs","src/components.rs"],
 [("entropy decoding of an MCU row","src/mcu.rs decode_mcu_ycbcr_baseline"),("block decoding","src/bitstream.rs decode_mcu_block"),("IDCT","src/idct/*"),("up-sampling","src/upsampler/*"),("post processing per MCU row","src/worker.rs")],
 ["pixels returned by decode_buffer"])
p("C02","A progressive file decodes like the baseline file of the same image",
 "If a baseline and a progressive JPEG carry the same quantised coefficients, both decode and give bit-identical pixels in every output colorspace, whatever legal scan script is used (spectral selection, successive approximation, interleaved or separate DC scans, any grouping of EOB runs, restart intervals). Where a script leaves out bands or refinement scans, the pixels are those of the baseline file of the coefficients it does carry. A progressive image is reported as progressive.",
 ["inputs","configurations"],"all coefficient sets x all legal scan scripts x output colorspaces",
 "Tests decode three progressive sample pictures; the space of scan scripts and EOB/refinement histories is never varied.",
 ["src/mcu_prog.rs","src/bitstream.rs","src/headers.rs"],
 [("scan loop and finish","src/mcu_prog.rs decode_mcu_ycbcr_progressive"),("DC/AC first and refinement decoding","src/bitstream.rs decode_prog_dc_first .. decode_mcu_ac_refine")],
 ["pixels and info() of the progressive file against those of the baseline file"],
 state=[("eob_run","blocks still covered by an end-of-band run","src/bitstream.rs")])
p("C03","Restart intervals never change the picture",
 "Encoding the same coefficients with any restart interval (1 to 65535, changed between progressive scans, or explicitly zero), in baseline or progressive mode, yields a file that decodes to exactly the pixels of the file without restart markers.",
 ["inputs"],"all images x all restart intervals x all positions of the restart markers",
 "One sample picture has restart markers; intervals that do not divide rows, exceed the image or end inside EOB runs are not tested.",
 ["src/mcu.rs","src/mcu_prog.rs","src/decoder.rs","src/bitstream.rs"],
 [("restart handling","src/mcu.rs and src/mcu_prog.rs handle_rst"),("DRI parsing","src/decoder.rs parse_marker_inner")],["pixels"],
 state=[("todo","MCUs until the next restart marker","src/decoder.rs")])
p("C04","Any legal Huffman coding of the same coefficients gives the same pixels",
 "The choice of Huffman tables (any complete or incomplete legal code with lengths 1 to 16), of table destinations 0-3, of how tables are grouped into segments, redefined, shared between components and scans or placed before or after the frame header never changes the decoded pixels: all such encodings of one image decode and agree.",
 ["inputs"],"all coefficient sets x all legal Huffman tables and placements",
 "Samples use the tables of common encoders; long codes, rare lengths and table redefinition are not reached.",
 ["src/huffman.rs","src/bitstream.rs","src/headers.rs"],
 [("table derivation and look-ups","src/huffman.rs HuffmanTable"),("fast and slow decoding paths","src/bitstream.rs"),("DHT parsing","src/headers.rs parse_huffman")],["pixels"])
p("C05","Every instruction set and build decodes identically",
 "The same file with the same options gives the same success or failure and bit-identical pixels (the padding byte of RGBX aside) whether the AVX2, the SSE or the portable code is used, i.e. with or without the x86 feature, with use_unsafe on or off, and on CPUs with or without AVX2.",
 ["inputs","configurations"],"all files (also with coefficients no encoder writes) x {AVX2, SSE4.1, scalar} x use_unsafe x output colorspace",
 "Unit tests compare a handful of vectors for single kernels; whole decodes are never compared between code paths, and CI machines select one path.",
 ["src/idct/avx2.rs","src/idct/scalar.rs","src/color_convert.rs","src/color_convert/avx.rs","src/color_convert/sse.rs","src/color_convert/scalar.rs","src/upsampler/sse.rs","src/upsampler/avx2.rs","src/upsampler/scalar.rs"],
 [("run-time selection","choose_idct_func, choose_ycbcr_to_rgb_convert_func, choose_*_samp_function")],["pixels from three builds"],"cfg zune_verif_no_avx2 makes the crate behave as on a CPU without AVX2")
p("C06","Decoding is deterministic, whatever the threads and the memory",
 "For every input, valid or damaged, and fixed other options, the result (pixels, image information or the error) is the same for every number of worker threads, on every repetition, while other decoders run concurrently in the same process, and whatever bytes freshly allocated memory happens to hold (the padding byte of RGBX is unspecified).",
 ["inputs","schedules","configurations"],"all inputs x thread counts x schedules x contents of fresh memory",
 "Tests run with the default thread count once; races or reads of uninitialised memory show only under particular schedules or allocator states.",
 ["src/mcu.rs","src/mcu_prog.rs","src/worker.rs"],
 [("scoped thread pool, one job per MCU row writing its own chunk","src/mcu.rs, src/mcu_prog.rs")],["pixels or error"])
p("C07","No input makes the decoder panic, abort or run away",
 "For every byte string and every option setting, reading headers and decoding return Ok or an error with a message in bounded time: they never panic (overflow-checked builds included), abort, overflow the stack or loop forever. When decoding returns Ok, the image information is available and the pixels have exactly width x height x channels bytes.",
 ["inputs","configurations"],"all byte strings x options, release and overflow-checked builds, with and without SIMD",
 "There is a fuzz target but no fuzzing in the tests; the suite feeds a handful of broken files.",
 ["src/decoder.rs","src/headers.rs","src/huffman.rs","src/bitstream.rs","src/mcu.rs","src/mcu_prog.rs","src/marker.rs","src/misc.rs"],
 [("length and range validation","src/headers.rs"),("marker loop","src/decoder.rs decode_headers_internal"),("bit reader at end of data","src/bitstream.rs refill")],["return value, panic, process exit, CPU time"])
p("C08","The output has the size, colour and metadata the file declares",
 "After decoding, or only reading the headers of, any supported image of any size from 1x1 to 65535 per side, the reported width, height, component count, sample precision and coding process are those of the frame header and the reported output colorspace is the requested one (grayscale for one-component images) and says its number of channels. Decoded pixels have exactly width x height x (1, 3 or 4) bytes, and no image information is reported before an image was read.",
 ["inputs","configurations"],"all sizes x samplings x colorspaces, and damaged files that still decode",
 "Tests look at a few sizes; sizes that are no multiple of the MCU and the smallest sizes per sampling are not covered.",
 ["src/decoder.rs","src/headers.rs","src/mcu.rs","src/mcu_prog.rs"],
 [("frame header parsing","src/headers.rs parse_start_of_frame"),("output allocation and truncation","src/mcu.rs, src/mcu_prog.rs")],["info(), width(), height(), get_output_colorspace(), length of the pixels"])
p("C09","Size and scan limits are enforced exactly",
 "An image whose width or height exceeds the configured maximum (16384 by default) is refused with an error by both header reading and decoding before memory for pixels is allocated, and one at or below both maxima is not refused for its size. A progressive image with more scans than the configured maximum (64 by default; values of at least 1) is refused, one with at most that many decodes. No input ever yields pixels beyond the limits.",
 ["inputs","configurations"],"all limits x image sizes x scan counts, set through options or on the decoder, and damaged files",
 "No test exercises limits at their boundary.",
 ["src/headers.rs","src/mcu_prog.rs","src/options.rs","src/decoder.rs"],
 [("dimension check","src/headers.rs parse_start_of_frame"),("scan counter","src/mcu_prog.rs")],["return value, peak heap use"])
p("C10","Output colorspaces are consistent views of one image",
 "For every supported three-component image: GRAYSCALE output is exactly the Y channel of YCbCr output; RGB is within 2 of BT.601 (full range) applied to the YCbCr output, and exactly neutral for neutral chrominance; RGBA and RGBX carry exactly the RGB colours, RGBA with alpha 255. One-component images give the same single-channel pixels and report GRAYSCALE whatever colorspace is requested, and requesting CMYK or YCCK of a three-component image is an error.",
 ["inputs","configurations"],"all images x pairs of output colorspaces; all (Y,Cb,Cr) triples",
 "Tests convert a few constant vectors; image widths that leave partial SIMD groups and the relations between colorspaces are not tested.",
 ["src/color_convert.rs","src/color_convert/avx.rs","src/color_convert/sse.rs","src/color_convert/scalar.rs","src/worker.rs"],
 [("conversion kernels","src/color_convert/*"),("row handling","src/worker.rs")],["pixels in the five output colorspaces"])
p("C11","A decoder carries nothing over from earlier images",
 "Whatever sequence of decodes (succeeding or failing), header reads, file decodes and option setters was applied to a decoder, the next decode or header read gives exactly the result, image information and output colorspace that a new decoder with the same options would give.",
 ["histories","inputs"],"all histories of operations on one decoder",
 "Tests use each decoder once or twice on good files; tables, restart state, flags or limits leaking from one image to the next need a history.",
 ["src/decoder.rs","src/mcu.rs","src/mcu_prog.rs"],
 [("reset on entry","src/decoder.rs decode_buffer/read_headers")],["results of a used decoder against those of a fresh one"],
 state=[("qt_tables, dc/ac_huffman_tables, components, restart_interval, todo, info","parse state of the current image","src/decoder.rs Decoder")])
p("C12","Headers, buffers and files tell the same story",
 "Reading headers succeeds whenever decoding does and reports the same image information, needs only the bytes up to the first scan and no memory for pixels, and does not influence a following decode. Decoding a file from disk gives the same result as decoding its bytes, leaves the file unchanged, and a file that cannot be read is an error, not a panic.",
 ["inputs","histories"],"all inputs, valid or damaged, x the three entry points",
 "Tests call one entry point per picture.",
 ["src/decoder.rs"],[("three entry points over one header parser","src/decoder.rs decode_file, decode_buffer, read_headers")],["results and info() of the three entry points"])
p("C13","Metadata and segment layout do not affect decoding",
 "Inserting application and comment segments of any content and size (0 to 65533 bytes, including marker-like bytes and embedded thumbnails) before or between scans, fill bytes before markers, and any legal ordering or grouping of table segments (quantisation tables before the frame header) leaves pixels and image information unchanged, in strict mode too.",
 ["inputs"],"all images x all placements and contents of APPn/COM segments, fill bytes and segment orders",
 "Samples carry the metadata of a few cameras; content that imitates markers or sits between scans is not tested.",
 ["src/decoder.rs","src/marker.rs","src/headers.rs","src/mcu_prog.rs"],
 [("marker loop and skipping","src/decoder.rs decode_headers_internal, parse_marker_inner"),("markers between scans","src/mcu_prog.rs")],["pixels and info()"])
p("C14","Strict mode only adds rejections",
 "A well-formed image decodes identically in strict and lenient mode, and whatever strict mode accepts, lenient mode decodes to the same result. Strict mode refuses three or more stray bytes between header segments and grayscale images with sampling factors above 1x1; lenient mode decodes both to the pixels of the clean file.",
 ["inputs","configurations"],"all well-formed, mildly malformed and damaged files x both modes",
 "Tests do not use strict mode on varied inputs.",
 ["src/decoder.rs","src/mcu.rs","src/mcu_prog.rs","src/options.rs"],
 [("stray byte counter","src/decoder.rs decode_headers_internal"),("sampling check","src/mcu.rs, src/mcu_prog.rs")],["result in both modes"])
p("C15","Truncated and over-long files are handled sanely",
 "If a baseline file ends anywhere inside its entropy-coded data, decoding either fails or returns pixels of full size in which all MCU rows complete before the cut are exactly those of the whole file; a missing end marker alone changes nothing for baseline files, and bytes after the end marker never do. A file cut inside its headers is an error for both header reading and decoding.",
 ["inputs","fault_sequences"],"all supported files x all cut positions x all trailing bytes",
 "Tests contain no systematically cut files.",
 ["src/bitstream.rs","src/mcu.rs","src/decoder.rs"],
 [("end of data in the bit reader","src/bitstream.rs refill"),("premature end handling","src/mcu.rs")],["pixels or error"])
p("C16","Invalid and unsupported files are errors",
 "Files that are not JPEG or use what is not supported are refused with an error: wrong magic number, empty input, other coding processes, precision other than 8, zero width or height, component counts other than 1 or 3, unknown, repeated or out-of-range component ids, unsupported sampling factors, quantisation or Huffman tables that are missing, undefined, over-subscribed or of inconsistent length, DC tables with symbols above 15, progressive scans mixing DC with AC or AC of several components, bad scan headers (spectral selection and successive approximation of progressive scans included), segment lengths below 2, a frame header that is missing or repeated, or entropy data matching no code. Reading headers reports such faults of the magic number, the frame header (sampling factors aside), table segments and the scan header as well.",
 ["inputs"],"all supported files x forty-six classes of invalidation",
 "The suite checks a few specific error cases in headers.",
 ["src/headers.rs","src/huffman.rs","src/decoder.rs","src/components.rs","src/mcu.rs","src/mcu_prog.rs"],
 [("validation","src/headers.rs"),("code validation","src/huffman.rs make_derived_table"),("table presence checks","src/mcu.rs check_tables")],["return value"])
p("C17","Options and setters mean what they say, in any order",
 "After any sequence of option setters every getter returns the last value set, or the default: RGB, unsafe code allowed, 4 threads, 16384 x 16384, 64 scans, not strict. Setting options through the options object or through the decoder's own methods, in any order, has the same effect on decoding, and setting zero threads or a count above 32 bits is an error that changes nothing.",
 ["configurations","histories"],"all sequences of setters",
 "Tests set single options once.",
 ["src/options.rs","src/decoder.rs"],[("builder","src/options.rs"),("setters","src/decoder.rs")],["getters; result of a decode"])
p("C18","Memory-safe on every input",
 "On every input, valid, damaged or absurd, decoding and header reading never read or write outside allocated memory, use freed memory, or rely on alignment the allocator does not promise, including in the SIMD code with use_unsafe on.",
 ["inputs","configurations"],"all inputs x colorspaces x sizes, through the unsafe code",
 "Tests run without sanitizers, where small over-reads and misaligned accesses pass silently.",
 ["src/idct/avx2.rs","src/color_convert/avx.rs","src/color_convert/sse.rs","src/upsampler/sse.rs","src/upsampler/avx2.rs","src/bitstream.rs"],
 [("bounds of unsafe loads and stores","src/idct/avx2.rs, src/color_convert/*, src/upsampler/*")],["AddressSanitizer; crash on an allocator giving minimal alignment"])
p("C19","Memory use is linear in the image and the input",
 "The heap a decode needs at any time is bounded by 32 bytes per pixel of the image (sides rounded up to the next multiple of 32 plus 32) plus four times the input size plus 400 kB, for valid and damaged inputs alike, and neither memory nor worker threads accumulate when a decoder is used repeatedly.",
 ["inputs","histories"],"all inputs; repeated use",
 "No test observes memory.",
 ["src/mcu.rs","src/mcu_prog.rs","src/decoder.rs","src/headers.rs"],
 [("one MCU row of coefficients for baseline, one plane for progressive","src/mcu.rs, src/mcu_prog.rs")],["peak and live bytes in the global allocator, threads of the process"])
p("C20","Decoding time is proportional to the input and the image",
 "The CPU time of decoding, decoding a file and reading headers grows at most linearly with each of: the number of segments of any kind (comments, application data, tables, restart definitions, unknown ones), stray, fill and trailing bytes, surplus bytes or markers in a scan, rows, columns, restart intervals and scans. No legal or damaged input makes the work grow faster than its own size and that of its image.",
 ["inputs"],"all growing families of inputs",
 "No test observes time; behaviour that is quadratic in something rare does not show on ordinary files.",
 ["src/decoder.rs","src/headers.rs","src/mcu.rs","src/mcu_prog.rs","src/bitstream.rs"],
 [("marker loop","src/decoder.rs decode_headers_internal"),("scan loop and restart handling","src/mcu_prog.rs, src/mcu.rs handle_rst")],["CPU time of the process"])
p("C21","An error says what is wrong",
 "When a file that is otherwise valid has one fault, the error of decode_buffer, decode_file and read_headers names it: the two bytes found for a wrong magic number (IllegalMagicBytes), ZeroError for a width or height of zero, Unsupported with the right scheme for frames of extended sequential, lossless or arithmetic coding, HuffmanDecode for faulty Huffman tables, DqtError for faulty, missing or 16-bit quantisation tables, SofError for a wrong precision, component count or a second frame header, SosError for a faulty scan header. An image beyond a size limit gives an error whose message contains the offending side and the limit. Every error has a non-empty Debug and Display text.",
 ["inputs"],"all supported files x classes of single faults",
 "Tests look at one or two errors; nothing relates the fault in a file to the kind of error reported.",
 ["src/errors.rs","src/headers.rs","src/huffman.rs","src/decoder.rs","src/marker.rs"],
 [("error kinds","src/errors.rs DecodeErrors, UnsupportedSchemes"),("where they are made","src/headers.rs, src/huffman.rs, src/decoder.rs parse_marker_inner")],["error values"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
tech={"C01":"property-based testing: generated coefficients encoded to JPEG, decoded, compared with an interval reference model",
"C02":"property-based differential testing: random legal scan scripts against baseline of the same coefficients",
"C03":"metamorphic property-based testing over restart intervals",
"C04":"metamorphic property-based testing over Huffman tables",
"C05":"differential property-based testing across builds and instruction sets",
"C06":"metamorphic testing over threads, repetitions, concurrency and fresh-memory contents",
"C07":"structure-aware mutation fuzzing in separate processes, release and overflow-checked builds",
"C08":"property-based testing against the generated frame header, all small sizes enumerated",
"C09":"property-based boundary testing with an accounting allocator",
"C10":"metamorphic relations between colorspaces on generated images; enumerated colours",
"C11":"stateful model-based testing: histories against a fresh decoder",
"C12":"differential property-based testing of the entry points",
"C13":"metamorphic property-based testing over metadata and layout",
"C14":"metamorphic property-based testing of strict against lenient mode",
"C15":"fault injection by generated truncation and trailing bytes, prefix oracle",
"C16":"property-based negative testing: generated classes of invalid files",
"C17":"model-based testing of setters and getters",
"C18":"fuzzing and property-based testing under AddressSanitizer and a minimally aligning allocator",
"C19":"property-based testing with an accounting allocator",
"C20":"metamorphic property-based testing of CPU time over growing inputs",
"C21":"property-based negative testing: the kind of error against the fault planted in a generated file"}
note="Exploration by seeded generated cases, no proof of absence. Trusts the harness' own JPEG encoder and reference model (calibrated against each other), and the toolchain. "
extra={"C05":"The SSE build relies on the cfg hook standing for a CPU without AVX2.","C06":"Thread schedules are whatever the OS produced.","C20":"Measured CPU time, so only growth well above linear is reported.","C18":"Unsafe accesses inside one allocation are not seen by AddressSanitizer; the differential check C05/C06 covers their effect on pixels."}
M={"version":1,"setup_cmd":"./build.sh default scalar sse checked asan asansse debug debugsse",
"hooks":{"guard":"zune_verif_no_avx2","enable":"RUSTFLAGS='--cfg zune_verif_no_avx2' (build.sh, variants sse, asansse, debugsse)","source_commits":["44ab478"]},
"checks":[{"property":x["id"],"quick_cmd":f"./check.sh {x['id']} quick","thorough_cmd":f"./check.sh {x['id']} thorough","evidence_file":f"evidence/{x['id']}.json","technique":tech[x["id"]],"level":"exploration","level_note":note+extra.get(x["id"],"")} for x in P],
"not_applicable":[]}
open('/verif/MANIFEST.json','w').write(json.dumps(M,indent=1)+'\n')
