"""Writes properties.jsonl (kept as code because JSON lines are hard to edit)."""
import json
import os

R = "lib/sia/rust/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[R + f for f in files],
                               state=[dict(name=n, meaning=m, where=R + w) for n, m, w in state],
                               mechanism=[dict(name=n, where=R + w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


p("C01", "A channel is authentic only when its own extracted signature verifies",
  "Authenticating a channel answers yes only if an Ed25519 verification under the system's public key accepts, for the "
  "message rebuilt from features of that very channel and the perturbation bits extracted from it, the signature "
  "extracted from that same channel. Every other outcome, including every error on the way, is never reported as "
  "authentic, and neither the verdict nor the verified message or signature can come from anywhere else.",
  ["inputs"], "every channel image, every embedding depth, step, number of features and levels, every extracted payload",
  "The only test of the verdict is one positive round trip on one image; nothing ever presents a tampered image, a wrong "
  "signature, a wrong key or an error path, and no finite set of forgeries would settle soundness.",
  ["watermarking/src/process.rs", "signature/src/lib.rs", "signature/src/ecdsa.rs"],
  [("verdict is the verification result", "watermarking/src/process.rs (authenticate_channel)"),
   ("verification through the Ed25519 verifier", "signature/src/lib.rs (verify), signature/src/ecdsa.rs")],
  ["return value of channel authentication", "return value of signature verification"])

p("C02", "Watermarking and authentication derive and process the same things",
  "For every channel and every parameter set, the message that is signed while watermarking and the message that is "
  "verified while authenticating are built by the same pipeline (same preprocessing of the channel, same feature family, "
  "feature count, quantisation step and byte serialisation), and embedding and extraction work on the same pixel layout "
  "with the same depth and number of transform levels, each taken from the caller's corresponding argument. The embedded "
  "payload carries exactly that signature and those perturbation bits, signed with the key pair whose public half is used "
  "to verify.",
  ["inputs", "configurations"], "every channel and every combination of depth, quantisation step, feature count and levels",
  "One image and one parameter set are tried (step 1, depth 30, 11 features, 3 levels), so swapping, hard-coding or "
  "dropping a parameter on one side goes unnoticed when the tested values agree or the effect is small.",
  ["watermarking/src/process.rs", "image-features/src/lib.rs", "zernike/src/lib.rs", "zernike/src/calc.rs"],
  [("mirrored pipelines", "watermarking/src/process.rs (watermark_channel, authenticate_channel)"),
   ("feature computation", "image-features/src/lib.rs (calculate_features)")],
  ["arguments reaching signing and verification", "arguments reaching embedding and extraction"])

p("C03", "The private key never leaves the signer",
  "The private signing key is used for nothing but signing: it never reaches standard output or logs, error or panic "
  "messages, the watermark payload, the output image, files, or any public interface of the libraries, the command line "
  "tool or the web module. A freshly generated private key is handed only to the caller who asked for it.",
  ["inputs", "histories"], "every execution path and every input",
  "Absence of a flow cannot be sampled: tests look at results, not at what was printed or stored on the way.",
  ["watermarking/src/process.rs", "signature/src/lib.rs", "signature/src/keypair.rs", "web/src/lib.rs", "cli/src/main.rs"],
  [("key is a private constant of the pipeline", "watermarking/src/process.rs"),
   ("key is decoded and concatenated only for signing", "signature/src/lib.rs (sign)")],
  ["stdout", "watermark payload", "public API surface"])

p("C04", "Watermarking and authentication are deterministic",
  "The results of the libraries (features, payload, signature, watermarked image, extracted data, verdict) are a function "
  "of their arguments alone: no clock, random source, environment, process or thread state, hash-iteration order, memory "
  "address or state left over from an earlier call influences them. Only generating a new key pair draws randomness.",
  ["inputs", "histories", "configurations"], "every call history and every environment",
  "Tests run each function once in one process; a dependence on time, environment, iteration order or earlier calls only "
  "shows across runs.",
  ["watermarking/src/lib.rs", "watermarking/src/process.rs", "embedding/src/lib.rs", "encoding/src/lib.rs",
   "three-bit-quantization/src/lib.rs", "zernike/src/calc.rs", "signature/src/lib.rs", "utils/src/lib.rs"],
  [("pure functions over their arguments", "all library crates"), ("key generation from the OS random source only",
                                                                     "signature/src/keypair.rs")],
  ["results of every library function"])

p("C05", "Libraries touch nothing outside: no files, network, processes, environment",
  "The watermarking libraries and the web module have no effect on the outside world other than diagnostic text on standard "
  "output: they open no files, use no network, start or end no processes, read no environment variables or standard input "
  "and start no threads. Only the command line tool reads and writes files, and it uses no network and starts no processes.",
  ["inputs", "histories"], "every execution path",
  "A test cannot observe an effect that did not happen on the sampled inputs; only the code that can run bounds it.",
  ["watermarking/src/lib.rs", "watermarking/src/process.rs", "embedding/src/lib.rs", "encoding/src/lib.rs",
   "signature/src/lib.rs", "image-features/src/lib.rs", "zernike/src/lib.rs", "utils/src/lib.rs", "web/src/lib.rs",
   "cli/src/main.rs"],
  [("file access only in the tool", "cli/src/main.rs")], ["system effects of the libraries"])

p("C06", "No hand-written unsafe code and no mutable global state",
  "The project's own code stays inside the checked part of the language: it contains no hand-written unsafe block, unsafe "
  "function, unsafe trait implementation, foreign function or unchecked conversion, and no mutable global variable. Memory "
  "safety and freedom from data races therefore hold for every input and any number of concurrent calls.",
  ["inputs", "schedules", "programs"], "every input, every thread interleaving, every caller",
  "Undefined behaviour and data races are not reliably visible in any test run.",
  ["watermarking/src/lib.rs", "embedding/src/lib.rs", "encoding/src/lib.rs", "three-bit-quantization/src/lib.rs",
   "signature/src/lib.rs", "utils/src/lib.rs", "zernike/src/lib.rs", "web/src/lib.rs", "cli/src/main.rs"],
  [("safe code only", "all crates")], ["source of every crate"])

p("C07", "Watermarking keeps the image's size, layout and transparency",
  "A watermarked image has the same width and height as the original and the same colour layout class (grey, grey with "
  "transparency, colour, colour with transparency, at 8 bits per sample). If the original has a transparency channel, every "
  "pixel's transparency value is copied to the same pixel unchanged.",
  ["inputs"], "every image size and colour type",
  "No test calls the whole-image entry point at all; only one square grey channel is watermarked.",
  ["watermarking/src/lib.rs"],
  [("channel split and merge", "watermarking/src/lib.rs (watermark)")],
  ["width, height, colour type and alpha samples of the result"])

p("C08", "Each colour channel is watermarked from itself, in place",
  "Every colour sample of a watermarked image at a pixel is the sample, at the same pixel, of the watermarked version of "
  "the same channel of the original (a grey image has one such channel), and every colour channel present is watermarked. "
  "All channels are processed with the same embedding depth, quantisation step and feature count, exactly as given by the "
  "caller, and with the same number of transform levels.",
  ["inputs", "configurations"], "every image, every pixel and every parameter set",
  "No test exercises the multi-channel path, so mixing up channels, coordinates or parameters is invisible.",
  ["watermarking/src/lib.rs"],
  [("channel split, per-channel watermarking, merge", "watermarking/src/lib.rs (watermark)")],
  ["colour samples of the result"])

p("C09", "Every length header holds the true length or the operation refuses",
  "Whenever data are stored behind a fixed-width length field (one-byte fields of the watermark container, two-byte fields "
  "of the data container and of the encoded stream), the field holds the true length. Data whose length does not fit the "
  "field are refused instead of being stored with a wrapped length, and every length that does fit is accepted.",
  ["inputs"], "every payload length, including the largest that fits and the first that does not",
  "Tests store payloads of a few bytes up to 4 KiB; the boundary lengths 255/256 and 65535/65536 are never tried.",
  ["watermarking/src/watermark.rs", "embedding/src/io/data.rs", "encoding/src/lib.rs"],
  [("refusal before narrowing", "watermarking/src/watermark.rs (serialize)"),
   ("refusal before narrowing", "embedding/src/io/data.rs (serialize)"), ("refusal before narrowing", "encoding/src/lib.rs (encode)")],
  ["serialised bytes, refusal"])

p("C10", "Data that do not fit are refused before the image is changed",
  "Writing data into a coefficient domain is refused, before the first coefficient is modified, exactly when the data have "
  "more bytes than the domain's capacity. That capacity is one bit per coefficient rounded down to whole bytes, so an "
  "accepted write always fits, and embedding and extraction rely on one and the same capacity of their domain.",
  ["inputs"], "every domain shape, including non-square ones and cell counts that are not a multiple of 8, and every data length",
  "Three square sizes are checked for the capacity formula and no test tries to write too much data or a partial byte.",
  ["embedding/src/io/steganography.rs", "embedding/src/lib.rs"],
  [("capacity check", "embedding/src/io/steganography.rs (write, get_capacity)"), ("shared capacity", "embedding/src/lib.rs")],
  ["refusal and state of the domain"])

p("C11", "Encoded data always decode to the same bytes",
  "For every capacity and every payload that encoding accepts, decoding the encoded stream with the same capacity, also when "
  "followed by arbitrary trailing bytes, gives the original payload, with or without an error correcting code. Both "
  "directions choose the same code for a capacity, cut and pad the stream by that code's own parameters, and a codeword of "
  "the chosen code always fits into the capacity it was chosen for.",
  ["inputs", "configurations"], "every capacity (with and without a code), every payload up to 65535 bytes",
  "Three capacities that divide evenly are tested with a handful of payloads and no trailing bytes; capacities without a code "
  "and trailing data are never tried.",
  ["encoding/src/lib.rs"],
  [("code table shared by both directions", "encoding/src/lib.rs (get_code_by_codeword_length)"),
   ("length header, chunking, padding", "encoding/src/lib.rs (encode, decode)")],
  ["decoded bytes"])

p("C12", "Reader and writer visit the same cells, each once and inside the domain",
  "For a domain of any shape, the n-th bit is written to and read from the same coefficient. Different bits use different "
  "coefficients, no bit within the capacity falls outside the domain, and both sides start at the first coefficient and "
  "advance by exactly one bit at a time.",
  ["inputs"], "every domain shape (also non-square) and every bit position",
  "Only square 4x4 and 32x32 domains are tested, where a row/column mix-up or a wrong stride cancels out.",
  ["embedding/src/io/steganography.rs"],
  [("cell addressing", "embedding/src/io/steganography.rs (get_column_and_row)"),
   ("position counter", "embedding/src/io/steganography.rs (write_bit, read_bit)")],
  ["coefficients read and written"], [("offset", "position of the next bit", "embedding/src/io/steganography.rs")])

p("C13", "A written bit is read back as written, and bytes keep their bit order",
  "A bit written into a coefficient at some embedding depth is read back with the same value at the same depth, for every "
  "prior coefficient value and every positive depth, with a margin of a quarter of the depth to either side. Bytes are cut "
  "into bits and reassembled in the same bit order, so every written byte sequence reads back as the leading bytes.",
  ["inputs"], "every coefficient value, every positive depth, every byte",
  "Two small domains with one depth each are tested; byte values above 127, negative coefficients and other depths are not.",
  ["embedding/src/io/steganography.rs", "embedding/src/io/mod.rs"],
  [("quantisation-index modulation", "embedding/src/io/steganography.rs (write_bit, read_bit)"),
   ("bit order", "embedding/src/io/steganography.rs (write, read_next)")],
  ["bits and bytes read back"])

p("C14", "Pixels are rounded and saturated, never wrapped",
  "After embedding, each pixel is the inverse-transformed value rounded to the nearest integer and limited to 0..255: values "
  "below 0 become 0 and values above 255 become 255, never a wrapped-around value. The only narrowing of sample values on "
  "the way from coefficients to the output image is this saturating one, and input samples are used at their exact value.",
  ["inputs"], "every image, in particular near-black and near-white ones, and every depth",
  "No test image drives a value out of range, so wrapping and saturating are indistinguishable in the tests.",
  ["embedding/src/lib.rs"], [("saturating conversion", "embedding/src/lib.rs (embed)")], ["samples of the embedded image"])

p("C15", "Quantised features are restored from a drift of one step",
  "If a feature's original bits say its original two-bit class is one above the class now computed, the restored feature is "
  "shifted up by one quantisation step, unless the original was in the upper half of its cell and the present one in the "
  "lower half; one below, shifted down by one step, unless the original was in the lower half and the present one in the "
  "upper half; equal, it is kept. The restored integer is the quantised (floored) value of that shifted feature.",
  ["inputs"], "every feature value, every drift and all 64 combinations of original and present bits",
  "The tests restore a few dozen hand-picked values with step 1 and never enumerate the combinations of class, half and "
  "direction, nor wrap-around between classes 3 and 0.",
  ["three-bit-quantization/src/lib.rs"],
  [("decision table", "three-bit-quantization/src/lib.rs (three_bit_dequantization)")], ["restored integers"])

p("C16", "Three perturbation bits per feature, from that feature alone, in order",
  "Quantisation yields one integer per feature (the floor of feature over step) and exactly three bits per feature, in "
  "feature order: two bits, high bit first, encoding the quantised value minus one modulo four, and one bit telling whether "
  "the feature is in the upper half of its cell. Restoring uses, for the i-th feature, exactly the i-th triple of the given "
  "bits, with the same bit meanings.",
  ["inputs"], "every feature vector length, every feature value including negative ones, every positive step",
  "A few vectors with step 1 are tested; other steps and the triple-to-feature association beyond them are not.",
  ["three-bit-quantization/src/lib.rs"],
  [("bit layout", "three-bit-quantization/src/lib.rs (three_bit_quantization, two_bits_from_integer, integer_from_two_bits, mod_four)")],
  ["quantised integers and perturbation bits"])

p("C17", "The watermark container reads back exactly what was written",
  "Deserialising a serialised watermark gives back the same perturbation bits (same number and values), the same signature "
  "bytes and the same text, whatever their lengths within the container's limits, and ignores bytes after the container. "
  "The perturbation bits survive the conversion to bytes and back for every bit count, also when it is not a multiple of 8.",
  ["inputs"], "every bit vector up to 255 bits, signature up to 255 bytes and text up to 255 bytes",
  "One container (12 bits, 4 bytes, 12 characters) is tested; other lengths, empty parts and trailing bytes are not.",
  ["watermarking/src/watermark.rs", "three-bit-quantization/src/lib.rs"],
  [("container layout", "watermarking/src/watermark.rs (serialize, deserialize)"),
   ("bits to bytes and back", "three-bit-quantization/src/lib.rs (perturbation_vector_as_bytes, perturbation_vector_from_bytes)")],
  ["deserialised watermark"])

p("C18", "The data container reads back exactly what was written",
  "Deserialising a serialised data container gives back the same bytes for every non-empty payload up to 65535 bytes, also "
  "when arbitrary bytes follow the container. Extraction returns exactly those bytes and nothing of what follows them.",
  ["inputs"], "every payload and every tail",
  "One 446-byte payload without trailing bytes is tested.",
  ["embedding/src/io/data.rs", "embedding/src/lib.rs", "utils/src/bytes.rs"],
  [("container layout", "embedding/src/io/data.rs (serialize, deserialize)")], ["deserialised bytes"])

p("C19", "Integer vectors and bytes convert back and forth without loss",
  "Converting a vector of 16-bit or 64-bit integers to bytes and back gives the same vector for every value and every length, "
  "each integer taking exactly its own width in bytes. Different integer vectors never give the same bytes, so a signature "
  "over the bytes binds the integers.",
  ["inputs"], "every integer vector",
  "One vector per width is tested.",
  ["utils/src/bytes.rs", "encoding/src/lib.rs"],
  [("fixed-width conversion", "utils/src/bytes.rs"), ("two-byte length header", "encoding/src/lib.rs (u16_to_bytes, bytes_to_u16)")],
  ["converted vectors"])

p("C20", "Hex text and bytes convert back and forth without loss",
  "Encoding bytes as hex text gives two digits per byte, in byte order, for every byte value including those below 16, and "
  "decoding such text gives the same bytes. Text with a non-hex digit yields an error, never wrong bytes.",
  ["inputs"], "every byte sequence and every ASCII text of even length",
  "One five-byte sequence (values 12 to 90) is tested; leading zeros, high bytes and invalid text are not.",
  ["utils/src/format.rs", "signature/src/lib.rs", "signature/src/keypair.rs"],
  [("two digits per byte", "utils/src/format.rs (encode_hex, decode_hex)")], ["encoded text, decoded bytes"])

p("C21", "Forward and inverse transform mirror each other; both sides use one subband",
  "The inverse wavelet transform undoes the forward one level by level in the opposite order, each level working on the "
  "top-left block that is the image size divided by two to the power of the level, with the same wavelet, over all rows and "
  "all columns. Embedding and extraction use the coefficients of the same top-left block: image size over two to the number "
  "of levels, in each dimension separately, after the same forward transform of the same number of levels.",
  ["inputs", "configurations"], "every image shape (also non-square), every number of levels",
  "Small square matrices with one and two levels are tested; three levels, which the product uses, and non-square images are "
  "tested on one image only or not at all.",
  ["embedding/src/haar/mod.rs", "embedding/src/lib.rs"],
  [("level loop", "embedding/src/haar/mod.rs (dwt_2d)"), ("subband selection", "embedding/src/lib.rs (embed, extract)")],
  ["transformed matrices", "coefficients handed to reading and writing"])

p("C22", "Exactly as many features as requested, one per distinct moment",
  "Asking for n features (n at least 1) of an image yields exactly n values, each the magnitude of a moment of the same "
  "order with a different repetition, the repetitions having the parity of the order and not exceeding it. The result does "
  "not depend on anything but the image and n.",
  ["inputs"], "every n >= 1 and every image shape",
  "One feature count is tested with expected values on an 8x8 image.",
  ["zernike/src/lib.rs", "image-features/src/lib.rs", "moments/src/lib.rs"],
  [("moment selection", "zernike/src/lib.rs (calculate_features, get_order_by_features_amount)")], ["feature vector"])

p("C23", "The web module returns the decoded source and its watermarked version",
  "The web entry point decodes the given bytes in the format detected from their content and returns that format's name, the "
  "decoded source and, separately, the watermarked version of that same source, each with its own true width and height "
  "and its RGBA samples in order. The caller's depth and step are passed on unchanged and in their own roles with the same feature count the command line "
  "tool uses, and every accessor of the returned models reads or replaces exactly its own field.",
  ["inputs", "configurations"], "every supported image and every parameter pair",
  "The tests of the web crate decode one image; models, accessors and parameter passing are not tested.",
  ["web/src/lib.rs", "web/src/image_model.rs", "web/src/watermarking_process.rs"],
  [("entry point and models", "web/src/lib.rs, web/src/image_model.rs, web/src/watermarking_process.rs")],
  ["returned models"])

p("C24", "The tool writes each result to its own new name, only after success",
  "The command line tool writes the watermarked version of each input to one file named after that input's stem, a dash, the "
  "suffix and the input's extension, inside the output folder if one is given (else in the current folder), encoded in the format of that name. An output "
  "file is created only after the watermarking of that input has succeeded. Apart from these files and the output folder itself the tool creates, "
  "changes and removes nothing, and without a suffix nothing is written at all.",
  ["inputs", "fault_sequences", "configurations"], "every list of inputs, suffix and output folder, every failing input",
  "The command line tool has no tests.",
  ["cli/src/main.rs"], [("path construction and write order", "cli/src/main.rs (process, main)")],
  ["files created and their contents"])

p("C25", "Every operation terminates",
  "Every loop and recursion of the libraries ends after a number of steps bounded by the sizes and parameters of its input: "
  "a loop either walks a finite sequence or advances a counter by a fixed non-zero amount towards a bound it compares with on "
  "every round, and a recursive call works on a strictly smaller argument above a handled base case. In particular reading a "
  "domain, the level loop of the transform (for at least one level) and factorials of any argument end.",
  ["inputs"], "every input",
  "A test that hangs shows one input; termination for all inputs is not testable.",
  ["embedding/src/io/steganography.rs", "embedding/src/haar/mod.rs", "utils/src/math.rs", "encoding/src/lib.rs",
   "three-bit-quantization/src/lib.rs", "zernike/src/calc.rs"],
  [("bounded loops", "embedding/src/io/steganography.rs (read), embedding/src/haar/mod.rs (dwt_2d)"),
   ("bounded recursion", "utils/src/math.rs (factorial)")], ["termination"])

p("C26", "Key pairs come from the OS random source, private half first",
  "Generating a key pair draws the secret from the operating system's random source, never from a seeded, constant or "
  "home-made generator, and returns the private key first and the matching public key second, each as hex text of its 32 "
  "bytes. Signing uses the given private and public key as that one pair, in that order, over exactly the given data.",
  ["inputs", "histories"], "every generated pair, every signed message",
  "Tests check the text lengths of one generated pair; predictability of a key cannot be tested.",
  ["signature/src/keypair.rs", "signature/src/lib.rs", "signature/src/ecdsa.rs"],
  [("OS random source", "signature/src/keypair.rs (generate)"), ("pair assembly", "signature/src/lib.rs (sign)")],
  ["generated keys", "signatures"])

p("C27", "Moments weigh every pixel by its own position, for any image shape",
  "A moment of an image sums every pixel exactly once, multiplied by the kernel value belonging to that pixel's own row and "
  "column, for square and non-square images alike, and every such kernel value exists. The sum is scaled by order plus one "
  "over pi and divided by the number of pixels.",
  ["inputs"], "every image shape and content",
  "Only 8x8 images are tested, where transposed or truncated lookups go unnoticed or cannot happen.",
  ["zernike/src/calc.rs"], [("kernel lookup", "zernike/src/calc.rs (calculate_zernike_image_moment, get_zernike_matrix)")],
  ["moment values"])

p("C28", "Arbitrary images never crash authentication or extraction",
  "Authenticating or extracting from an arbitrary image (not watermarked, damaged, or crafted) ends with a negative verdict or "
  "an error value instead of aborting the caller.",
  ["inputs"], "every image, watermarked or not",
  "The tests only authenticate images they watermarked themselves.",
  ["watermarking/src/process.rs", "watermarking/src/watermark.rs", "embedding/src/io/data.rs", "encoding/src/lib.rs"],
  [("deserialisation of extracted bytes", "watermarking/src/watermark.rs (deserialize)")], ["verdict or error"])

p("C29", "A freshly watermarked channel authenticates",
  "A channel that was just watermarked authenticates with the same parameters: the changes made by embedding (and by rounding "
  "to 8-bit samples) are small enough for the signature to be extracted without error and for every feature to be restored to "
  "its signed value.",
  ["inputs", "configurations"], "every channel and every parameter set in the supported range",
  "One image with one parameter set is tested.",
  ["watermarking/src/process.rs", "embedding/src/lib.rs", "three-bit-quantization/src/lib.rs"],
  [("margin of bits and features", "embedding/src/io/steganography.rs, three-bit-quantization/src/lib.rs")], ["verdict"])

p("C30", "The watermark is invisible and survives mild processing",
  "Watermarking changes an image by no more than a perceptual bound that follows from the embedding depth, and a watermarked "
  "image still authenticates after mild content-preserving processing such as high-quality recompression, while content "
  "changes are detected.",
  ["inputs", "configurations"], "every image and every mild processing step",
  "No test measures distortion or applies any processing.",
  ["watermarking/src/process.rs", "embedding/src/lib.rs"],
  [("embedding depth", "embedding/src/io/steganography.rs (write_bit)")], ["difference between images, verdict"])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P))
