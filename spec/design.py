"""Hand-written part of DESIGN.md per property: (oracle and method, bounds and preconditions)."""
D = {
"C01": ("Round trip through the real writer and reader, and an independent CSV reader on the written text; heap and file contents of an older, longer file are part of the case.",
        "Frames to 12 (large facet: 30 000) rows and 6 columns; doubles compared at the printed precision; a column whose text could be read as a narrower type (strings that look like numbers) is compared by value, not type."),
"C02": ("A reference CSV reader and type inference written from the documented grammar (`harness/df.hpp`) decides acceptance, cell values and column types for well-formed, damaged and arbitrary texts.",
        "Texts to 70 kB; numbers beyond the `long` range are outside the property."),
"C03": ("Model-based: a table of variants in the harness receives the same history; every cell, label, type, level and the printed form are compared after each operation; the heap must return to its start.",
        "70 operations, 3000 rows or 400 columns or 1500 levels."),
"C04": ("A reference JSON reader/printer (`harness/jmodel.hpp`) is the oracle for acceptance, tree contents and printed text, plus parse(print(tree)) = tree.",
        "The dialect of the code: object or array at the root, no \\u escapes, nesting to 400, control characters as the lexer accepts them."),
"C05": ("Round trip bundle/unbundle directly and through printed text; refusal of missing names, positions and wrong types; log streams against a model.",
        "Doubles keep the 7 digits of the bundled text (%e), which the comparison allows."),
"C06": ("A reference argument scanner decides each value, set flag, rest list and refusal; C and C++ interface are compared against the same reference.",
        "Numbers are parsed leniently and unknown words are only warned about, by design; --help stops the program with a failure status."),
"C07": ("Generated option groups and argument lists run through the real Python package (its own interpreter); oracle: the declared types applied to the given words; YAML save/load round trip, cross-checked with PyYAML when present.",
        "argparse rules for negative numbers and abbreviations are respected in the generator."),
"C08": ("Python-independent SHA-256 reference in the harness (FIPS 180-4 written bit by bit) for every message and every split; precomputed digests for messages over 2^32 bits.",
        "Messages to 5000 bytes, plus ones of 512 MiB."),
"C09": ("Reference escapers/decoders and a list model; reallocations are seen by ASan, leaks by heap measurement.", "Strings without NUL where the interface is C strings."),
"C10": ("Byte-array and list models under random histories, wrapped buffers with guard bytes; impossible sizes must be reported.", "Sizes to a few thousand bytes plus impossible ones."),
"C11": ("Model-based histories over several image objects, in C and C++; padding and foreign (wrapped) buffers are compared too.", "Images to about 40 pixels a side."),
"C12": ("Round trip, and differential testing against encoders/decoders written in the harness with libpng/libjpeg called directly (`harness/imgio.hpp`).",
        "8-bit image objects only (the library refuses others); PNM maxima below 255 are accepted without rescaling; JPEG within the codec's own error."),
"C13": ("Fault injection: truncation at every byte, byte and bit damage, impossible headers, write failures (full device, file size limit); oracle: nothing is reported as loaded or saved that is not, no sanitizer report, heap restored.",
        "JPEG cuts of less than three bytes (only the end marker) are accepted by libjpeg."),
"C14": ("Per-pixel definitions evaluated in double precision, with an interval for 8-bit truncation.", "Images from 1x1 to about 60 pixels a side, any stride."),
"C15": ("Direct convolution with repeated borders (`harness/filt.hpp`), interval arithmetic over the 8-bit truncation between the two passes; metamorphic transposition.", "sigma > 0."),
"C16": ("Independent smoothing and resampling per level with intervals over 8-bit truncation; differential: reused builder against fresh builder.", "8-bit gray images with at least one pixel; scaled pyramids have sigma0*2^i as documented by the code."),
"C17": ("Transforms multiplied out in extended precision; warps compared with interpolation at the mapped position, with the position uncertainty of single precision taken into account.",
        "Positions exactly on the last row/column may count as outside; pixels whose position is uncertain across a border are compared with either value."),
"C18": ("Analytic images (sinusoids, ramps) whose smoothed value is known in closed form; transforms against the parameter definition; differential reuse.", "tilt >= 1; noise background excluded from exact comparisons."),
"C19": ("Defining equations (residuals, orthonormality, reconstruction) evaluated in extended precision; guard values around every output; text round trip bit for bit.", "Tolerances scale with norms and conditioning."),
"C20": ("Elementary rotations, Rodrigues and Hamilton rules in extended precision; round trips up to sign.", "Non-zero rotation axis unless the angle is zero."),
"C21": ("Ground truth known by construction; least-squares optimality tested against perturbations; acceptance test recomputed.", "Conditioning of the generated sample verified; minimal samples that send the origin near infinity are avoided."),
"C22": ("Scene known by construction; independent Jacobi eigen solver for the noisy case; exact buffers under ASan.", "General position verified by the condition of the constraint matrix."),
"C23": ("Planted models with outliers: the returned model must explain the planted matches and label exactly those within tolerance of itself; simulation of the generic engine with generated callbacks.",
        "Inlier ratios and sizes are chosen so that the failure probability of a correct estimator per case is below 1e-9; spread of points guaranteed by the generator."),
"C24": ("Segment-test definition evaluated on all 16 starts; score by exhaustive search; raster-order non-maximum suppression by definition.", "Integer scores in suppression; orientation of patches that only just fit at the border may be unset."),
"C25": ("Direct evaluation of derivative products, score and strict local maxima.", "Comparisons within rounding of equality are left open."),
"C26": ("Comparisons recomputed from the pattern; exhaustive nearest neighbour; stored pattern hashes for the published seeds; truncation of stored extractors at every byte.", "search_nn on a non-empty map."),
"C27": ("A direct double-precision SIFT on the detector's own scale space (decisions near thresholds left open), metamorphic quarter turns, differential reuse, cache transparency over look-alike requests, exhaustive matching.",
        "border_distance >= 2; ties in matching may go either way."),
"C28": ("Definitions in extended precision after sorting; permutation invariance.", "Magnitudes to 1e140, no NaN."),
"C29": ("Edge list model; matrix and list representation compared with each other.", "Vertices in range."),
"C30": ("Independent SFMT19937; distribution tests at 7.5 standard errors (false alarm probability per statistic about 6e-14).", "Array fills with the alignment and size the generator documents."),
"C31": ("Bit-by-bit definitions, std::erf.", "Rotation amounts below the width."),
"C32": ("Generated dataset directories with known numbers; single injected defects must be refused.", "Trailing junk after the last calibration number is accepted by the format."),
"C33": ("Streams with known contents; /dev/full and file size limits as faults; scratch directories.", "-"),
"C34": ("Defining equations of normalisation and coordinate mapping in extended precision; streams cut at any byte; clone independence.", "Copies of the C++ object share statistics; clone() is independent."),
"C35": ("Independent colour tables (`harness/color_tables.h`), luminance formula; truncation to 8 bit.", "-"),
"C36": ("Reference scanners for positions, numbers, quoted strings, CSV and JSON tokens; error messages must name line and column.", "-"),
"C37": ("Line averages and score by definition with truncation intervals.", "Images of at least 4 pixels a side."),
"C38": ("The same picture drawn with cairo directly, on image, SVG and PDF pages, for C and C++ interface.", "Opaque images with a row stride that is a multiple of 4; small tolerance for sub-pixel rasterisation of glyphs and markers; a current point before relative operations."),
"C39": ("A real gnuplot reads what was sent and prints it back; settings are read back from gnuplot.", "Texts without quotes, backslashes and newlines; window terminals checked as text because this gnuplot has none."),
"C40": ("The built tools run as programs in a scratch directory; output compared with the library called directly (harness linked against the same sources).", "nx-stitch's main writes to a fixed path and is not run; vg-stereo-matcher is unfinished upstream."),
"C41": ("Views rendered from an analytic scene with known poses; the panorama must match the scene in the frame of some view (block matching to a few pixels) and refuse unconnected views.", "Overlaps large enough for the matcher; chains without tilt."),
"C42": ("A stand-in OpenGL in the harness records every call, checks that it is legal, and fails at a generated step; matrices against the definition of the projection in extended precision.", "No real driver or display here; near < far."),
"C43": ("The direct computation; requests run in child processes that a file size limit ends (SIGXFSZ) or refuses at a generated byte, and groups of processes released together on one directory.", "Loss of data already written (power failure) is not modelled; schedules are those the kernel gives in repeated rounds."),
"C44": ("The generated cases of all other harnesses, each repeated with the same choices: heap bytes (ASan) and open descriptors must not grow in every one of five repetitions after two to warm up.", "Calls that end in a fatal error are left out of the repetitions; harnesses that run other programs (C40, C43) and pure functions (C08, C31) are left out."),
}
FALSE_ALARMS = """- C27 reference: extrema of neighbouring levels that refine to one point could be paired with each other's keypoint, whose descriptor comes from the other level; a descriptor may now be that of any candidate at the point.
- C14 scale / C15 box: the first tolerance did not cover single-precision accumulation; replaced by an interval.
- C17 warp: the position uncertainty of single precision spans several pixels for huge transforms; all values reachable within it are allowed.
- C23 homography: with very few matches an accidental second model can explain as many matches, and coincident points are consistent with
  many models; the generator now plants enough matches with a guaranteed spread, and the distance between models is bounded loosely.
- C41 chains: direct links between far views may be weak and tilted chains drift legitimately; the generator keeps chain steps at
  90-96 pixels without tilt and blocks are matched within 12 pixels.
- C27 reference: decisions within rounding of a threshold are left open; where two extrema refine to nearly the same place each keypoint
  is assigned to the nearer one (the first version took the first in the list).
- C16 levels: a scaled level is interpolated at single-precision positions, so values within the interval of positions are allowed, kinks
  at integer positions included.
- C15 transposed filters, C18 views, C37 diagonals on images thousands of pixels long: running sums and stepped positions in single
  precision drift with the length; C15's tolerance grows with it, C18 and C37 stay below 300 pixels a side.
"""
