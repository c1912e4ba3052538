"""Single source of properties.jsonl and MANIFEST.json (run tools/gen_spec.py after editing)."""
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=None, claimed=True, note=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, observe=observe, claimed=claimed, note=note, tech=tech))


S = "src/"
H = "include/virg/nexus/"

prop("C01", "Data frames survive a CSV save and load unchanged",
     "Saving any data frame as CSV and loading the file back yields the same column labels and order, the same number of rows, the same missing cells, and the same value in every cell. "
     "Strings and labels come back byte for byte whatever characters they contain (quotes, commas, newlines, backslashes, non-ASCII), numbers come back to the printed precision, booleans and factors keep their values, and a frame whose columns' types cannot be mistaken for one another keeps its column types.",
     ["inputs", "histories"], "every data frame (any mix of column types, labels, cell values and missing cells) that can be built through the API",
     "The tests save and load two or three fixed frames; quoting, missing cells and number formatting interact per value, so only generation over cell contents reaches the combinations.",
     [S+"nx_data_frame.c", S+"nx_csv_lexer.c", S+"nx_csv_parser.c", S+"nx_lexer.c", S+"nx_io.c", S+"nx_string.c"],
     [("CSV writer", S+"nx_data_frame.c: nx_data_frame_save_csv_stream"), ("CSV reader", S+"nx_csv_parser.c: nx_csv_parser_parse"), ("double-quote escaping", S+"nx_io.c: nx_fputs_double_quoted / "+S+"nx_string.c: nx_xstr_from_double_quoted")])

prop("C02", "CSV text is read exactly, with the documented column type inference",
     "For any well-formed CSV text the loaded frame has one column per header field and one row per record, each quoted or bare field denotes exactly its text, and each column gets the narrowest type all of its non-empty fields fit (boolean words, integers, real numbers, otherwise strings) with the value each field denotes. "
     "Empty fields are missing cells; text that is not well formed (wrong field count, unterminated or misplaced quotes) is rejected with a fatal error, never read as something else, and never causes a crash, a hang or an out-of-bounds access.",
     ["inputs"], "all byte strings given as CSV text, well formed or not, from memory or from a stream",
     "Existing tests parse about a dozen literals; type inference depends on every field of a column and the lexer's state on every byte.",
     [S+"nx_csv_lexer.c", S+"nx_csv_parser.c", S+"nx_lexer.c", S+"nx_data_frame.c"],
     [("tokeniser", S+"nx_csv_lexer.c: nx_csv_lexer_next"), ("type inference", S+"nx_csv_parser.c")])

prop("C03", "Data frame cells always hold what was last written to them",
     "After any sequence of adding columns and rows, setting cells (singly or a whole row), marking cells missing and turning string columns into factors, every cell reads back the last value written to it, cells never written are missing, and no operation disturbs any other cell, label or column type. "
     "A factor column lists each of its distinct strings once as a level and reads back the same string as before the conversion; the printed form lists exactly the same labels and cells.",
     ["histories"], "all operation sequences on a data frame, with growth of rows and columns interleaved",
     "Capacity growth, missing-cell maps and factor levels are history dependent; tests use short fixed sequences.",
     [S+"nx_data_frame.c"], [("cell storage and growth", S+"nx_data_frame.c: nx_data_frame_add_row / nx_data_frame_add_column"), ("factors", S+"nx_data_frame.c: nx_data_frame_make_factor")])

prop("C04", "JSON text and JSON trees convert into each other without loss",
     "Any JSON text (an object or array at the root, no \\u escapes, bounded nesting) parses into a tree with the same structure, member names and order, string contents, number texts and true/false/null values, whether read from memory, a stream or a file, and printing a tree at any pretty-printing level gives valid JSON that parses back to an equal tree. "
     "Text that is not valid JSON is rejected with a fatal error rather than accepted, and no input makes the reader crash, hang or touch memory outside its buffers.",
     ["inputs"], "all JSON documents of any nesting, and all byte strings that are not JSON",
     "Only the lexer is tested, on a handful of tokens; tree building and printing have no tests.",
     [S+"nx_json_lexer.c", S+"nx_json_parser.c", S+"nx_json_tree.c", S+"nx_lexer.c", S+"nx_io.c", S+"nx_string.c"],
     [("recursive-descent parser", S+"nx_json_parser.c"), ("tree and printer", S+"nx_json_tree.c: nx_json_tree_fprint")])

prop("C05", "Values bundled into JSON unbundle to the same values",
     "Every boolean, character, integer, size, float, double, string, numeric or string array and keypoint that is bundled into a JSON tree unbundles to the value it was made from (finite floating point values to the printed precision of 7 digits), directly and after printing the tree and parsing the text again. "
     "Members added to an object or a log stream are found under their own name with their own value whatever else was added, and asking for a missing member or a wrong type is reported instead of yielding another value.",
     ["inputs", "histories"], "all values of the bundled types, all member names, all sequences of additions to objects, arrays and JSON log streams",
     "There are no tests of bundling; equality must hold for every value including extremes and strings needing escapes.",
     [S+"nx_json_bundle.c", S+"nx_json_tree.c", S+"nx_json_log.c"], [("bundle / unbundle pairs", S+"nx_json_bundle.c"), ("log streams", S+"nx_json_log.c")])

prop("C06", "Command line options take exactly the values given on the command line",
     "For any set of declared options and any argument list, each option ends up with the value of its last occurrence in short or long form, options not given keep their default and are reported as not set, unconsumed arguments are returned in order as the rest, and argument lists that omit a required option or the value of an option are rejected with a fatal error. The printed values and usage text list every option with its current value. "
     "The C++ interface returns the same values as the C interface for the same declarations and arguments.",
     ["inputs", "configurations"], "all option declarations (types, required flags, short/long names, defaults) and all argument vectors",
     "The tests use a few fixed declarations with one or two arguments; order, combination and repetition are not covered.",
     [S+"nx_options.c", S+"vg_options.cc"], [("argument scan", S+"nx_options.c: nx_options_set_from_args"), ("C++ wrapper", S+"vg_options.cc")])

prop("C07", "Python options agree with the command line and survive a YAML save and load",
     "For any groups of options and any argument list, the Python options hold the value given on the command line for each option given and its default otherwise, both in the returned dictionary and in the options object. "
     "Saving the options to a YAML file and loading it (directly or through the command line switch for it) restores the same value for every option, including none values, booleans, numbers and arbitrary strings.",
     ["inputs", "configurations"], "all option groups, argument lists and option values",
     "Two fixed argument lists are tested and nothing of the YAML path.",
     ["pyvirg/virg/nexus/options.py"], [("argparse bridge", "pyvirg/virg/nexus/options.py: Options.parse_args"), ("YAML", "pyvirg/virg/nexus/options.py: Options.save_yaml / load_yaml")])

prop("C08", "Message digests equal SHA-256 however the message is split",
     "For every message the computed digest is the standard SHA-256 digest of its bytes, and hashing the message given as any sequence of pieces (including empty ones) gives the digest of their concatenation. "
     "The hexadecimal form of a digest spells exactly its bytes, and hashing never reads outside the given pieces.",
     ["inputs"], "all messages and all ways of splitting them into pieces",
     "Tests use standard vectors and a few splits; block and padding boundaries combined with piece boundaries are a product space.",
     [S+"nx_hash_sha256.c", S+"nx_string.c", S+"nx_bit_ops.c"], [("block loop and padding", S+"nx_hash_sha256.c: nx_sha256_multi"), ("gathering copy", S+"nx_string.c: nx_memncpy_multi")])

prop("C09", "Strings and string arrays keep their contents through every operation",
     "Quoting or escaping any string and decoding it again gives the string back, formatted and duplicated strings have exactly the formatted text, and writing strings or string arrays to a stream and reading them back restores every element. "
     "After any sequence of sets, appends, resizes and clears a string array has the size and elements a plain list of strings would have, and searching it returns the first matching position or a negative value.",
     ["inputs", "histories"], "all byte strings without NUL, all operation sequences on string arrays",
     "Tests check single examples per function.",
     [S+"nx_string.c", S+"nx_string_array.c", S+"nx_io.c"], [("escape codecs", S+"nx_string.c, "+S+"nx_io.c"), ("string array", S+"nx_string_array.c")])

prop("C10", "Memory blocks and vectors behave like growable arrays under any history",
     "After any sequence of resizes, reservations, wraps of external memory, copies, swaps, releases and appends, a memory block or vector has the requested size, at least the reserved capacity, and the contents a plain growable array would have. "
     "Memory wrapped without ownership is never freed or resized in place, owned memory is freed exactly once, and all memory is returned when the objects are freed.",
     ["histories"], "all operation sequences over several blocks and vectors, owning and non-owning",
     "Ownership and growth errors need particular orders of operations; tests run a few fixed ones.",
     [S+"nx_mem_block.c", S+"nx_alloc.c", S+"nx_vector_gen.c", S+"nx_keypoint_vector.c"], [("ownership flag", S+"nx_mem_block.c"), ("vector growth", S+"nx_vector_gen.c")])

prop("C11", "Image buffers keep size, type and pixels through any history of operations",
     "After any sequence of creating, resizing, wrapping, copying, swapping, converting type and releasing images, of any size, channel layout, element type and row stride, each image reports the requested size, type and stride, every pixel is addressable, copies equal their source without sharing memory, and type conversion keeps the pixel values prescribed for it. "
     "No operation on one image changes another one, wrapped memory is never freed by the image unless ownership was given, and all memory is returned when the images are freed.",
     ["histories"], "all operation sequences over several images with all sizes, strides, types and ownership modes",
     "Stride, ownership and reuse of an existing buffer interact over several operations; tests use isolated calls.",
     [S+"nx_image.c", S+"nx_mem_block.c"], [("resize and wrap", S+"nx_image.c: nx_image_resize / nx_image_wrap"), ("copies", S+"nx_image.c: nx_image_copy")])

prop("C12", "Images survive saving to and loading from image files",
     "Saving any 8-bit image to PGM, PPM or PNG and loading it gives the same size and pixels (colour channels for PPM, all stored channels for PNG), and JPEG gives the same size and close pixels, whatever the image's size and row stride. "
     "Loading as grayscale or as colour gives the requested pixel type with the luminance or the replicated channels of the stored image, and files written by other encoders in the supported variants load with the pixels they encode. The format is chosen by the name's extension when saving (PNM for unknown ones) and by the contents when loading.",
     ["inputs", "configurations"], "all image sizes, contents, strides, types, file formats, load modes, and header variants",
     "Tests save and load one image per format.",
     [S+"nx_image_io.c", S+"nx_image_io_pnm.c", S+"nx_image_io_png.c", S+"nx_image_io_jpeg.c"], [("format dispatch", S+"nx_image_io.c"), ("codecs", S+"nx_image_io_pnm.c, "+S+"nx_image_io_png.c, "+S+"nx_image_io_jpeg.c")])

prop("C13", "Damaged or truncated image files and write failures are reported, never accepted",
     "Loading a missing, truncated, mislabelled or corrupted image file through the non-fatal interface reports failure, or succeeds with a complete image, and through the fatal interface ends in a fatal error; neither crashes, hangs, or reads or writes outside its buffers. "
     "A file whose pixel data is cut short is never reported as loaded, a save that could not write all of its data is reported as failed, and a failed load leaves the image object usable.",
     ["inputs", "fault_sequences"], "all byte-level damage to image files of each format and all I/O failures during saving",
     "Tests contain no damaged file and no failing device.",
     [S+"nx_image_io.c", S+"nx_image_io_pnm.c", S+"nx_image_io_png.c", S+"nx_image_io_jpeg.c", S+"nx_io.c"], [("error returns", S+"nx_image_io_png.c, "+S+"nx_image_io_jpeg.c, "+S+"nx_image_io_pnm.c"), ("checked I/O", S+"nx_io.c")])

prop("C14", "Pixel operations equal their per-pixel definition on every image",
     "Zeroing, linear rescaling, normalisation to 0..1, difference, derivatives, resampling (halving, doubling, smoothed halving, arbitrary scale), element-type and channel-layout conversion give at every pixel the value of their definition, borders included, for every image size, element type and row stride. "
     "Results stay within the element range, depend only on image pixels and never on padding between rows, and source images are left unchanged.",
     ["inputs"], "all image sizes, contents, strides and element types in each operation's domain",
     "Tests run a few operations on one size with the default stride.",
     [S+"nx_image.c", S+"nx_filter.c"], [("pixel loops", S+"nx_image.c")])

prop("C15", "Smoothing and box filters equal the direct convolution with repeated borders",
     "Gaussian smoothing with any widths, symmetric convolution with any kernel and box filters with any radii give at every pixel the directly computed sum or mean over the kernel window, with repeated borders for images (zero, repeated or mirrored ones for buffers), for every image size, element type and row stride, in place or into another image; 8-bit results are truncated after each pass. "
     "Kernels are symmetric and sum to one, so constant images stay constant up to rounding, filtering commutes with transposition, and box means computed incrementally do not drift from the direct ones.",
     ["inputs"], "all signals and images, kernel widths and radii within the size limits, strides and element types",
     "Tests filter one or two small arrays; the border rule and running sums depend on the size/kernel combination.",
     [S+"nx_filter.c", S+"nx_image.c"], [("1D convolution and borders", S+"nx_filter.c"), ("separable image filters", S+"nx_image.c: nx_image_smooth, nx_image_filter_box")])

prop("C16", "Image pyramids have the promised levels, scales and contents",
     "A pyramid built from any 8-bit gray image in any of the three modes has the requested number of levels, each level's size, scale and smoothing are those of its mode, and each level's pixels are the smoothed and resampled version of the original image. "
     "Rebuilding a pyramid, from the same or another image of any size, gives the same result as building a new one, and the source image is not changed.",
     ["inputs", "histories"], "all images, pyramid modes, level counts, scale factors and sigmas, and all sequences of rebuilds",
     "Tests check level counts and sizes for fixed parameters.",
     [S+"nx_image_pyr.c", S+"nx_image_pyr_builder.c", S+"vg_image_pyr.cc"], [("builders", S+"nx_image_pyr_builder.c")])

prop("C17", "Planar transforms equal their factors, and image warps follow them",
     "Similarity, affine and perspective matrices built from any parameters equal the product of their documented factors in both precisions, and the perspective matrix maps its four corners to the unit square. An image warped by an affine transform or rotated by 45 degrees has at every pixel the bilinear interpolation of the source at the mapped position, or the value its border policy prescribes outside, for any transform, image size, stride and element type.",
     ["inputs"], "all transforms, points, images, sizes and border policies",
     "Nothing in the tests covers transforms or warps.",
     [S+"nx_transform_2d.c", S+"nx_image_warp.c"], [("transform algebra", S+"nx_transform_2d.c"), ("bilinear sampling", S+"nx_image_warp.c")])

prop("C18", "Synthetic affine views match the transform reported for them",
     "For any viewpoint parameters (tilt at least 1) the generated view has the size implied by its parameters, the forward and backward transforms reported for it are inverse of each other and map the source image into the view, and each interior pixel of the view is the smoothed source at the mapped position. "
     "The same parameters and source always give the same view, and reusing a processor for other images or parameters does not change the result.",
     ["inputs", "histories"], "all parameter settings, source images, and sequences of uses of one processor",
     "The module has no tests.",
     [S+"nx_affine_warp_processor.c"], [("view synthesis", S+"nx_affine_warp_processor.c")])

prop("C19", "Matrix, factorisation and linear solver results satisfy their defining equations",
     "Products, transposes, norms, determinants and inverses of vectors and matrices of any shape equal their definition, singular value decompositions reproduce the matrix with orthonormal factors and sorted non-negative values, and solvers return vectors that satisfy the system to numerical accuracy or report singularity. "
     "Saving a matrix as text and loading it restores shape and entries, and malformed matrix text is rejected.",
     ["inputs"], "all matrix shapes and well-conditioned contents, leading dimensions and right-hand sides",
     "Tests check a few fixed matrices.",
     [S+"nx_mat.c", S+"nx_svd.c", S+"nx_linear_solvers.c", H+"nx_mat234.h", H+"nx_vec234.h", H+"nx_vec.h", H+"nx_mat.h"], [("LAPACK/BLAS wrappers", S+"nx_svd.c, "+S+"nx_linear_solvers.c"), ("small matrix inlines", H+"nx_mat234.h")])

prop("C20", "Rotation representations convert into each other consistently",
     "Every rotation given by axis (of any non-zero length) and angle, Euler angles or unit quaternion converts to the proper orthonormal matrix of its definition, every rotation matrix converts to a unit quaternion and back to itself, and composing, inverting or applying rotations gives the same result in every representation. This includes the identity, half turns, tiny angles and gimbal configurations.",
     ["inputs"], "all rotations and vectors, including degenerate ones",
     "Tests check a few angles.",
     [S+"nx_rotation_3d.c", S+"nx_quaternion.c"], [("conversions", S+"nx_rotation_3d.c, "+S+"nx_quaternion.c")])

prop("C21", "Homographies are recovered from the correspondences they generate",
     "From any four or more correspondences in general position generated by a homography, exact and least-squares estimation return that homography up to scale, in normalised as in pixel coordinates, and ignoring matches not marked as inliers where only inliers are to be used. "
     "Mapping points, transfer errors in both directions, inlier marking and the acceptance check (not mirrored, diagonals not too oblique) follow their definitions for any homography and point.",
     ["inputs"], "all non-degenerate homographies and point configurations",
     "Tests use one or two fixed homographies.",
     [S+"nx_homography.c", S+"nx_point_match_2d_stats.c", S+"vg_homography.cc"], [("DLT", S+"nx_homography.c"), ("normalisation", S+"nx_point_match_2d_stats.c")])

prop("C22", "Two-view and pinhole geometry recovers the scene that produced the points",
     "From the projections of any scene in general position the estimated fundamental matrix satisfies the epipolar constraint for all points and has rank two, epipolar distances follow their definition, and essential matrices equal [t]x R and K'^T F K. "
     "Decomposing an essential matrix gives four proper poses that reproduce it, the pose picked for a scene is the true one, points project as K(RX+t), and triangulating the inliers gives back the scene points with their match indices, never writing more results than the caller has room for.",
     ["inputs"], "all camera pairs and scenes in general position",
     "Tests use one synthetic scene per function.",
     [S+"nx_epipolar.c", S+"nx_pinhole.c", S+"vg_fundamental_matrix.cc"], [("eight-point estimation", S+"nx_epipolar.c"), ("pinhole model", S+"nx_pinhole.c")])

prop("C23", "Robust estimation finds the true model and labels inliers correctly",
     "Given enough correspondences consistent with one model among outliers, robust estimation of homographies and fundamental matrices returns a model that explains the consistent ones (for noisy fundamental matrices most of them), marks as inliers exactly the correspondences within tolerance of the returned model, and returns their number. "
     "With too few or no consistent correspondences it returns without crashing and reports the number of matches it marked or zero. The matches are at most reordered, and the generic engine returns the best-scoring admissible model it was offered.",
     ["inputs", "histories"], "all correspondence sets, outlier fractions up to a bound, tolerances and random sampler states",
     "The outcome depends on random sampling and on the data; tests try one data set.",
     [S+"nx_homography.c", S+"nx_epipolar.c", S+"nx_usac.c", S+"nx_usac_homography.c"], [("RANSAC loops", S+"nx_homography.c, "+S+"nx_epipolar.c"), ("USAC", S+"nx_usac.c, "+S+"nx_usac_homography.c")])

prop("C24", "The FAST detector finds exactly the corners of the segment test",
     "A pixel at least three pixels from the border is detected exactly when nine contiguous pixels of the 16-pixel circle around it are all brighter or all darker than it by more than the threshold, its score is the largest threshold for which it is still detected, and non-maximum suppression keeps exactly the corners with no neighbour scoring as high. "
     "Results do not depend on row stride or earlier use, orientations are those of the intensity centroid, pyramid detection reports level, scale and sigma of each corner, and no more keypoints than asked for are returned.",
     ["inputs"], "all 8-bit images, thresholds and keypoint limits",
     "The decision tree has thousands of branches; the test images exercise few of them.",
     [S+"nx_fast_detector.c", S+"fast/fast_9.c", S+"fast/fast_nonmax.c"], [("decision tree", S+"fast/fast_9.c"), ("suppression", S+"fast/fast_nonmax.c")])

prop("C25", "The Harris detector reports exactly the local maxima of the Harris score",
     "The score image is the Harris response of the smoothed gradient products at every pixel, and the detected keypoints are exactly its strict local maxima above the threshold away from the two-pixel border, in raster order with their scores, up to the number asked for. "
     "Detection does not depend on row stride or on earlier use, pyramid detection reports the level, scale and sigma of each keypoint from the coarsest level on, and the C++ detector agrees with the C functions.",
     ["inputs", "histories"], "all images, window widths, thresholds and limits",
     "There are no tests of the Harris detector.",
     [S+"nx_harris_detector.c", S+"vg_harris_detector.cc"], [("score and maxima", S+"nx_harris_detector.c")])

prop("C26", "Binary descriptors and their search are exact and reproducible",
     "A descriptor's bits are the pairwise intensity comparisons of its pattern at the keypoint's position and level, the same seed gives the same pattern on every run, saving and loading an extractor reproduces its descriptors, and points too close to the border are refused. "
     "The distance between descriptors is the number of differing bits and a descriptor map's nearest-neighbour and identifier searches return what an exhaustive search returns.",
     ["inputs", "histories"], "all images, positions, pattern sizes and seeds, and all descriptor sets and queries",
     "Tests check a few distances and one pattern.",
     [S+"nx_brief_extractor.c", S+"vg_brief_extractor.cc", S+"vg_descriptor_map.cc"], [("pattern", S+"nx_brief_extractor.c"), ("Hamming distance", S+"nx_brief_extractor.c"), ("map", S+"vg_descriptor_map.cc")])

prop("C27", "SIFT detection is deterministic, covariant, and its cache is transparent",
     "Detecting keypoints in any image gives keypoints inside the image with unit-length or zero descriptors, the same for the same pixels whatever the row stride or earlier use, and following quarter turns and mirroring of the image. "
     "Results obtained through the cache equal freshly computed ones, saved keypoints load unchanged, and brute-force matching returns exactly the nearest neighbours accepted by the distance and ratio rules.",
     ["inputs", "histories"], "all images and parameters, sequences of detections with and without cache, all descriptor sets",
     "There are no tests of the SIFT detector.",
     [S+"nx_sift_detector.c"], [("detector", S+"nx_sift_detector.c"), ("cache", S+"nx_sift_detector.c: nx_sift_detector_compute_with_cache")])

prop("C28", "Summary statistics equal their definitions on every sample",
     "Minimum, maximum, mean, standard deviation, median, quartiles and interquartile range computed for any sample of integers or real numbers equal their definitions, independent of the order of the data, and are zero for an empty sample. "
     "The data keep the same values, although they may be reordered.",
     ["inputs"], "all non-empty samples of every element type, with ties and extremes",
     "Tests use a few short samples.",
     [S+"nx_statistics.c", S+"nx_math.c", H+"nx_vec.h"], [("order statistics", S+"nx_statistics.c")])

prop("C29", "Graphs store exactly the inserted edges and search them correctly",
     "After any sequence of edge insertions, with repeated edges in either direction and attempted self loops, the adjacency matrix and the adjacency lists hold exactly the inserted undirected edges, each once from both ends and with the weight given last, and report the right numbers of vertices and edges. "
     "Searching the list of a vertex finds exactly its neighbours.",
     ["histories"], "all insertion sequences, with repeated edges and self loops",
     "Tests build one graph.",
     [S+"nx_graph.c"], [("adjacency lists", S+"nx_graph.c")])

prop("C30", "Random samplers are reproducible, in range, and correctly distributed",
     "For every seed a sampler repeats the same sequence, that of the SFMT19937 generator, every sample lies in its documented range, and samples of a sampler do not depend on other samplers or on how the calls are interleaved. "
     "Uniform and Gaussian samples match their distributions in moments, tail counts and independence for every seed, with the requested mean and standard deviation.",
     ["inputs", "histories"], "all seeds, sample kinds, and interleavings of calls",
     "There are no tests of samplers.",
     [S+"nx_uniform_sampler.c", S+"nx_gaussian_sampler.c", S+"SFMT/SFMT.c"], [("SFMT", S+"SFMT/SFMT.c"), ("samplers", S+"nx_uniform_sampler.c, "+S+"nx_gaussian_sampler.c")])

prop("C31", "Bit and integer helpers equal their arithmetic definitions",
     "Population counts, rotations, big-endian splitting and composing, bit arrays, sign, minimum, maximum and the sorting comparisons equal their arithmetic definition for every argument in their domain, and the error function is within 2e-7 of its true value, odd and bounded by one. A timer measures stop minus start in milliseconds.",
     ["inputs"], "all argument values",
     "Tests check sample values.",
     [S+"nx_bit_ops.c", H+"nx_bit_ops.h", S+"nx_math.c", H+"nx_math.h", H+"nx_timing.h"], [("inline helpers", H+"nx_bit_ops.h, "+H+"nx_math.h")])

prop("C32", "Dataset readers return the numbers stored in the dataset files",
     "For any well-formed dataset directory the readers return every pose, timestamp, calibration, bounding box, attribute and homography with the value stored in the files and the frame that belongs to each index, and report which sequences, cameras and ground truth exist. "
     "Missing or malformed files end in a fatal error or are reported as unavailable, without crash or invalid memory access.",
     ["inputs", "configurations"], "all dataset directory contents",
     "The dataset modules have no tests.",
     [S+"nx_kitti_slam.c", S+"nx_temple_color_128.c", S+"nx_vgg_affine_dataset.c"], [("readers", S+"nx_kitti_slam.c, "+S+"nx_temple_color_128.c, "+S+"nx_vgg_affine_dataset.c")])

prop("C33", "File helpers return exactly the data present and report failures",
     "Reading lines from any stream yields exactly its lines in order and then end of file, checked reads and writes transfer exactly the requested data or end in a fatal error, and closing a file whose data could not be written is reported. "
     "Directory listing returns exactly the entries present, directory and file checks answer what is there, and ensuring a directory leaves an existing one untouched. "
     "Log messages at or above the chosen verbosity appear whole on standard error, coloured only on a terminal, and an unhandled fatal error prints its message and ends the process with the failure status.",
     ["inputs", "fault_sequences"], "all file contents, directory contents and I/O failures",
     "There are no tests of these helpers.",
     [S+"nx_io.c", S+"nx_filesystem.c", S+"nx_log_c_impl.c"], [("checked I/O", S+"nx_io.c"), ("directory scan", S+"nx_filesystem.c")])

prop("C34", "Keypoint and match coordinates map consistently between levels and frames",
     "Matches built from keypoints hold their base-image coordinates, scaled sigma and ids, and keypoints written to a stream read back bit for bit. Normalising a match set (empty, coincident or collinear ones included) gives zero mean and mean distance one with sigma scaled alike, denormalising restores the original values, and each operation of a correspondence set changes only what it should and leaves clones alone. "
     "A model estimated on normalised matches and denormalised acts on the original coordinates exactly as it did on the normalised ones.",
     ["inputs"], "all keypoints, match sets and models",
     "Tests normalise one match set.",
     [S+"nx_keypoint.c", S+"nx_point_match_2d_stats.c", H+"nx_point_match_2d.h", S+"vg_point_correspondence_2d.cc"], [("normalisation", S+"nx_point_match_2d_stats.c")])

prop("C35", "Colour conversions and colour maps are exact and in range",
     "Gray values of colours equal the luminance 0.3 R + 0.59 G + 0.11 B (8 bit: truncated, float: clamped), gray values converted to colour and back are restored to rounding accuracy, and colour maps give for every value, singly and for whole images, the table entry or linear interpolation of their table, clamped at the ends, with components in range. Conversion of buffers touches no bytes between rows.",
     ["inputs"], "all colours and all map values",
     "There are no tests of colour conversion.",
     [S+"nx_colorspace.c", S+"nx_color_map_data.h", S+"nx_image.c"], [("conversion formulas", S+"nx_colorspace.c")])

prop("C36", "Lexers split every text into the tokens of its grammar, with exact positions",
     "For any text the lexer reports the current character, byte position, line and column after every step, a failed match consumes nothing, and the end of the text stays the end. Numbers and quoted strings are recognised with the extent and kind of the JSON grammar; the CSV and JSON lexers return the token sequence of their grammar with decoded text. "
     "Malformed input ends in a fatal error that names the place, without crash or read beyond the text.",
     ["inputs", "histories"], "all texts and operation sequences",
     "Tests lex a handful of fixed texts.",
     [S+"nx_lexer.c", S+"nx_csv_lexer.c", S+"nx_json_lexer.c"], [("character scanning", S+"nx_lexer.c"), ("tokens", S+"nx_csv_lexer.c, "+S+"nx_json_lexer.c")])

prop("C37", "Checkerboard detection computes local line averages and their contrast",
     "For any image, stride and window size the four local images hold the averages of the image along the horizontal, vertical and both diagonal windows about each pixel, and the checkerboard score is the smoothed squared range of the four values, independent of their order. Source images are unchanged.",
     ["inputs"], "all images and window sizes",
     "There are no tests of the checkerboard functions.",
     [S+"nx_checkerboard_detector.c"], [("local averages", S+"nx_checkerboard_detector.c")])

prop("C38", "Drawing shows the described shapes in the described colours, and nothing else",
     "Any sequence of drawing operations on an image changes exactly the pixels of the described lines, rectangles, arcs, circles, curves, text and fills, in true colours with the given width, dashes and opacity, once flushed or freed. PDF and SVG pages hold the same paths with the given page size, and a page that cannot be written is a fatal error. "
     "Annotation marks, edges, boxes, keypoints and match pictures appear at their base-image positions, sizes and colours, leaving the source image untouched; the C++ interface draws the same as the C interface.",
     ["inputs", "histories"], "all drawing sequences and page sizes",
     "The tests draw nothing or one picture nobody compares.",
     [S+"nx_gc_cairo_imp.c", S+"vg_graphics_context.cc", S+"vg_image_annotator.cc"], [("drawing", S+"nx_gc_cairo_imp.c"), ("annotation", S+"vg_image_annotator.cc")])

prop("C39", "gnuplot receives the settings, labels and data that were given",
     "After any sequence of settings, gnuplot's terminal, size, output file, title and axis labels are the last ones given, whatever characters other than quotes they contain. A data frame sent as named block or as inline data is read by gnuplot with exactly the values it holds, and the commands after it are still understood. Flushing delivers everything sent; a stream given by the caller stays open.",
     ["inputs", "histories"], "all sequences of settings, texts and data frames",
     "The tests send three plots and look at nothing.",
     [S+"nx_gnuplot.c"], [("commands and data", S+"nx_gnuplot.c")])

prop("C40", "The command-line tools report what the library computes, and fail visibly",
     "nx-sift-detector prints and saves exactly the keypoints and descriptors the library computes for the given image and options; nx-harris-detector prints a JSON document with the options used and exactly the library's keypoints, and draws them on request; nx-fit-homography reports the number of matches, true inliers for a given ground truth, and ordered statistics of estimates that agree with the true motion; nx-sift-benchmark prints for every pair of a dataset the keypoints, matches and inliers the library finds. "
     "Missing options, missing or damaged images, matrices and dataset directories and outputs that cannot be written end in a failure status with a message.",
     ["inputs", "configurations"], "all images and option combinations",
     "There are no tests of the tools.",
     ["tools/nx_sift_detector_main.c", "tools/nx_harris_detector_main.c", "tools/nx_fit_homography_main.c", "tools/nx_sift_benchmark_main.c"], [("tools", "tools/nx_sift_detector_main.c, tools/nx_harris_detector_main.c, tools/nx_fit_homography_main.c, tools/nx_sift_benchmark_main.c")])

prop("C41", "The panorama builder reassembles overlapping views and refuses unconnected ones",
     "Overlapping views of a scene, in any order, are placed so that the panorama covers their bounding box and shows the scene wherever a view does, black elsewhere. Views that do not connect to the others, too few views and unreadable files end in a fatal error, without crash or invalid memory access.",
     ["inputs", "configurations"], "all sets of views",
     "There are no tests of the panorama builder.",
     ["tools/nx_panorama_builder.c"], [("placement and compositing", "tools/nx_panorama_builder.c")])

prop("C42", "OpenGL helpers set up the described objects and matrices and report failures",
     "The perspective matrix of a camera maps every point in front of it to twice its focal length times slope over the viewport size, with the near plane at depth -1 and the far plane at 1; the combined matrix is projection times view times model, absent ones left out. "
     "A buffer object holds the given data under the given target and usage until it is freed, and freeing deletes exactly it. A program is made of exactly the two given shader sources, linked and validated, and leaves no shader behind; a failure of any step is a fatal error whose message holds the whole log of the driver and names the shader. "
     "Debug messages of the driver are logged at the level of their severity.",
     ["inputs", "histories", "fault_sequences"], "all cameras, matrices, buffer contents, operation sequences, shader sources and failures of the driver at any step",
     "There are no tests of the OpenGL helpers.",
     [S+"GL/nx_gl_projection.c", S+"GL/nx_gl_buffer.c", S+"GL/nx_gl_program.c", S+"GL/nx_gl_shader.c", S+"GL/nx_gl.c", H+"GL/nx_gl_program.h", H+"GL/nx_gl_buffer.h"],
     [("matrices", S+"GL/nx_gl_projection.c"), ("objects", S+"GL/nx_gl_buffer.c, "+S+"GL/nx_gl_program.c, "+S+"GL/nx_gl_shader.c")])

prop("C43", "The SIFT cache survives crashes, write errors and concurrent use",
     "Whatever earlier requests went through - ended at any byte of their cache entry, refused by a full device, or running at the same time in other processes - a cached SIFT detection or matching request gives exactly the computed result, and a completed request is served from the cache afterwards. "
     "A cache directory that does not exist yet may be made by several processes at once.",
     ["crash_points", "schedules", "fault_sequences"], "all interruption points of cache writes, sequences of failures and simultaneous requests",
     "No test interrupts a cache write or shares a cache directory.",
     [S+"nx_sift_detector.c", S+"nx_filesystem.c"], [("cache files", S+"nx_sift_detector.c"), ("directory", S+"nx_filesystem.c")])

prop("C44", "Repeating any operation leaves no more memory or open files behind",
     "Performing any operation or history of operations of the library any number of times - loading and saving files, good or damaged, building and freeing objects, detecting, matching, estimating, parsing, drawing - and releasing its results as documented leaves no more memory allocated and no more files open than before, and does not crash; operations ended by a fatal error are excepted.",
     ["histories", "inputs"], "all operations with any inputs, repeated",
     "Tests run each operation once and look at no resources.",
     ["src", "include/virg/nexus"], [("releases", "all of src/")])
