#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L, S = "lib/marc/", "src/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)),
              technique, note))


REF = "; reference evaluation in 80-bit arithmetic, tolerances stated in DESIGN.md"
PROJ_WHY = ("The tests build one map per projection on one body and compare a few derived numbers; latitude range, longitude range, rotation "
            "direction, oblateness, map centre and dimensions are all unbounded inputs.")
prop("M01", "Simple cylindrical maps: every pixel shows the documented latitude and longitude",
     "In a simple cylindrical map latitudes (planetographic or planetocentric, as chosen) increase linearly from the lower latitude at the bottom edge "
     "to the higher one at the top edge, and longitudes run linearly between the given limits from left to right in the documented direction for the "
     "body's rotation. Every pixel, of every size of map on every body, is plotted for the latitude and longitude of its centre.",
     ["inputs", "configurations"], "all bodies, rotation directions, latitude types, latitude and longitude limits, map dimensions, all pixels", PROJ_WHY,
     [L + "SimpleCylindrical.cpp", L + "MapFactory_t.cpp", S + "parse.yy"],
     [("SimpleCylindrical::plot_map", L + "SimpleCylindrical.cpp"), ("projection options in the input grammar", S + "parse.yy")],
     ["latitude and longitude planes of the produced FITS file"],
     "runtime oracle over maps made by the ASan/UBSan-built program", "generated entries through the real program, every pixel judged" + REF)
prop("M02", "Mercator maps: every pixel shows the documented latitude and longitude",
     "In a Mercator map the middle row of the map lies on the equator, rows are spaced so that the map is conformal on the oblate body (equal scale along "
     "rows and columns at every latitude), and longitudes run linearly from left to right over the full 360 degrees starting at zero, in the documented "
     "direction for the body's rotation. Every pixel, of every size of map on every body, is plotted for the latitude and longitude of its centre.",
     ["inputs", "configurations"], "all bodies, rotation directions, map dimensions, all pixels", PROJ_WHY,
     [L + "Mercator.cpp", L + "root_find.cpp", L + "MapFactory_t.cpp"],
     [("Mercator::plot_map", L + "Mercator.cpp"), ("inversion of the isometric latitude by root finding", L + "root_find.cpp")],
     ["latitude and longitude planes of the produced FITS file"],
     "runtime oracle over maps made by the ASan/UBSan-built program", "generated entries through the real program, every pixel judged" + REF)
prop("M03", "Polar stereographic maps: every pixel shows the documented latitude/longitude",
     "In a polar stereographic map the chosen pole lies at the centre, the requested (planetographic or planetocentric) latitude lies at the nearest edge, "
     "distances from the centre follow the conformal polar stereographic projection of the oblate body, and longitude turns around the pole in the "
     "documented direction for the pole and the body's rotation. Every pixel, of every size of map on every body, is plotted for the latitude and "
     "longitude of its centre.",
     ["inputs", "configurations"], "all bodies, rotation directions, poles, limiting latitudes of either type, map dimensions, all pixels", PROJ_WHY,
     [L + "PolarStereographic.cpp", L + "root_find.cpp", L + "MapFactory_t.cpp"],
     [("PolarStereographic::plot_map", L + "PolarStereographic.cpp"), ("inversion of the projection by root finding", L + "root_find.cpp")],
     ["latitude and longitude planes of the produced FITS file"],
     "runtime oracle over maps made by the ASan/UBSan-built program", "generated entries through the real program, every pixel judged" + REF)
prop("M04", "Orthographic maps: every pixel shows the documented place on the body or nothing",
     "An orthographic map shows the body as seen from infinity above the given sub-observer latitude and longitude, turned by the position angle, at the given "
     "scale, with the body centre at the given sample and line or with the given latitude and longitude at the centre of the map. Each pixel whose centre lies "
     "on the disc is plotted for the latitude and longitude of the point on the near side of the body, and each pixel off the disc holds no data.",
     ["inputs", "configurations"], "all bodies, rotation directions, sub-observer points, position angles, scales, centres, map dimensions, all pixels", PROJ_WHY,
     [L + "Orthographic.cpp", L + "Mathematics.h", L + "MapFactory_t.cpp"],
     [("Orthographic::plot_map", L + "Orthographic.cpp"), ("quadratic_roots", L + "Mathematics.h")],
     ["latitude and longitude planes of the produced FITS file"],
     "runtime oracle over maps made by the ASan/UBSan-built program", "generated entries through the real program, every pixel judged" + REF)
prop("M05", "Map assembly: each pixel is the source's value or blank, none lost or invented",
     "A map plane has exactly the requested number of pixels, and every one holds either the value its source reported for that place, converted to the map's "
     "data type, or the blank value. A value is left out exactly when the source had no data there, it is not a number, or it lies outside the plane's allowed "
     "data range or what the data type can hold; the recorded minimum and maximum are those of the values that were kept, over all planes made so far.",
     ["inputs", "histories"], "all map data types, blank values, limits, source answers (including NaN, infinities, values at and beside every limit), sequences of planes",
     "The tests map constant or tame images of one data type; limits of six data types against every source answer are never crossed.",
     [L + "MapFactory_t.cpp", L + "MapFactory.h", L + "extrema.h", L + "plot_info.h", L + "Map_traits.h"],
     [("MapFactory::make_map / plot", L + "MapFactory_t.cpp"), ("data range of a plane", L + "MapFactory_t.cpp"), ("plot_info extrema", L + "plot_info.h")],
     ["library boundary: a recording source image, the returned map and the reported extrema"],
     "conservation monitor: recording source stub vs. resulting map, ASan/UBSan", "recorded source answers against map contents (multiset) and extrema, at the library interface")
prop("M06", "Grid images draw exactly the map's latitude and longitude lines",
     "A grid image has the size of its map, and its drawn pixels are those within about a pixel of a latitude line or a longitude line at the requested intervals "
     "under the same projection as the map; every such line that crosses the map is drawn. All other pixels stay empty, and the grid written by the program "
     "accompanies exactly the maps that ask for it.",
     ["inputs", "configurations"], "all projections and their options, bodies, intervals, map dimensions",
     "The tests never look at the content of a grid.",
     [L + "SimpleCylindrical.cpp", L + "Mercator.cpp", L + "PolarStereographic.cpp", L + "Orthographic.cpp", L + "MapFactory.cpp", S + "MapCommand.cpp"],
     [("plot_grid of each projection", L + "*.cpp"), ("grid extension", S + "MapCommand.cpp")],
     ["grid images returned by the library and GRID extensions of produced files"],
     "runtime oracle over grid images, ASan/UBSan", "soundness and completeness of drawn pixels to about one pixel; longitude intervals dividing 360 degrees")
prop("M07", "Progress notifications are monotone, complete and reset once per plane",
     "While a plane is being plotted every observer sees a count that never decreases and never exceeds the size of the map; when the plane is done the count has "
     "reached the size of the map and is followed by exactly one reset. The progress shown on the console therefore reaches 100% for every plane and never passes it.",
     ["histories", "inputs"], "all projections, map sizes, sequences of planes and numbers of observers",
     "Tests attach at most one observer and do not look at the sequence of notifications.",
     [L + "plot_info.h", L + "Notifier.cpp", L + "MapFactory_t.cpp", L + "Orthographic.cpp", S + "ProgressConsole.cpp"],
     [("plot_info::notify_plotted / notify_done", L + "plot_info.h"), ("Notifier", L + "Notifier.cpp"), ("ProgressConsole", S + "ProgressConsole.cpp")],
     ["observer callbacks", "console output"],
     "online trace-specification monitor on observer events, ASan/UBSan", "trace automaton over all notifications of generated plot histories")

prop("G01", "Spheroid radius, latitude conversions and curvature are correct at all latitudes",
     "For every oblate spheroid and latitude, the planetographic and planetocentric latitudes convert into each other as the geometry of the ellipse demands and back "
     "without loss, keep their sign and the poles and equator fixed, and the radius and the radii of curvature at that latitude are those of the ellipse. The body "
     "reports the axes, the flattening-derived quantities and the rotation direction it was made with.",
     ["inputs"], "all axis ratios including spheres and extreme oblateness, all latitudes including poles, equator and their neighbours",
     "Tests check one body at a handful of latitudes.",
     [L + "OblateSpheroid.cpp", L + "OblateSpheroid.h"],
     [("graphic/centric latitude conversions, radius, radii of curvature", L + "OblateSpheroid.cpp")], ["library interface"],
     "runtime oracle (80-bit reference) on the instrumented library", "sampled bodies x latitudes with boundary enrichment" + REF)
prop("G02", "Cosines of emission, incidence and phase angles are correct and within [-1,1]",
     "For every body, observer position, Sun position and surface point, the cosines of the emission, incidence and phase angles are those of the surface normal and "
     "the directions to the observer and the Sun. They never leave [-1, 1] and do not depend on the direction in which longitudes are counted.",
     ["inputs"], "all bodies, observer and Sun positions, ranges from just above the surface to very far, all surface points",
     "Tests check one geometry.",
     [L + "OblateSpheroid.cpp", L + "MuImage.cpp", L + "Mu0Image.cpp", L + "CosPhaseImage.cpp"],
     [("OblateSpheroid::mu / mu0 / cos_phase", L + "OblateSpheroid.cpp")], ["library interface"],
     "runtime oracle (80-bit reference) on the instrumented library", "sampled configurations with boundary enrichment" + REF)
prop("G03", "A line of sight meets the body at the nearest surface point, or misses it",
     "For every observer outside a body and every direction, a line of sight that meets the body yields the latitude and longitude of the intersection nearest to the "
     "observer, and a line of sight that does not meet it is reported as a miss. No line of sight, grazing ones included, makes the program fail.",
     ["inputs"], "all bodies, observer positions outside the body and directions",
     "Tests do not exercise the intersection beyond one geometry.",
     [L + "OblateSpheroid.cpp", L + "Mathematics.h"],
     [("OblateSpheroid::ellipse_intersection", L + "OblateSpheroid.cpp"), ("quadratic_roots", L + "Mathematics.h")], ["library interface"],
     "runtime oracle (80-bit reference) on the instrumented library", "sampled lines incl. grazing, axis-parallel and degenerate ones" + REF)
prop("G04", "Image position and surface point correspond exactly; hidden points are not seen",
     "For every viewing geometry the image position of a surface point is where a pinhole camera at the given distance, pointing, position angle, scale and body centre "
     "sees it, and the surface point found for an image position is the near one that projects there. A point is visible exactly when its emission angle is within "
     "the limit (and, when asked, it is on the day side), and a pixel belongs to the disc exactly when its line of sight meets the body.",
     ["inputs", "configurations"], "all bodies, ranges, sub-observer and sub-solar points, position angles, body centres, optical axes, scales by focal length or arcseconds or kilometres per pixel, all points",
     "Tests check a constructed geometry or two; the transformation matrices have several branches and two candidate solutions that depend on the geometry.",
     [L + "ViewingGeometry.cpp", L + "ViewingGeometry.h", L + "PhotoImageParameters.cpp", L + "OblateSpheroid.cpp"],
     [("ViewingGeometry::latlon2pix / pix2latlon / is_visible", L + "ViewingGeometry.cpp"), ("rot_matrices", L + "ViewingGeometry.cpp")], ["library interface"],
     "runtime oracle (pinhole camera, 80-bit) on the instrumented library", "sampled geometries and points; ambiguous orientations skipped and counted" + REF)

prop("A01", "Numeric building blocks: roots, root finding, rotations, vectors and matrices",
     "Quadratic equations yield exactly their real roots to working accuracy for coefficients of any sign and magnitude, including double and zero roots; root finding "
     "converges to a root inside the given interval or reports failure. Rotations keep lengths and angles and turn by the given angle about the given axis, and vector "
     "and matrix operations follow linear algebra.",
     ["inputs"], "all coefficients, angles, vectors, matrices, monotone functions and brackets",
     "Tests use a few round numbers; cancellation, double roots, overflow and Newton steps leaving the bracket need special inputs.",
     [L + "Mathematics.h", L + "root_find.cpp", L + "Geometry.cpp", L + "Vector.h", L + "Matrix.h", L + "utility.h"],
     [("quadratic_roots", L + "Mathematics.h"), ("root_find", L + "root_find.cpp"), ("RotX/RotY/RotZ", L + "Geometry.cpp")], ["library interface"],
     "runtime oracle (exact rational / 80-bit) on the instrumented library", "sampled operands with boundary enrichment" + REF)
prop("A02", "Extrema equal the least and greatest value of the history that produced them",
     "A pair of extrema that was given values, set from limits, updated from other extrema, copied or reset in any order holds the least and the greatest of the values "
     "it has seen since its last reset. It reports being valid exactly when it has seen any, and impossible limits are refused.",
     ["histories", "inputs"], "all sequences of operations and values, of all data types, including special values",
     "Tests run a few fixed histories.",
     [L + "extrema.h"], [("extrema<T>::update / reset / assignment", L + "extrema.h")], ["library interface"],
     "history checker (model of set of seen values) on the instrumented library", "random operation histories compared step by step with a reference")

IW = ("The tests read a tiny constant image; the value at each pixel depends on geometry, orientation, nibbling, sky removal, interpolation and limits together.")
prop("I01", "Photo planes show, at each place, the source pixel that saw it, or no data",
     "Every pixel of a photo plane holds the value of the source image pixel in which a camera with the given geometry saw that place of the body. It holds no data when "
     "the place is hidden, beyond the emission angle limit, beyond the terminator when that is requested, outside the image after nibbling its edges, or (with sky "
     "removal) in a pixel off the disc, and when the source pixel is blank or undefined.",
     ["inputs", "configurations"], "all viewing geometries, source data types and values, image sizes, nibbles, limits, projections", IW,
     [L + "PhotoImage.cpp", L + "PhotoImageParameters.cpp", L + "ViewingGeometry.cpp", S + "PhotoImageFactory.cpp"],
     [("PhotoImage::read_data", L + "PhotoImage.cpp"), ("PhotoImageFactory::make", S + "PhotoImageFactory.cpp")], ["photo planes of produced FITS files"],
     "end-to-end runtime oracle on the ASan/UBSan-built program", "every pixel of generated maps against an independent camera model; pixels at decision boundaries accept either side")
prop("I02", "Interpolated photos: bilinear mean of the valid neighbouring source pixels",
     "With interpolation every mapped value is the bilinear combination of the four source pixels around the image position, with the weights of the fractional position. "
     "Undefined neighbours never contribute (the others' weights make up for them), the result never leaves the range of the contributing pixels, and there is no data where one of the four lies outside the "
     "usable part of the image.",
     ["inputs", "configurations"], "all image positions including edges, nibbles, sky masks, undefined pixels", IW,
     [L + "BilinearInterpolation.cpp", L + "PhotoImage.cpp"], [("BilinearInterpolation::interpolate", L + "BilinearInterpolation.cpp")], ["photo planes of produced FITS files"],
     "end-to-end runtime oracle on the ASan/UBSan-built program", "every pixel of generated maps against an independent evaluation")
prop("I03", "Inverted sources are mirrored exactly; flat fields subtracted pixel by pixel",
     "Vertical, horizontal and combined inversion of a source image mirror its lines, samples or both, whatever the image's size, and doing so twice restores it. A flat "
     "field of the same size is subtracted pixel by pixel from the image as stored in its file, before any mirroring, and one of another size is refused.",
     ["inputs", "configurations"], "all image sizes (odd, even, 1 line wide), contents, combinations of options", IW,
     [S + "PhotoImageFactory.cpp", L + "utility.h"], [("invert_samples / invert_lines", L + "utility.h"), ("flat fielding", S + "PhotoImageFactory.cpp")],
     ["library interface and photo planes of produced FITS files"],
     "runtime oracle on the instrumented library and program", "exact comparison of mirrored buffers, every pixel of generated maps")
prop("I05", "Mosaics combine exactly the photos that see a place, by the chosen rule",
     "Each pixel of a mosaic holds the plain mean, the mean weighted by each photo's distance of the source pixel from the edges of its data, or the first available value, "
     "as chosen, of the values that the photos showing that place have there. Photos without data at a place never influence it and their order matters only for the "
     "first-available rule.",
     ["inputs", "configurations"], "all numbers of photos, geometries, overlaps, averaging rules, data types", IW,
     [L + "MosaicImage.cpp", L + "unweighted_average.cpp", L + "weighted_average.cpp", L + "first_read.cpp", L + "PhotoImage.cpp", S + "MosaicImageFactory.cpp"],
     [("MosaicImage::read_data", L + "MosaicImage.cpp"), ("compositing strategies", L + "*_average.cpp")], ["mosaic planes of produced FITS files"],
     "end-to-end runtime oracle on the ASan/UBSan-built program", "every pixel of generated mosaics against an independent evaluation")
prop("I06", "Computed planes hold the true latitude, longitude or angle cosine at every pixel",
     "Planes of latitude (planetographic or planetocentric), longitude, and cosines of the emission, incidence and phase angles hold, at every mapped pixel, the true value of "
     "the quantity for the place shown there, up to the rounding of the map's data type. Several planes in one map do not influence each other.",
     ["inputs", "configurations"], "all projections, bodies, observer and Sun positions, data types, combinations of planes",
     "Tests compute single values for a sphere-like body and never through the program.",
     [L + "LatitudeImage.cpp", L + "LongitudeImage.cpp", L + "MuImage.cpp", L + "Mu0Image.cpp", L + "CosPhaseImage.cpp", L + "VirtualImage.cpp", S + "MapCommand_t.cpp"],
     [("VirtualImage::read_data", L + "VirtualImage.cpp"), ("virtual image factories", S + "*ImageFactory.cpp")], ["planes of produced FITS files with recorded scaling"],
     "end-to-end runtime oracle on the ASan/UBSan-built program", "every pixel of generated maps" + REF)
prop("I07", "Computed quantities fit integer maps and can be recovered from them",
     "When computed quantities go into integer maps they are scaled by a power of ten and offset such that every possible value fits the data type, and as many digits are kept as the type allows. "
     "The value recovered through the recorded scaling differs from the true one by no more than the last digit kept; floating point maps are not scaled.",
     ["inputs", "configurations"], "all data ranges and data types",
     "Tests cover some ranges of one type.",
     [L + "scale_and_offset.h", L + "VirtualImage.cpp", S + "MapCommand_t.cpp"], [("scale_and_offset", L + "scale_and_offset.h")], ["library interface and planes of produced files"],
     "runtime oracle (exact rational) on the instrumented library and program", "sampled ranges and produced maps, exact arithmetic")

prop("F01", "Produced files are conforming, complete and self-describing FITS files",
     "Every file the program reports as made is a conforming FITS file: whole blocks, well-formed cards, mandatory keywords in order, the requested dimensions, planes and data type, "
     "correct checksums, and descriptive keywords and history telling body, projection and sources. Writing planes or pieces one after the other stores exactly what was written in that "
     "order, and writing more than fits is refused.",
     ["inputs", "histories"], "all map entries; all histories of writes",
     "Tests check that a file can be written; nobody parses it back independently.",
     [S + "FITS_file.cpp", S + "FITS_image.cpp", S + "FITS_image_t.cpp", S + "MapCommand.cpp", S + "MapCommand_t.cpp"],
     [("output_image::write", S + "FITS_image_t.cpp"), ("MapCommand::execute", S + "MapCommand.cpp")], ["bytes of produced files (own FITS parser)"],
     "offline checker of produced files (own FITS parser), ASan/UBSan", "generated entries and write histories, byte level checks")
prop("F02", "The header tells which stored values are data and what they mean",
     "Reading a map by the FITS rules gives the physical values: blanks are exactly the pixels without data (the recorded blank value in integer maps, not-a-number in floating point maps), recorded "
     "scale and zero turn stored values into physical ones, and recorded minimum and maximum are those of the stored data; in grid images the drawn lines are data and everything else is blank. A blank value the user gives is honoured and recorded, or refused.",
     ["inputs", "configurations"], "all data types, blank values, data ranges, kinds of planes",
     "Tests do not read keywords of produced maps.",
     [S + "MapCommand_t.cpp", S + "MapCommand.cpp", S + "map_parameters.cpp", S + "FITS_image_t.cpp", L + "MapFactory_t.cpp"],
     [("make_map_planes", S + "MapCommand_t.cpp"), ("blank / bscale / bzero", S + "FITS_image_t.cpp")], ["header and data of produced files"],
     "offline checker of produced files against reference values, ASan/UBSan", "generated maps; every pixel and the recorded keywords")
prop("F03", "Source images are decoded as the FITS standard says, or refused",
     "Every source image in a FITS file, of any data type, scaling, blank value, with undefined pixels, as a cube, with extensions, or compressed, is read as exactly the physical values and descriptive "
     "keywords the standard assigns to it. Files that are damaged or unsuitable are refused rather than misread, and a source whose recorded checksum does not match is reported to the user.",
     ["inputs"], "all conforming image files, all truncations and damages",
     "Tests read one file written by themselves.",
     [S + "FITS_file.cpp", S + "FITS_image.cpp", S + "PhotoImageFactory.cpp"], [("input_image / data()", S + "FITS_image.cpp"), ("input_file", S + "FITS_file.cpp")], ["values returned by the reader"],
     "runtime oracle: independently encoded files vs. the instrumented reader", "generated files with known content, exact comparison")
prop("F04", "User-supplied map parameters win; missing ones come from the sources",
     "An author, origin, body name, data type, blank value or data limit given in the map entry is what the map has. What the entry leaves out is taken from the source images: author and origin from the first "
     "that states it, the blank value from the sources that state it, the data type wide enough for all of them, data limits from each image for its own plane; what no source states is absent.",
     ["inputs", "configurations"], "all combinations of given and missing parameters, numbers of sources, source headers",
     "Tests exercise a few merges of parameter sets.",
     [S + "map_parameters.cpp", S + "map_parameters.h", S + "MapCommand.cpp", S + "MosaicImageFactory.cpp", S + "PhotoImageFactory.cpp"],
     [("map_parameters::merge", S + "map_parameters.cpp"), ("populate_map_parameters", S + "*Factory.cpp")], ["headers and data of produced files"],
     "end-to-end runtime oracle on the ASan/UBSan-built program", "generated entries and source headers against the documented precedence")

prop("S01", "Numeric expressions in input files evaluate as mathematics says",
     "Wherever a number is expected, an arithmetic expression of numbers, operators, parentheses and functions has the value that the usual precedence and associativity (with unary minus "
     "and right-associative powers) give it. Ill-formed, undefined or infinite expressions are refused.",
     ["inputs", "programs"], "all expressions",
     "No test parses an expression with more than one operator.",
     [S + "parse.yy", S + "lexer.ll", S + "calc.cpp"], [("calculator grammar", S + "parse.yy"), ("function table", S + "calc.cpp")], ["value recovered from the map that uses it"],
     "differential runtime oracle: expression trees vs. the sanitized program", "random expression trees, value read back from produced maps")
prop("S02", "Units, hemispheres, letter case, order and layout do not change the meaning",
     "Latitudes with N or S, longitudes with E or W, latitudes marked planetographic or planetocentric and distances in KM or AU mean the documented quantity. The order of "
     "independent options, letter case of keywords where allowed, blanks and comments never change a map.",
     ["inputs", "programs"], "all spellings of an entry",
     "The tests' input files use one spelling.",
     [S + "parse.yy", S + "lexer.ll"], [("latitude / longitude / distance rules", S + "parse.yy"), ("keywords and comments", S + "lexer.ll")], ["planes of produced files"],
     "metamorphic runtime oracle on the ASan/UBSan-built program", "entries written at random in different spellings, planes against the reference meaning")
prop("S03", "A map does not depend on the other entries processed with it",
     "Each map entry produces the same file whether it is processed alone or with others, in whatever order, from one input file or several. Settings of one entry or image never leak into another.",
     ["histories", "inputs"], "all sequences of entries and their distribution over files",
     "The tests process single entries; the parser keeps global state between entries.",
     [S + "parse.yy", S + "parse_scan.cpp", S + "marc.cpp", S + "MapCommand.cpp"], [("per-entry re-initialisation of parser state", S + "parse.yy")], ["produced files"],
     "metamorphic monitor: alone vs. together vs. permuted, ASan/UBSan", "generated sets of entries, files compared byte for byte apart from dates")
prop("S04", "User configuration sets defaults exactly where an entry says nothing",
     "Defaults from the user's configuration file (found in the documented place) apply to every entry that does not say otherwise and to none that does; the result is the map that the entry with the "
     "defaults written out would give. A broken configuration is reported and no map is made with it.",
     ["configurations", "inputs"], "all configurations and places, all entries",
     "No test uses a configuration file.",
     [S + "parse.yy", S + "marc.cpp", S + "command_line.cpp"], [("user default rules", S + "parse.yy"), ("configuration file lookup", S + "marc.cpp")], ["produced files"],
     "metamorphic monitor: configured vs. written out, ASan/UBSan", "generated configurations and entries, files compared")
prop("S05", "Failures are reported, and touch nothing they should not",
     "The program ends with status zero exactly when every requested map was written completely; on any failure (bad input, missing or unsuitable source, output that cannot be created, full disk at any byte) it "
     "ends with another status and a message. Input errors are found before anything is made, source files are never changed, and only the named files appear.",
     ["fault_sequences", "crash_points", "inputs"], "all errors at all places of all inputs; disk full after every number of bytes",
     "Tests never fail on purpose beyond a missing file.",
     [S + "marc.cpp", S + "MapCommand.cpp", S + "MapCommand_t.cpp", S + "FITS_file.cpp", S + "parse_scan.cpp"],
     [("main", S + "marc.cpp"), ("MapCommand::execute", S + "MapCommand.cpp"), ("FITS error reporting", S + "FITS_file.cpp")], ["exit status, messages, directory contents before and after"],
     "fault injection with file-system monitor on the real program", "injected input errors, unwritable outputs, file size limits (disk full) at varying bytes")
prop("S06", "Results depend on the input alone",
     "Running the same input again produces the same map, whatever uninitialised memory happened to contain, and whatever the time zone, locale, working directory, environment or earlier files of the same name. "
     "No decision is taken on a value that was never set.",
     ["configurations", "inputs"], "all inputs, environments and memory contents",
     "Tests run each case once in one environment.",
     [S + "marc.cpp", S + "MapCommand.cpp", L + "MapFactory_t.cpp", S + "parse.yy"], [("initialisation of all state", S + "*")], ["produced files"],
     "differential monitor (zero/pattern-initialised builds, perturbed heap) and memcheck", "each entry run under several perturbations, plus Valgrind memcheck on a subset")
prop("S07", "Values outside their documented domain are refused, values inside accepted",
     "Latitudes, longitudes, angles, radii, distances, scales, sizes, nibbles, intervals and data limits outside the domain documented for the option are refused with an error and no map is made. "
     "Values inside the domain, its boundary included, are accepted.",
     ["inputs", "configurations"], "all options with all values at, beside and beyond the limits of their domain",
     "Tests check very few invalid values and only at the library interface.",
     [S + "parse.yy", L + "Validate.h", L + "ViewingGeometry.cpp", L + "Mercator.cpp", L + "PolarStereographic.cpp", L + "Orthographic.cpp"],
     [("domain checks in the grammar and constructors", S + "parse.yy"), ("validate_*", L + "Validate.h")], ["exit status and existence of the map"],
     "boundary-value runtime oracle on the ASan/UBSan-built program", "table of options x boundary values on generated entries")
prop("C01", "No input makes the program touch foreign memory, hit undefined behaviour or die",
     "Whatever bytes the input file and the source images contain, the program only accesses memory it owns, never executes undefined behaviour, and ends by itself with an exit status. It never aborts, is never "
     "killed by a signal and never fails an internal assertion.",
     ["inputs", "programs"], "all input files and image files",
     "Tests feed a handful of well-formed inputs.",
     [S + "parse.yy", S + "lexer.ll", S + "FITS_image.cpp", S + "PhotoImageFactory.cpp", L + "PhotoImage.cpp", L + "BilinearInterpolation.cpp", L + "Orthographic.cpp", L + "ViewingGeometry.cpp"],
     [("bounds and domain checks throughout", S + "*, " + L + "*")], ["ASan/UBSan/assertion reports, signals, exit status"],
     "AddressSanitizer + UBSan under mutation fuzzing of entries and images", "mutated entries, extreme numbers, hostile geometries and damaged images")

exec(open(os.path.join(V, "tools", "extra_props.py")).read()) if os.path.exists(os.path.join(V, "tools", "extra_props.py")) else None
P.sort(key=lambda x: x[0]["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="python3-vt -m vf.build",
         checks=[dict(property=p["id"], quick_cmd="python3-vt check.py " + p["id"],
                      thorough_cmd="VERIF_TIER=thorough python3-vt check.py %s thorough" % p["id"],
                      evidence_file="evidence/%s.json" % p["id"], technique=t, level="exploration", level_note=n) for p, t, n in P],
         not_applicable=[])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties")
