#!/usr/bin/env python3
"""writes /verif/properties.jsonl from the table below (kept here so that the
file stays one reviewed source)"""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))


T, IO, IT, UT, CLI = ("raytools/translate.py", "raytools/io.py", "raytools/imagetools.py",
                      "raytools/utility.py", "raytools/cli.py")
MP, AM, VM, SV, PV = ("raytools/mapper/mapper.py", "raytools/mapper/angularmixin.py",
                      "raytools/mapper/viewmapper.py", "raytools/mapper/solidviewmapper.py",
                      "raytools/mapper/perspectiveviewmapper.py")
BM, MS, CM, PI, RT, GS = ("raytools/evaluate/basemetricset.py", "raytools/evaluate/metricset.py",
                          "raytools/evaluate/colormetricset.py", "raytools/evaluate/positionindex.py",
                          "raytools/evaluate/retina.py", "raytools/evaluate/hvsgsm.py")

p("C01", "Library calls leave the caller's data untouched",
  "Calling any coordinate, view-mapping, statistics, metric, image-array or file-writing function leaves the "
  "arrays and lists the caller passed in exactly as they were, so repeating the call with the same arguments "
  "gives the same result. The only exception is an image array handed over explicitly to be drawn on.",
  ["inputs", "histories"], "all argument values (any array rank/dtype/contiguity, list or array), every public function and method",
  "Tests pass fresh literals or never look at the argument again; in-place updates only show for 2-D float arrays that are reused.",
  [T, MP, AM, VM, SV, PV, BM, MS, CM, PI, RT, GS, IT, IO],
  [("numpy expressions build new arrays; in-place operators only on values the function itself allocated", "all modules"),
   ("np.copy before masking pixels", "raytools/imagetools.py:normalize_peak")])

p("C02", "Metric values do not depend on request history",
  "The value returned for a metric is the same whichever other metrics were requested before, in whichever order and "
  "however often, and whichever other metric sets were created or evaluated in between.",
  ["histories"], "all sequences of metric requests over any number of live metric sets",
  "Tests request each list once on one object; caching errors need a particular order or two interleaved objects.",
  [BM, MS, CM], [("property + lru_cache keyed on the instance", BM), ("constructor fixes vec, lum, omega before any cached quantity is read", BM)],
  state=[("_vec/_lum/_omega/view_area/scale", "inputs all cached metrics derive from", BM)],
  observe=["metric properties", "metricset()"])

p("C03", "Metrics depend on pixel values only through pixel value times scale",
  "Multiplying every pixel value by a positive factor and dividing the luminance scale by the same factor leaves every "
  "metric of every metric set, the glare source/background classification and the choice of peak (sun) pixels "
  "unchanged, for fixed and task-relative thresholds and for luminance and colour data.",
  ["inputs", "configurations"], "all pixel data, scales, thresholds (both kinds), luminance and colour sets",
  "A sample fixes scale=179 and one threshold mode; a missing or doubled scale factor in a rarely used metric or mode is invisible.",
  [BM, MS, CM, IT], [("every luminance is multiplied by scale once before being compared or returned", "raytools/evaluate/metricset.py"),
                     ("peakt / scale", "raytools/imagetools.py:find_peak")])

p("C04", "Metrics weight rays by solid angle only",
  "Replacing a ray by several coincident rays of the same luminance whose solid angles add up to the original's leaves every "
  "metric unchanged, except the ones defined on plain ray counts (ray density, unweighted average ray luminance).",
  ["inputs"], "all ray sets, all subdivisions, all metrics of all metric sets and options",
  "Reference values are for one image with one sampling; a wrong power of omega or an unweighted mean is fitted into the reference or rescued by equal pixel sizes.",
  [BM, MS, CM], [("sums of luminance expressions weighted by omega", "raytools/evaluate")])

p("C05", "Safe-to-sum metrics are additive over ray groups",
  "Every metric a metric set declares safe to sum can be computed separately for disjoint groups of rays of a view (with a "
  "given view area) and added, giving the value for all rays together.",
  ["inputs", "configurations"], "all partitions of all ray sets, every metric in the declaration of every metric set",
  "No test sums partial metric sets; adding a name to the set or changing a formula to a ratio breaks it silently.",
  [BM, MS, CM], [("safe2sum class tables", "raytools/evaluate/*metricset.py"), ("check_safe2sum", BM)])

p("C06", "Every advertised metric exists, and only those are accepted",
  "Every metric name a metric set advertises, lists as default or declares safe to sum, and every name the command line help "
  "offers, is implemented by that set with values of consistent structure. A name that is not advertised is rejected "
  "with an error before any metric is computed, at construction and at call.",
  ["inputs", "configurations"], "every name in every table of every metric set class, every inherited metric; all requested name lists",
  "Tests evaluate the luminance set only; the colour set's inherited metrics and the CLI list are never enumerated.",
  [BM, MS, CM, CLI, IT], [("allmetrics/defaultmetrics/safe2sum tables", "raytools/evaluate"), ("check_metrics", BM)])

p("C07", "Results stay inside their defined ranges",
  "For every input without NaNs: DGP never exceeds 1, UGR is never negative, UGP lies in [0, 1], the low-light factor never raises DGP, "
  "Guth position indices lie in (0, 16], cosines lie in [-1, 1] and angles in [0, 180] degrees, normalised spherical angles in "
  "[0, pi) and [0, 2 pi), serialised square indices inside the grid, sun-blur factors are at least 1 and "
  "eccentricities and receptor responses stay within their model limits.",
  ["inputs"], "all inputs including rounding excursions (cosine of 1+eps), horizon/behind-view directions, zero and huge luminance",
  "Clips and caps only act on extreme inputs that the reference image does not contain.",
  [MS, BM, AM, T, PI, RT, GS], [("np.minimum / np.maximum / np.clip / np.mod", "raytools")])

p("C08", "Angles are in the documented unit everywhere",
  "Every angle is used in the unit it is documented in: degree-valued inputs (view angle, task radius, rotation, altitude/azimuth) are converted exactly once "
  "before trigonometry, degree results are the radian results times 180/pi, and angles are only compared or added in the same unit.",
  ["inputs", "configurations"], "all angle values and all call paths, both unit options",
  "Tests use a few special angles (180 degree views, right angles), for which several wrong conversions agree.",
  [T, AM, VM, SV, PV, BM, MS, PI, RT, GS, IT], [("* np.pi / 180 conversions", "raytools")])

p("C09", "World and view frames are never confused",
  "For every view direction, rotating world vectors to the view and back is the identity, and each public conversion crosses between world and view frame "
  "exactly once: rays for pixels, square or image coordinates are world directions, and image/square coordinates and position indices of a world "
  "direction are taken relative to the view.",
  ["inputs", "configurations"], "all view directions, vectors, mapper classes and conversions",
  "Most tests use views where a missing or doubled rotation still passes (axis-aligned, or only radial quantities are compared).",
  [MP, AM, VM, SV, PV, PI, IT, BM], [("world2view/view2world with transposed matrices in swapped order", MP), ("rmtx_yp", T)])

p("C10", "HDR writing and reading preserve layout",
  "Writing an array as HDR image and reading it back yields the same orientation, axis order, channel order and pixel positions for greyscale and colour and "
  "for every non-square size, and both directions exchange samples with the Radiance programs in the same binary encoding.",
  ["inputs", "configurations"], "all array shapes (x != y), 2-d and 3-channel, all four reader/writer pairs",
  "Tests use symmetric content or check the written file only with the matching reader for a few sizes.",
  [IO], [("pvalue flags, axis flips and transposes in writer and reader", "raytools/io.py:array2hdr,carray2hdr,hdr2array,hdr2carray")])

p("C11", "File names and header text reach external programs verbatim",
  "Any image path and any header text is handed to the external Radiance programs as exactly one argument, whatever characters it contains (spaces, quotes, "
  "shell or pipe characters), on reading, writing, header and view queries.",
  ["inputs"], "all path and header strings, all entry points that start an external program",
  "Tests only use plain lower-case file names.",
  [IO, IT], [("argument vectors for Popen", IO)])

p("C12", "Image files are complete when the writer returns, and failures surface",
  "When an image-writing call returns, the program producing the file has finished, and its output went to the requested file (or standard output if none). "
  "Unreadable, missing or non-HDR input raises an error that carries the external program's message instead of returning data.",
  ["fault_sequences", "schedules"], "all timings of the external process, all missing/corrupt inputs",
  "The races and fault paths do not occur with small local files in a test run.",
  [IO, IT], [("Popen.communicate before return", IO), ("error text checks", "raytools/io.py:hdr_header")])

p("C13", "Image conversions never overwrite their input by default",
  "When no output name is given, every image conversion derives a name that differs from the input image for every option combination, writes exactly to the "
  "name it returns, and writes to standard output only when that was requested.",
  ["inputs", "configurations"], "all input names ending in an extension, all option combinations",
  "Tests only run two conversions with default options.",
  [IT, GS], [("suffix construction", "raytools/imagetools.py:hdr_*")])

p("C14", "Parallel mapping equals the sequential loop",
  "Mapping a function over arguments gives one result per argument, in argument order, with the same call arguments in sequential, thread and process mode, "
  "for every completion order; an exception in any call is raised to the caller.",
  ["schedules", "inputs"], "all completion orders, worker modes, expansion modes, failing calls",
  "Tests cannot force completion orders and use commutative results.",
  [UT], [("futures gathered in submission order", "raytools/utility.py:pool_call")])

p("C15", "Images in a batch are evaluated independently",
  "The glare score and metrics of an image do not depend on which other images are in the same batch, nor on their order or on how the work is "
  "distributed: everything derived from an image is recomputed for it and nothing is shared between concurrent evaluations.",
  ["histories", "schedules"], "all image sequences, batch compositions and worker distributions",
  "Tests evaluate a single image per object.",
  [GS, IT, CLI, UT], [("lum setter recomputes image state", "raytools/evaluate/hvsgsm.py:GSS.lum"), ("process pool isolates the shared GSS", "raytools/evaluate/hvsgsm.py:gss_compute")])

p("C16", "Command line options take effect and mean what the library means",
  "Every option of every command reaches the computation it documents under the same meaning, for single and multiple images alike, "
  "no option is silently dropped or swapped, and an option that is left out means what the library's default means (unless the command "
  "documents its own default).",
  ["configurations"], "all option combinations of all commands",
  "There is no CLI test; options are swallowed silently by catch-all keyword parameters.",
  [CLI, IT], [("explicit keyword forwarding", CLI)])

p("C17", "Calls leave process-wide state as they found it",
  "No library call leaves process-wide state changed on return: numpy error handling, warning filters, print options, random seeds, working directory and the "
  "environment are as before, except for the documented process-cap setters and the import-time search path.",
  ["histories"], "all functions, all prior settings of the process",
  "Tests never compare global state before and after; leaks only change warnings elsewhere.",
  [T, AM, VM, SV, PV, BM, CM, GS, IO, "raytools/__init__.py"], [("np.errstate / catch_warnings scopes", "raytools")])

p("C18", "Results are deterministic; jitter is opt-in and stays in its cell",
  "Every result is a function of its arguments: randomness is used only when a jitter option is active, and a jittered coordinate stays inside "
  "the grid cell or pixel it represents.",
  ["inputs", "configurations"], "all arguments and jitter rates in [0, 1]",
  "Repeated-run equality is not tested; jitter is tested for one rate on one mapper.",
  [MP, VM, T, IT], [("jitter guards and bounded uniform offsets", "raytools/mapper")])

p("C19", "Changing a view or image refreshes everything derived from it",
  "After assigning a new view direction to a mapper, a new aspect to a plain mapper, or a new view or image to a glare model, every later "
  "result equals that of a fresh object built with the new value.",
  ["histories"], "all sequences of assignments and queries on mappers and glare models",
  "Tests construct objects once and rarely assign.",
  [MP, VM, GS], [("property setters recompute derived state", "raytools/mapper, raytools/evaluate/hvsgsm.py")],
  state=[("_rmtx, _ivm, _chordfactor, area", "derived from view", VM), ("_omega, _mask, _ctheta, _sigma_c, _ecc", "derived from view and image", GS)])

p("C20", "Images without optional metadata get the documented defaults",
  "An HDR image without a view or without luminance coefficients in its header is processed as a 180 degree view with the standard "
  "Radiance coefficients by every entry point, instead of failing.",
  ["inputs"], "all images with/without view and coefficient header lines, all metrics, all entry points",
  "The test image has a view, and tests with explicit coefficients or luminance metrics avoid the missing case.",
  [IT, GS, CM], [("None checks after header parsing", "raytools/imagetools.py")])

p("C21", "Invalid requests are rejected before any effect",
  "Invalid settings are refused with the documented exception before any state or file is touched: view angles out of range for "
  "a projection, process caps that are not integers, quantiles outside [0, 1], scores requested before an image is set, text that is not "
  "a loadable table, and view files without a usable view.",
  ["inputs", "histories"], "all invalid values and call orders",
  "Tests probe one or two invalid values of some of these.",
  [SV, PV, IO, T, GS, IT], [("guards raising at function entry", "raytools")])

p("C22", "Metrics and models implement their published formulas",
  "DGP (with low-light correction), DGP terms, UGR, UGP, contrast ratios, illuminance and background/task luminance, Guth and Kim "
  "position indices, the glare sensation model's equations, retinal point-spread terms and RGBE/luminance conversions equal the published "
  "formula for every input and every option.",
  ["inputs", "configurations"], "all inputs, all options (low light, Guth/Kim, threshold modes)",
  "Reference values pin one image with default options only; other branches are never evaluated.",
  [BM, MS, CM, PI, GS, RT, IO], [("closed-form expressions", "raytools/evaluate")])

p("C23", "Resampling uses one pixel-centre convention",
  "Re-projecting, rotating or centring an image samples the source at pixel centres in the same convention the pixel rays use, so a transformation that "
  "does not move a direction returns that pixel's own value.",
  ["inputs"], "all image sizes, view angles, angles, interpolation modes",
  "Image transforms are only compared through percentiles; rotation has no test.",
  [IT, VM, MP, AM], [("pixel centres at index + 0.5", "raytools/mapper/mapper.py:pixels, viewmapper.py:transform_to, imagetools.py:array_rotate")])

p("C24", "A view survives its header line",
  "The view line an angular mapper produces and the view read back from a header agree on direction, view angle, view point and projection for every "
  "view, with no loss of precision; for equisolid views, which Radiance cannot name, they agree on direction, angle and view point.",
  ["inputs"], "all view directions, angles and view points",
  "One header string is compared literally for one axis-aligned view.",
  [AM, IT, MP], [("header format string / flag parser", "raytools/mapper/angularmixin.py:header, raytools/imagetools.py:hdr2vm")])

p("C25", "Per-ray and per-sample data stay paired",
  "Direction, solid angle, luminance, colour and position index of a ray (and coordinates, values and weights of a sample) always stay paired through every masking, "
  "sorting, culling and grouping step, and results are returned in the order of the input samples.",
  ["inputs"], "all orders of rays/samples, all masks",
  "Test data is sorted, symmetric or only summed, so a mis-pairing of equal length does not show.",
  [BM, MS, CM, IT, T], [("the same mask/order index applied to all companion arrays", "raytools")])

p("C26", "Colour and luminance metric sets agree",
  "For the same view and rays, every metric of the luminance metric set has the same value in the colour metric set when its luminance "
  "is the weighted sum of the colour channels, for every option.",
  ["inputs", "configurations"], "all inputs, options and channel weights",
  "The colour metric set has no test.",
  [CM, MS, BM, IO], [("overrides that only unpack an additional colour value", CM)])

p("C27", "Parallel implementations of one mapping agree",
  "Where the package offers the same mapping through several routes, they give equal results for every input: the equisolid helpers of a plain view and the dedicated equisolid view, "
  "angle and cosine functions of angular views and of free vectors, and the disk and sphere forms of the square mapping.",
  ["inputs"], "all inputs for each pair of routes",
  "Each route is tested separately, at most by a statistical image comparison.",
  [VM, SV, AM, T], [("duplicated formulas", "raytools/mapper/viewmapper.py, solidviewmapper.py, raytools/translate.py")])

p("C28", "Paired closed-form conversions are inverse to each other",
  "Chord/angle, altitude-azimuth/direction angles, the eye spread function and its inverse, equisolid/equiangular radii, and grid index/"
  "cell coordinate conversions invert each other on their domain.",
  ["inputs"], "all values in the domain of each pair",
  "Round trips are sampled on coarse grids for some pairs and not at all for the others.",
  [T, RT, SV, VM], [("paired functions", "raytools/translate.py, retina.py, solidviewmapper.py")])

p("C29", "Visual field quadrants select their own meridians",
  "The density at a visual field position is interpolated from the two meridians that bound its quadrant: the horizontal meridian "
  "is chosen by the horizontal coordinate and the vertical meridian by the vertical coordinate.",
  ["inputs"], "all visual field positions", "Tests compare quantiles over the whole symmetric field.",
  [RT], [("meridian index selection", "raytools/evaluate/retina.py:rgcf_density_xy")])

p("C30", "Square/sphere mapping is a numerically exact round trip",
  "Mapping directions to the unit-square parametrisation and back returns the same direction to floating point accuracy: for the "
  "upper hemisphere in every handedness, and for both hemispheres in the handedness views use.", ["inputs"], "all directions", "Sampled on grids.", [T, AM], [("uv2xyz / xyz2uv", T)])

p("C31", "Pixel solid angles sum to the view's solid angle",
  "The solid angles of the pixels inside a view add up to the solid angle of the view, up to discretisation error.",
  ["inputs"], "all view angles and resolutions", "Sampled for one resolution and angle.", [AM, VM], [("pixel2omega", AM)])

p("C32", "Peak normalisation preserves energy",
  "Consolidating peak pixels into one source keeps the luminance-weighted solid angle of the replaced pixels, for full and partially visible suns "
  "and with eye blur.", ["inputs"], "all images and peak parameters", "One image, illuminance compared.", [IT], [("find_peak / normalize_peak", IT)])

p("C33", "Header cleaning is idempotent and keeps information",
  "Cleaning a header twice gives the same result as once, and keeps every distinct record and the last view.",
  ["inputs", "histories"], "all header texts", "Not tested.", [IO], [("CleanHeader", IO)])

p("C34", "Culling keeps a representative within tolerance of every vector",
  "Every culled vector lies within the tolerance of a kept one and the first vector is kept.", ["inputs"], "all vector sets and tolerances",
  "One regular grid.", [T], [("cull_vectors", T)])

p("C35", "Resampling keeps the samples it does not have to invent",
  "Resampling an array to a whole multiple repeats every sample (smoothed only when asked), to a whole fraction gives the means of its "
  "blocks; a constant stays constant and values stay between the extremes; indexing with simple_take keeps the rank and selects every axis on its own.",
  ["inputs"], "all arrays, shapes and factors", "Tests resample one or two arrays to one shape.", [T],
  [("resample / simple_take", "raytools/translate.py")])

p("C36", "Rotations and reflections are rigid",
  "Every rotation matrix and view frame the package builds keeps lengths, angles and handedness and brings its axis where it says, its "
  "transpose undoes it, and reflecting rays at a plane mirrors their normal component only, twice giving the ray back.",
  ["inputs", "histories"], "all axes, angles, view directions and planes", "Tests rotate a few fixed vectors.", [T, VM, AM],
  [("rotation builders", "raytools/translate.py:rmtx_elem, rmtx_yp, rotate_elem, reflect"), ("view2world / world2view", "raytools/mapper/mapper.py")])

p("C37", "Drawing directions marks exactly their pixels",
  "Adding directions to an image sets the pixels the view assigns to them, in the requested channels and with the requested size, and leaves every "
  "other pixel as it was; directions outside the image are skipped. A new image is black and comes with the rays, the in-view pixels and the header "
  "of its view, and a plot writes that image with that header.",
  ["inputs"], "all directions, views, resolutions and channels", "Tests count marked pixels for a handful of directions.", [MP, VM, SV],
  [("add_vecs_to_img / init_img / plot", "raytools/mapper/mapper.py, viewmapper.py, solidviewmapper.py")])

p("C39", "Binary array exchange is lossless",
  "An array written as bytes, to memory or to a file (also appended), in any element type and from any memory layout, reads back with the same "
  "values and the requested shape; without a type the elements are little-endian four byte floats.",
  ["inputs"], "all arrays, layouts and element types", "One array in the default type.", [IO],
  [("np2bytes / bytes2np / np2bytefile / bytefile2np", IO)])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P))
