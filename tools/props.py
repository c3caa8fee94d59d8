"""
Single source of the property list.  Writes properties.jsonl and MANIFEST.json.
A property is claimed when harness/checks/<id>.py exists; otherwise it is listed
under not_applicable.
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, observe,
         technique, note, state=None):
    P.append(dict(
        id=id, title=title, statement=statement, over=over, text=text, why=why,
        files=files, mech=mech, observe=observe, technique=technique,
        note=note, state=state))


ASSUME_NGMIX = (
    "ngmix itself is not installable here: the code runs against a stand-in "
    "with the same interfaces (observations, Jacobians, moment fitters, "
    "metacal), so assurance is about this repository's code given those "
    "interfaces")
ASSUME_LSST = (
    "the LSST stack is not installable here: the code runs against a "
    "stand-in for the afw/geom/pex/pipe_base classes it touches, so assurance "
    "is about this repository's code given those interfaces")

# --------------------------------------------------------------- masking
prop(
    "M01", "Foreground bit mask marks exactly the pixels inside some hole",
    "For any list of circular holes (positions and radii in pixels, on or off "
    "the image), any image shape and any bit value, the foreground bit mask "
    "carries exactly that bit on exactly the pixels whose centre is inside at "
    "least one hole, and zero elsewhere. With symmetrization the marked set "
    "is the union of that set and its 90 degree rotation. The result does not "
    "depend on the order of the holes and the inputs are not modified.",
    ["inputs"],
    "hole lists (including empty, off-image, duplicated, tiny, huge, tie "
    "cases), image shapes, dtypes and byte orders, bit values",
    "tests use a few fixed seeds with interior holes on square images; "
    "clipping at each border, ties and off-image holes are never sampled",
    ["metadetect/masking.py"],
    [("make_foreground_bmask", "metadetect/masking.py"),
     ("_do_mask_foreground", "metadetect/masking.py")],
    ["return value of the bit mask builder"],
    "runtime monitoring: online comparison with an independent exact "
    "rasterizer, numba bounds-check sanitizer on",
    "randomized and hostile exploration; exact integer/rational oracle")
prop(
    "M02", "Apodization windows follow the documented smooth profile",
    "The foreground window is, at every pixel, the product over holes of the "
    "smooth transition profile (0 inside the hole, 1 beyond six transition "
    "scales outside its edge, monotone between), and the edge window is the "
    "product over the four borders of the same profile of the distance to that "
    "border. All window values lie in [0, 1] and do not depend on the order of "
    "the holes. Symmetrization multiplies the window with its 90 degree "
    "rotation.",
    ["inputs"],
    "hole lists, transition scales, image shapes from 1x1 upwards, including "
    "images smaller than the transition",
    "tests check one scale on one image size; small images, off-image holes "
    "and products of overlapping windows are not reached",
    ["metadetect/masking.py"],
    [("make_foreground_apodization_mask", "metadetect/masking.py"),
     ("_build_square_apodization_mask", "metadetect/masking.py"),
     ("_ap_kern_kern", "metadetect/masking.py")],
    ["window arrays"],
    "runtime monitoring: online comparison with an independent profile",
    "randomized exploration, float tolerance 1e-6 relative to the profile")
prop(
    "M03", "Foreground masking touches only masked pixels, consistently",
    "After foreground masking every pixel outside the holes has bit-identical "
    "image, noise, weight and masked fraction; inside, in every band and epoch, "
    "the weight is zero, the masked fraction is one, the requested bits are "
    "added to earlier mask bits, and image and noise are filled as the method "
    "says (smoothly interpolated, replaced by noise of the image's own level "
    "when isolated, or multiplied by the window) with finite values. The "
    "expanded holes only add their own bit. An observation that cannot be "
    "interpolated is marked masked as a whole (bit everywhere, zero weight, "
    "masked fraction one) rather than left with unusable pixels marked good.",
    ["inputs", "configurations"],
    "observations x holes x the three methods x expansion radii x "
    "symmetrization x presence of a masked-fraction plane",
    "tests use two bands with all planes present and one hole layout per "
    "method",
    ["metadetect/masking.py", "metadetect/interpolate.py"],
    [("apply_foreground_masking_corrections", "metadetect/masking.py"),
     ("_apply_mask_interp", "metadetect/masking.py"),
     ("_apply_mask_apodize", "metadetect/masking.py")],
    ["observation planes before and after"],
    "runtime monitoring: before/after snapshots checked by an independent "
    "plane-by-plane reference",
    "randomized exploration over methods and planes; " + ASSUME_NGMIX)
prop(
    "M04", "Edge apodization multiplies images and marks transition pixels",
    "Edge apodization multiplies image and noise of every band and epoch by the "
    "same window, and exactly the pixels where the window is below one get the "
    "requested bit in addition to earlier bits, zero weight and (if present) "
    "masked fraction one. All other pixels are unchanged, and an image that "
    "lies entirely in the transition is marked fully masked instead of raising "
    "an error.",
    ["inputs"],
    "image shapes, scales, bands, epochs, presence of a masked-fraction plane",
    "tests use one image size and one scale",
    ["metadetect/masking.py"],
    [("apply_apodization_corrections", "metadetect/masking.py")],
    ["observation planes before and after"],
    "runtime monitoring: before/after snapshots vs independent window",
    "randomized exploration; " + ASSUME_NGMIX)
prop(
    "M05", "Interpolation fills every bad pixel and only bad pixels",
    "Image interpolation leaves good pixels bit-identical, fills every bad "
    "pixel with a finite value (or with noise of the requested level where it "
    "is isolated and noise filling is on), reproduces locally affine images, "
    "and never lets the content of bad pixels influence the result. It refuses "
    "(returns no image) exactly when the bad fraction exceeds the limit or the "
    "good pixels cannot support an interpolation. Inputs are not modified and "
    "noise comes only from the supplied generator.",
    ["inputs"],
    "bad-pixel masks of every morphology and fraction, image shapes, "
    "isolation radii, buffers, limits",
    "tests use three fixed mask patterns on one image size",
    ["metadetect/interpolate.py"],
    [("interpolate_image_at_mask", "metadetect/interpolate.py"),
     ("_get_nearby_good_pixels", "metadetect/interpolate.py")],
    ["returned image"],
    "runtime monitoring: independent scattered-interpolation reference and "
    "metamorphic monitors (poisoned bad pixels, affine images)",
    "randomized exploration; scipy's triangulation is trusted")
prop(
    "M06", "Compiled kernels stay inside their arrays and match interpretation",
    "For every input to the public masking and interpolation entry points, "
    "including images narrower than a hole and holes at or beyond every "
    "border, the compiled code never accesses memory outside its arrays and "
    "returns the same values as the same code run by the plain interpreter.",
    ["inputs"],
    "degenerate shapes, border positions, zero and oversize buffers",
    "unit tests run the kernels with bounds checks off; an out-of-bounds "
    "write there is silent",
    ["metadetect/masking.py", "metadetect/interpolate.py"],
    [("numba kernels", "metadetect/masking.py"),
     ("numba kernels", "metadetect/interpolate.py")],
    ["numba bounds-check errors", "differential outputs"],
    "runtime monitoring: numba bounds-check sanitizer and "
    "compiled-versus-interpreted differential monitor",
    "randomized exploration with every input run twice")

# --------------------------------------------------------------- config
prop(
    "L01", "LSST configuration merging is complete, checked and isolated",
    "A resolved configuration equals the documented defaults overridden by the "
    "request (key by key inside the detection, metacalibration and moment "
    "sections), and a request with an unknown key, at the top level or in the "
    "detection and moment sections, is refused. Resolving never modifies the "
    "request, and editing a resolved configuration never changes what a later "
    "resolution returns.",
    ["histories", "configurations"],
    "histories of resolutions, refusals and in-place edits of results",
    "tests resolve one configuration once; aliasing between resolutions "
    "only shows in histories",
    ["metadetect/lsst/configs.py", "metadetect/lsst/defaults.py"],
    [("get_config", "metadetect/lsst/configs.py")],
    ["returned configurations"],
    "runtime monitoring: online checker of resolution histories against a "
    "merge model",
    "randomized histories of 6-30 operations")

# --------------------------------------------------------------- detection
prop(
    "D01", "Postage stamps are exact cutouts with empty padding",
    "Every stamp of every object, band and plane (image, weight, noise, bit "
    "mask, segmentation) contains the parent pixel at the "
    "corresponding offset wherever it overlaps the image and an empty value "
    "elsewhere, with the object's world transform centred on its catalogue "
    "position and its PSF centred on that band's PSF image. Neighbour masking zeroes the weight of exactly the stamp "
    "pixels nearer to another detection's segment than to its own and alters "
    "nothing else. Cutting stamps does not modify the parent observations.",
    ["inputs", "configurations"],
    "positions in, on and outside every border; stamp sizes from 1 to larger "
    "than the image; weight types; single and multi-band",
    "tests compare a handful of interior stamps",
    ["metadetect/detect.py"],
    [("MEDSInterface.get_cutout", "metadetect/detect.py"),
     ("_get_clipped_boxes", "metadetect/detect.py"),
     ("MEDSifier.get_multiband_meds", "metadetect/detect.py"),
     ("CatalogMEDSifier", "metadetect/detect.py")],
    ["stamp planes and Jacobians"],
    "runtime monitoring: every produced stamp checked against the parent "
    "image by an independent cutter",
    "randomized exploration with unique pixel values; " + ASSUME_NGMIX)
prop(
    "D02", "Stamp sizes cover the object, from the allowed list, clamped",
    "Each object's stamp size is the smallest permitted size (an allowed FFT- "
    "friendly size within the configured limits, or the configured maximum "
    "itself) that is at least the size its extent calls for, clamped to the "
    "configured minimum and maximum. The extent comes from its isophotal "
    "radius, or from the largest of its bounding box and its ellipticity- "
    "corrected size in sigma times the configured factor, per the configured "
    "mode. The size of one object does not depend on the other objects.",
    ["inputs", "configurations"],
    "object extents over four decades x sizing modes x limits",
    "tests use one configuration and real catalogues in a narrow size range",
    ["metadetect/detect.py"],
    [("_get_box_sizes", "metadetect/detect.py"),
     ("_get_sigma_size", "metadetect/detect.py")],
    ["box_size column"],
    "runtime monitoring: scripted catalogues through the extractor seam, "
    "sizes checked by an independent formula",
    "randomized exploration")
prop(
    "D03", "Detection runs on the inverse-variance coadd with true noise",
    "The source extractor sees the mean of the detection bands' images weighted "
    "by each band's inverse variance (from its typical positive weight), with "
    "the matching noise level, and a mask covering exactly the pixels that "
    "carry a not-for-detection bit in any of those bands, and runs with the "
    "configured threshold and settings. The catalogue keeps the extractor's "
    "positions and segment numbers consistent with the segmentation image. "
    "Neither the images nor the configuration are modified.",
    ["inputs", "configurations"],
    "bands x weights with holes x masks x no-detection bits x thresholds",
    "tests detect on a single simulated field with uniform weights",
    ["metadetect/detect.py"],
    [("_set_detim", "metadetect/detect.py"),
     ("_run_sep", "metadetect/detect.py"),
     ("_get_image_vars", "metadetect/detect.py")],
    ["arguments of the source extractor", "catalogue"],
    "runtime monitoring: extractor call events compared with an independent "
    "coadd",
    "randomized exploration; " + ASSUME_NGMIX)
prop(
    "D04", "Object masked fraction is the aperture-weighted mean",
    "Each object's masked fraction is the Gaussian-aperture-weighted mean of "
    "the masked-fraction image about its position over the part of its stamp "
    "that lies in the image, hence within [0, 1] for inputs in [0, 1], equal to "
    "c for a constant image c, and independent of the image's weights and of "
    "the other objects. An object with an empty stamp counts as fully masked, "
    "and the inputs are not modified.",
    ["inputs"],
    "masked-fraction images x positions in, on and off the image x stamp "
    "sizes x apertures x world transforms",
    "tests check constant images and one half-masked image",
    ["metadetect/mfrac.py"],
    [("measure_mfrac", "metadetect/mfrac.py")],
    ["returned masked fractions"],
    "runtime monitoring: independent aperture integral per position",
    "randomized exploration; " + ASSUME_NGMIX)

# --------------------------------------------------------------- fitting
prop(
    "F01", "Shear moments are the inverse-variance mean over shear bands",
    "For weighted-average models the combined shape, size, flux and their "
    "errors are those of the inverse-variance weighted sum of the shear "
    "bands' normalised moments and covariances only, with the configured "
    "size regularisation; each band's flux and flux error are reported "
    "unchanged in the column of that band. Bands outside the shear set do "
    "not alter the shape, and the order in which bands are listed does not "
    "matter.",
    ["inputs", "configurations"],
    "band moment results x weights x ordered band subsets x regularisation",
    "tests compare a few fixed band combinations on simulated galaxies; "
    "normalisations, missing moments and band-order effects are not sampled",
    ["metadetect/fitting.py"],
    [("_sum_bands_wavg", "metadetect/fitting.py"),
     ("_combine_fit_results_wavg", "metadetect/fitting.py"),
     ("_make_mom_res", "metadetect/fitting.py")],
    ["rows returned by the measurement entry points"],
    "runtime monitoring: scripted band measurements, rows compared with an "
    "independent combination",
    "randomized exploration; " + ASSUME_NGMIX)
prop(
    "F02", "A failed ingredient always flags the row, never silently",
    "A row's overall flag is zero exactly when every ingredient it reports was "
    "measured successfully: it carries every bit of its object flags (which "
    "include size failures) and, for weighted averages, of its per-band flux "
    "flags, and is non-zero whenever the PSF failed. Missing data, zero "
    "weight, masked stamps, missing moments for object or PSF, non-positive "
    "flux or size and failed fluxes each set their documented bit in the "
    "matching flag column. A row whose overall flag is zero has only finite "
    "values (joint fits leave the fluxes of bands they do not fit as "
    "placeholders), and a band or fit that could not be measured leaves "
    "not-a-number placeholders instead of plausible numbers.",
    ["fault_sequences", "inputs"],
    "independent failure or health of each band's ingredients",
    "tests provoke a few single failures; combinations of failures across "
    "bands are not enumerated",
    ["metadetect/fitting.py", "metadetect/procflags.py"],
    [("_combine_fit_results_wavg", "metadetect/fitting.py"),
     ("fit_mbobs_wavg", "metadetect/fitting.py")],
    ["flag columns and value columns of rows"],
    "runtime monitoring: injected per-band faults, flag/value consistency "
    "monitor on every row",
    "fault injection over failure combinations; " + ASSUME_NGMIX)
prop(
    "F03", "Shear coadd is the weighted mean of its bands, or refused",
    "The coadd of a set of shear bands is the mean of their images, noise "
    "images, masked fractions and PSF images weighted by each band's median "
    "positive weight, with the weight propagated from the bands' variances "
    "(zero where any of them has none), or-ed masks, and the bands' common world transform; a single "
    "band is returned as it is. Bands with inconsistent transforms, shapes or "
    "planes, or without PSFs, are refused rather than mixed, and the inputs are "
    "not modified.",
    ["inputs"],
    "1-6 bands with consistent or inconsistent geometry and planes, ordered "
    "subsets",
    "tests use three identical-geometry bands",
    ["metadetect/fitting.py"],
    [("make_coadd_obs", "metadetect/fitting.py")],
    ["coadd observation planes, exceptions"],
    "runtime monitoring: planes compared with an independent coadd; refusal "
    "monitor for inconsistent inputs",
    "randomized exploration; " + ASSUME_NGMIX)
prop(
    "F04", "Weight symmetrization zeroes whole 90-degree orbits only",
    "After symmetrization a pixel's weight is zero if and only if the weight of "
    "any of the four pixels in its 90 degree rotation orbit was not positive; "
    "all other weights and every other plane are unchanged. A stamp that ends "
    "up with no weight is handed on as such instead of raising.",
    ["inputs"],
    "weight maps with arbitrary holes and sizes",
    "tests check a single masked pixel in one stamp size",
    ["metadetect/fitting.py"],
    [("symmetrize_obs_weights", "metadetect/fitting.py")],
    ["weights before and after"],
    "runtime monitoring: orbit-by-orbit checker",
    "randomized exploration; " + ASSUME_NGMIX)
prop(
    "F05", "Joint fitters measure the shear bands they are asked for",
    "For adaptive moments and Gaussian fits the fitter receives exactly the "
    "requested shear bands (their coadd where coadding applies) with "
    "symmetrized weights when asked, every row carries that fit's values, and "
    "failures of the object or PSF fit set their flags with placeholder "
    "values. Rows come in input order, one per object, labelled with the "
    "shear bands.",
    ["inputs", "fault_sequences"],
    "1-5 bands x ordered subsets x failures x symmetrization x models",
    "tests run only successful fits on one simulated field",
    ["metadetect/fitting.py"],
    [("fit_mbobs_admom", "metadetect/fitting.py"),
     ("fit_mbobs_gauss", "metadetect/fitting.py"),
     ("fit_mbobs_list_joint", "metadetect/fitting.py")],
    ["observations handed to the fit, rows"],
    "runtime monitoring: recording fit runners and row checkers",
    "randomized exploration with injected failures; " + ASSUME_NGMIX)
prop(
    "F06", "Merging fitter tables keeps every row and refuses mismatches",
    "Joining the tables of several fitters yields one row per object, in order, "
    "with every column of every table bit-identical to its source, skipping "
    "absent tables and returning nothing when all are absent. Tables of "
    "different lengths or different shear-band labels are refused, never mixed. "
    "A fresh result table starts flagged as not attempted with placeholder "
    "values in every column.",
    ["inputs"],
    "lists of tables, lengths, labels, missing tables",
    "tests join two equal tables",
    ["metadetect/fitting.py"],
    [("combine_fit_res", "metadetect/fitting.py"),
     ("get_wavg_output_struct", "metadetect/fitting.py")],
    ["joined tables"],
    "runtime monitoring: column-by-column provenance checker",
    "randomized exploration")
prop(
    "F07", "Processing flags are distinct bits with faithful descriptions",
    "Every processing flag is a distinct single bit, and the description of a "
    "flag value names exactly the registered bits set in it, for any integer "
    "type. Column naming helpers prefix and suffix names without loss.",
    ["inputs"],
    "all single bits, pairs and random combinations as several integer types",
    "tests describe two values",
    ["metadetect/procflags.py", "metadetect/util.py"],
    [("get_procflags_str", "metadetect/procflags.py"),
     ("Namer", "metadetect/util.py")],
    ["descriptions"],
    "runtime monitoring: exhaustive single/pair bits and random combinations",
    "exhaustive for single bits and registered pairs, sampled beyond")
prop(
    "S01", "Position shearing is the exact inverse map in world coordinates",
    "Shearing then unshearing any positions returns them to numerical "
    "precision, and each direction equals the exact shear about the image "
    "centre applied in world coordinates for the given type and step. The "
    "unsheared type is the identity, unknown types are refused, scalars, "
    "empty and any float arrays keep their shape, and inputs are not "
    "modified.",
    ["inputs"],
    "positions x shear types x steps x world transforms x image shapes",
    "tests use one world transform and square images",
    ["metadetect/shearpos.py"],
    [("shear_positions", "metadetect/shearpos.py"),
     ("unshear_positions", "metadetect/shearpos.py")],
    ["returned positions"],
    "runtime monitoring: round-trip and explicit-matrix monitors",
    "randomized exploration, tolerance 1e-9 pixels for float64")

# --------------------------------------------------------------- driver
prop(
    "G01", "Driver returns nothing only when measurement is impossible",
    "A run yields no result exactly when no pixel is less than fully masked, "
    "some band has no positive weight, some band is entirely "
    "not-for-detection, or the PSF or metacalibration step fails; otherwise "
    "it yields one entry per requested metacalibration type. An entry is "
    "empty exactly when nothing was detected for that type in any band "
    "combination, and asking for the result before running is an error.",
    ["inputs", "fault_sequences", "configurations"],
    "masks, weights, injected PSF/metacal failures and empty detections",
    "tests cover a handful of single conditions on one field",
    ["metadetect/metadetect.py"],
    [("Metadetect.go", "metadetect/metadetect.py")],
    ["result object"],
    "runtime monitoring: fault injection and result-shape monitor",
    "randomized exploration with injected faults; " + ASSUME_NGMIX)
prop(
    "G02", "Catalogue columns describe the detected position and image",
    "For every row the position columns are the detection's, the unsheared "
    "positions are their exact inverse map for that type and the configured "
    "step, and the mask and masked-fraction columns are those of the "
    "original image at both positions: the bits or-ed over the configured "
    "region (clipped to the image) and the aperture-weighted masked fraction "
    "over the shear bands. The field-wide masked fraction and the band labels "
    "describe the bands used.",
    ["inputs", "configurations"],
    "masks, masked fractions, region sizes, steps, band subsets",
    "tests check a few columns for constant masks",
    ["metadetect/metadetect.py", "metadetect/mfrac.py",
     "metadetect/shearpos.py"],
    [("_add_positions_and_psf", "metadetect/metadetect.py"),
     ("_fill_in_mask_col", "metadetect/metadetect.py"),
     ("_get_mfrac", "metadetect/metadetect.py")],
    ["rows of the result"],
    "runtime monitoring: each row's columns recomputed from the inputs and "
    "the logged detections",
    "randomized exploration; " + ASSUME_NGMIX)
prop(
    "G03", "Band combinations are independent and kept in order",
    "Running several shear/detection band combinations in one go gives, for "
    "every type, exactly the concatenation in order of the rows of running "
    "each combination alone, whatever was computed before. Omitting detection "
    "bands means all bands, and naming the shear bands means each "
    "combination's own.",
    ["configurations", "histories"],
    "lists of band combinations, repeated and permuted",
    "tests run two fixed combinations and compare counts",
    ["metadetect/metadetect.py"],
    [("Metadetect.go", "metadetect/metadetect.py"),
     ("_get_mbobs_data", "metadetect/metadetect.py")],
    ["result rows"],
    "runtime monitoring: differential between joint and separate runs",
    "randomized exploration; " + ASSUME_NGMIX)
prop(
    "G04", "Colour-dependent runs measure each object on its own rendering",
    "With colour-dependent renderings each object is measured exactly once, "
    "at its detected position and stamp, on the rendering chosen for its "
    "fluxes, with that rendering's masks and PSF; objects whose colour maps "
    "to the original images are measured as in a plain run, and objects "
    "whose rendering cannot be metacalibrated are left out without shifting "
    "the others. If all renderings equal the originals the catalogue equals "
    "the plain run's. Incomplete colour settings are refused.",
    ["inputs", "configurations"],
    "colour functions (constant, per-object, none), renderings, band "
    "combinations",
    "tests check a constant key on a single field",
    ["metadetect/metadetect.py"],
    [("_go_bands_with_color", "metadetect/metadetect.py")],
    ["result rows", "fluxes passed to the colour function"],
    "runtime monitoring: differential with plain runs on each rendering, "
    "colour function call log",
    "randomized exploration; " + ASSUME_NGMIX)
prop(
    "G05", "Original-PSF columns are the weighted mean over shear bands",
    "Every row carries the original PSF's shape and size averaged over the "
    "shear bands only, weighted by each band's peak weight, or the PSF "
    "failure flag with non-finite values when the PSF could not be fit. The "
    "values are those of the unsheared original PSFs, the same for every "
    "type.",
    ["inputs", "fault_sequences"],
    "PSFs and weights per band x band subsets x PSF failures",
    "tests check finiteness only",
    ["metadetect/metadetect.py", "metadetect/fitting.py"],
    [("_get_psf_stats", "metadetect/metadetect.py"),
     ("fit_all_psfs", "metadetect/fitting.py")],
    ["psfrec columns"],
    "runtime monitoring: independent PSF measurement compared with rows",
    "randomized exploration; " + ASSUME_NGMIX)
prop(
    "G06", "Runs are reproducible and leave their inputs alone",
    "The same inputs and seed give bit-identical results whatever was run "
    "before in the process, no run reads or changes global random state, and "
    "neither the caller's pixel data, weights and masks nor the caller's "
    "configuration are modified.",
    ["histories", "inputs"],
    "sequences of runs with different configurations, fitters and seeds",
    "tests run each configuration once from a fresh seed",
    ["metadetect/metadetect.py", "metadetect/detect.py",
     "metadetect/fitting.py"],
    [("Metadetect", "metadetect/metadetect.py"),
     ("_set_fitter", "metadetect/metadetect.py")],
    ["results, inputs, global RNG state before and after"],
    "runtime monitoring: repeat-run differential with snapshots of inputs "
    "and global random state",
    "randomized histories; " + ASSUME_NGMIX)
prop(
    "G07", "End-to-end shear response recovers the input shear",
    "On noise-free isolated galaxies with 90-degree-paired shapes, the mean "
    "shape divided by the metacalibration response recovers the applied shear "
    "for every model, and rotating or transposing the scene transforms the "
    "measured shapes accordingly. Scaling all images and noise by a common "
    "factor scales fluxes and leaves shapes unchanged, and reordering the "
    "bands reorders the per-band columns and changes nothing else.",
    ["inputs", "configurations"],
    "shears, models, scenes, flux scales",
    "tests measure one shear for one model with loose tolerance",
    ["metadetect/metadetect.py", "metadetect/fitting.py"],
    [("do_metadetect", "metadetect/metadetect.py")],
    ["catalogue shapes and fluxes"],
    "runtime monitoring: metamorphic monitors over full runs",
    "randomized exploration, tolerance set by finite step and stand-in "
    "fitters; " + ASSUME_NGMIX)
prop(
    "G08", "Each row measures its own object's stamp in its own type",
    "Row i of every type is the measurement, with each configured fitter, of "
    "the stamps of detection i of that type's sheared images in all bands, "
    "with the configured weight treatment, shear bands, mask flags, "
    "regularisation and symmetrization. No row mixes types, objects, bands or "
    "fitters, and the configured measurement settings reach the fitters.",
    ["inputs", "configurations"],
    "scenes x fitters x weight types x band subsets x mask flags",
    "tests check columns exist and shear averages; a mixed-up row or ignored "
    "setting averages out",
    ["metadetect/metadetect.py", "metadetect/detect.py",
     "metadetect/fitting.py"],
    [("_measure", "metadetect/metadetect.py"),
     ("_do_detect", "metadetect/metadetect.py")],
    ["rows, metacal and extractor events"],
    "runtime monitoring: event log of metacal and extractor, each row "
    "recomputed from the log by an independent pipeline",
    "randomized exploration; " + ASSUME_NGMIX)

# --------------------------------------------------------------- LSST
prop(
    "L02", "LSST bright-object and edge masking touch only their pixels",
    "Bright-object and edge masking of multi-band exposures multiply image "
    "and noise by the window of the objects' pixel positions, set the "
    "BRIGHT or edge plane on exactly the affected pixels, set their variance "
    "infinite and their masked fraction to one, in every band of image, noise "
    "and masked-fraction exposures and or-masks. All other pixels are "
    "unchanged.",
    ["inputs"],
    "hole lists x world transforms x exposures x bands",
    "tests need the LSST stack and use one bright object",
    ["metadetect/lsst/masking.py"],
    [("apply_apodized_edge_masks_mbexp", "metadetect/lsst/masking.py"),
     ("apply_apodized_bright_masks_mbexp", "metadetect/lsst/masking.py")],
    ["exposure planes before and after"],
    "runtime monitoring: before/after snapshots vs independent window",
    "randomized exploration; " + ASSUME_LSST)
prop(
    "L03", "Exposure and observation conversions are faithful inverses",
    "Converting an exposure to an observation keeps the image, sets weight to "
    "the inverse variance (zero where the variance is not finite), copies the "
    "mask to the requested plane, and attaches the PSF image and the local "
    "linear world transform at the centre; converting back restores image, "
    "variance where finite, mask and PSF. The coadd of exposures is, at every "
    "pixel, the mean of the bands with positive variance there, weighted by "
    "each band's inverse median variance, with or-ed masks, summed inverse "
    "variance, the normalised weighted mean of the PSFs at the centre, and "
    "the common world system; a band without usable pixels is left out.",
    ["inputs"],
    "exposures x masks x variances with infinities x offsets",
    "tests need the LSST stack and check one round trip",
    ["metadetect/lsst/util.py"],
    [("exp2obs", "metadetect/lsst/util.py"),
     ("obs2exp", "metadetect/lsst/util.py"),
     ("coadd_exposures", "metadetect/lsst/util.py"),
     ("get_jacobian", "metadetect/lsst/util.py")],
    ["exposure and observation planes"],
    "runtime monitoring: round-trip and independent-coadd monitors",
    "randomized exploration; " + ASSUME_LSST)
prop(
    "L04", "Neighbour subtraction leaves each object on residual background",
    "After construction the working image is the original minus all child "
    "models; adding a source back restores exactly its model's pixels, and "
    "leaving that context restores the fully subtracted image. Stamps are "
    "centred, sized as asked, clipped or refused at borders, and carry the "
    "source's own model added back and nothing else.",
    ["histories", "inputs"],
    "histories of add-back, stamp and model requests over many sources and "
    "bands",
    "tests need the LSST stack and visit each source once",
    ["metadetect/lsst/model_subtractor.py", "metadetect/lsst/mbobs_extractor.py"],
    [("ModelSubtractor", "metadetect/lsst/model_subtractor.py"),
     ("MBObsExtractor", "metadetect/lsst/mbobs_extractor.py")],
    ["image state and stamps after each operation"],
    "runtime monitoring: online state-machine checker over operation "
    "histories",
    "randomized histories; " + ASSUME_LSST)
prop(
    "L05", "Metacalibrated exposures carry exactly the sheared pixels",
    "For each requested type the metacalibrated exposures equal the sum of "
    "the sheared image and the counter-rotated sheared noise, with variance "
    "doubled, the target PSF attached and mask, world system and metadata "
    "kept, per band and independent of other bands. The inputs are not "
    "modified and types are sheared by the type's documented direction and "
    "step.",
    ["inputs", "configurations"],
    "exposures x noise x types x PSF statistics",
    "tests need the LSST stack and check a single exposure",
    ["metadetect/lsst/metacal_exposures.py"],
    [("get_metacal_mbexps_fixnoise", "metadetect/lsst/metacal_exposures.py"),
     ("get_metacal_exps", "metadetect/lsst/metacal_exposures.py")],
    ["returned exposures"],
    "runtime monitoring: independent galsim reference per band and type",
    "randomized exploration; " + ASSUME_LSST)
prop(
    "L07", "LSST per-source rows describe their own source",
    "Every childless source of the catalogue gets exactly one row (blended "
    "parents are replaced by their children, no children give no table) and "
    "that row is its own: its position in pixels of the whole image, on the "
    "sky and from its peak, falling back to the peak when the centroid is "
    "undefined, the origin of the exposure, the stamp size, the mask bits of "
    "the detection exposure at its own peak without DETECTED, and the fits "
    "of its own stamp (of the source alone when models are given) with the "
    "configured shear bands. Sources whose stamp leaves the image, has no "
    "usable pixel or no PSF are flagged as such and do not affect the "
    "others. Exposures and configuration are not modified; the requested "
    "threshold and settings reach the detection.",
    ["inputs", "fault_sequences"],
    "catalogues with blends, edge sources, masked stamps, failures",
    "tests need the LSST stack and check counts",
    ["metadetect/lsst/measure.py"],
    [("measure", "metadetect/lsst/measure.py"),
     ("get_output", "metadetect/lsst/measure.py"),
     ("get_bmask", "metadetect/lsst/measure.py")],
    ["rows of the output table"],
    "runtime monitoring: scripted catalogues, each row checked against its "
    "source",
    "randomized exploration; " + ASSUME_LSST)
prop(
    "L09", "LSST driver produces consistent, complete shear catalogues",
    "A run produces one table for every requested metacalibration type and "
    "nothing else, each measured on the images of that type (counterfactually "
    "sheared, with the shared noise field of the same type), and with the "
    "configured threshold, stamp size, aperture, deblender, shear bands, "
    "target PSF and sky subtraction. The masked fraction column is the "
    "Gaussian-weighted average, at the source, of the inverse-variance "
    "weighted average of the bands' masked fractions (0 when there are none, "
    "1 for positions far off the image), the or-mask column the bits of all "
    "or-masks at the pixel nearest to the source, and the original-PSF columns the "
    "weighted average over the shear bands, flagged when a PSF cannot be "
    "fit. Runs with the same seed are identical; the inputs are not modified "
    "(but for a requested sky subtraction), nor is the caller's "
    "configuration. Unknown bands, types and keys are refused.",
    ["inputs", "histories"],
    "multi-band exposures x configurations x seeds",
    "tests need the LSST stack and one simulated field",
    ["metadetect/lsst/metadetect.py"],
    [("run_metadetect", "metadetect/lsst/metadetect.py"),
     ("measure_weighted_mfrac", "metadetect/lsst/metadetect.py"),
     ("get_mfrac_mbexp", "metadetect/lsst/metadetect.py"),
     ("combine_ormasks", "metadetect/lsst/metadetect.py"),
     ("fit_original_psfs_mbexp", "metadetect/lsst/metadetect.py")],
    ["result tables"],
    "runtime monitoring: columns recomputed from inputs, repeat-run "
    "differential",
    "randomized exploration; " + ASSUME_LSST)
prop(
    "L10", "Noise images and replacement noise follow the exposure's noise",
    "A generated noise image is reproducible from its generator, has zero "
    "mean and the variance of the exposure (median where Poisson noise is to "
    "be removed), with no values from non-finite variances; noise replacement "
    "shows exactly the requested source and restores the exposure exactly "
    "when done, in every band.",
    ["inputs", "histories"],
    "exposures x variances x histories of source insertion and removal",
    "tests need the LSST stack and check one image",
    ["metadetect/lsst/util.py"],
    [("get_noise_image", "metadetect/lsst/util.py"),
     ("ContextNoiseReplacer", "metadetect/lsst/util.py"),
     ("MultibandNoiseReplacer", "metadetect/lsst/util.py")],
    ["noise arrays, exposure state"],
    "runtime monitoring: statistical monitors with bounded false-alarm "
    "probability and restore checks",
    "randomized exploration; " + ASSUME_LSST)
prop(
    "L08", "Sky subtraction removes exactly the measured sky",
    "Sky subtraction lowers each band's image by one smooth sky estimate "
    "measured away from detected and unusable pixels and records it, never "
    "touching variance or the non-detection mask bits, iterating as "
    "configured with every band treated independently. The caller's "
    "configuration is not modified.",
    ["inputs", "configurations"],
    "exposures x masks x sky levels x bands",
    "tests need the LSST stack and use one sky level",
    ["metadetect/lsst/skysub.py", "metadetect/lsst/util.py"],
    [("determine_and_subtract_sky", "metadetect/lsst/skysub.py"),
     ("subtract_sky_mbexp", "metadetect/lsst/skysub.py")],
    ["exposure planes before and after"],
    "runtime monitoring: before/after snapshots against planted sky",
    "randomized exploration; " + ASSUME_LSST)

prop(
    "L11", "LSST photometry measures the exposures given, as configured",
    "A photometry run gives one table of every detected source (none when "
    "there are no sources) measured on the given exposures themselves, with "
    "the configured threshold, stamp size, aperture, deblender, shear bands "
    "and sky subtraction, and with the same masked fraction, or-mask and "
    "original-PSF columns as a shear run; the same seed gives the same table "
    "and inputs are not modified (but for a requested sky subtraction and "
    "detection bits of a single band). A configuration is the defaults with "
    "the caller's entries: entries of sub-configurations are merged, unknown "
    "entries are refused, and neither the defaults nor the caller's "
    "configuration change, whatever is done before or to the result.",
    ["inputs", "configurations", "histories"],
    "multi-band exposures x configurations x seeds; sequences of "
    "configurations",
    "tests need the LSST stack and run one simulated field with the defaults",
    ["metadetect/lsst/photometry.py", "metadetect/lsst/configs.py"],
    [("run_photometry", "metadetect/lsst/photometry.py"),
     ("get_config", "metadetect/lsst/configs.py")],
    ["result table, detection and deblending events, configurations"],
    "runtime monitoring: rows remeasured on the inputs, event log of "
    "detection and sky subtraction, repeat-run differential, model-based "
    "configuration histories",
    "randomized exploration; " + ASSUME_LSST)

NOT_BUILT = "its monitor is not finished yet in this revision"
NA_REASON = {}


def main():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    claimed, lines = [], []
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        line = dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"],
            anchors=dict(
                files=p["files"],
                mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                observe_at=p["observe"], hook_needed=None))
        lines.append(json.dumps(line))
        f = os.path.join(ROOT, "harness", "checks", p["id"].lower() + ".py")
        if os.path.exists(f):
            claimed.append(p)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fp:
        fp.write("\n".join(lines) + "\n")
    man = dict(
        version=1,
        setup_cmd="./setup.sh",
        checks=[dict(
            property=p["id"],
            quick_cmd="./check.sh %s --tier quick" % p["id"].lower(),
            thorough_cmd="./check.sh %s --tier thorough" % p["id"].lower(),
            evidence_file="evidence/%s.json" % p["id"],
            technique=p["technique"],
            level="exploration",
            level_note=p["note"]) for p in claimed],
        not_applicable=[dict(
            property=p["id"], reason=NA_REASON.get(p["id"], NOT_BUILT))
            for p in P if p not in claimed],
        notes="Python runs from /repo's working tree; nothing is compiled "
              "ahead of time. No hooks in /repo are needed: observation is "
              "at public entry points and at the stand-in dependencies.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fp:
        json.dump(man, fp, indent=1)
        fp.write("\n")
    print("claimed", len(claimed), "of", len(P))


if __name__ == "__main__":
    main()
