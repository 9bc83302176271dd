#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
SAMPLED = "The quantifier is over all inputs; the existing tests evaluate a handful of fixed or random arrays."
T = "bounded symbolic execution of the real %s, assertions decided by z3"
PY = T % "Python functions"
CT = T % "C source (clang AST, OpenMP teams, allocation faults) and its Python wrapper"

P = []


def prop(id, title, statement, text, files, mech, over=("inputs",), why=SAMPLED, technique=PY, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, files=files, mech=mech, why=why,
                  technique=technique, note=note))


prop("C01", "Three-dimensional gridding is an exact cell histogram, at any thread count",
     "Every finite data point whose position lies in the half-open box lo <= x < hi of the grid is counted in exactly the cell that contains it and nowhere else, points outside and NaN intensities are counted nowhere, and per cell the count, mean (or sum and sum of squares) and standard error of the mean are those of exactly its points; masked pixels are left out, and with default bounds every point is counted. "
     "The result does not depend on the number of threads or on which thread handles which point: threads share no data without synchronisation. "
     "A failing memory allocation is reported as MemoryError without leaking, deadlocking or touching memory outside the allocations, in builds with and without OpenMP.",
     "all positions, intensities (NaN included), masks, thread schedules and single allocation failures within the stated sizes",
     ["src/ctrans.c", "skbeam/core/utils.py"],
     [("gridding loop", "src/ctrans.c c_grid3d"), ("argument handling", "src/ctrans.c gridder_3D"), ("bounds, mask, mean", "skbeam/core/utils.py grid3d")],
     over=("inputs", "schedules", "fault_sequences", "configurations"), technique=CT,
     why="Tests grid one regular mesh and never vary threads, allocation failures or build configuration.")

prop("C05", "One-time multi-tau correlation equals its definition",
     "For every image series and label array, the one-time correlation at each reported lag and region is the mean over frame pairs of the region-averaged product of intensities, divided by the product of the corresponding past and future region means, with frames coarsened by averaging neighbours at each higher level; lags and their order are those of the multi-tau scheme, and the streaming and the batch interface agree. "
     "A frame that is all NaN is left out of exactly the pairs it belongs to. An odd number of buffers is rejected, and the single-exponential model returns beta*exp(-2*rate*lag)+baseline.",
     "all intensities within the stated numbers of frames, pixels, regions, levels and buffers", ["skbeam/core/correlation.py"],
     [("stream", "correlation.py lazy_one_time"), ("batch", "correlation.py multi_tau_auto_corr"), ("model", "correlation.py auto_corr_scat_factor")])

prop("C06", "An interrupted correlation stream resumes exactly",
     "Feeding an image stream to the one-time or two-time correlator in two pieces, passing the state after the first piece to the second call, gives after every frame the result of one uninterrupted run, wherever the stream is cut.",
     "all intensities, all cut points and numbers of levels within the stated sizes", ["skbeam/core/correlation.py"],
     [("state", "correlation.py lazy_one_time/lazy_two_time internal_state")], over=("inputs", "histories"),
     why="Tests resume one stream at one point; the property quantifies over every cut and every series.")

prop("C07", "Two-time correlation equals its definition",
     "For every image series the two-time correlation of frames t1 and t2 is the region mean of the product of their intensities divided by the product of their region means, is symmetric, holds zeros where no value is defined, and reports the multi-tau lags. "
     "The one-time correlation and its error derived from it at lag k are the mean and standard error of the k-th diagonal.",
     "all intensities within the stated sizes", ["skbeam/core/correlation.py"],
     [("two time", "correlation.py two_time_corr, lazy_two_time"), ("diagonals", "correlation.py one_time_from_two_time")])

prop("C08", "The cross correlator equals direct masked correlation",
     "For every mask, image pair and normalisation choice, the correlator returns for each region the direct correlation of the masked images over all shifts, normalised pointwise as requested ('regular' by overlap and means, 'symavg' by the product of overlapping symmetric averages), with the zero shift at the centre and matching position axes. "
     "A correlator object gives the same answer however often it was used before, and rejects images whose shape differs from the mask.",
     "all images and masks within the stated sizes; repeated use of one object", ["skbeam/core/correlation.py"],
     [("correlator", "correlation.py CrossCorrelator")], over=("inputs", "histories"))

prop("C09", "ROI generators label exactly the requested regions",
     "Every region-of-interest generator returns an integer array of the requested shape in which the pixels inside the k-th requested region (rectangle, ring, ring segment, bar, box) carry label k and every other pixel 0; regions are clipped at the image border, and inputs that would overlap, are not non-decreasing or are inconsistent are rejected. "
     "Ring edges computed from inner radius, widths, spacings and count are the running sums of those.",
     "all region positions, sizes, centres and edges within the stated image sizes", ["skbeam/core/roi.py"],
     [("rectangles", "roi.py rectangles"), ("rings", "roi.py rings, ring_edges, segmented_rings"), ("bars", "roi.py bar, box"), ("lines", "roi.py lines")])

prop("C10", "Per-ROI reductions report exactly the pixels of each ROI",
     "For every label array (with or without background) and image series, the per-region pixel values, means, maxima, time-resolved pixel lists and flat positions are those of exactly the pixels carrying that label, in label order and image order; arrays of another shape are rejected.",
     "all label arrays and intensities within the stated sizes", ["skbeam/core/roi.py"],
     [("values", "roi.py roi_pixel_values"), ("means", "roi.py mean_intensity"), ("maxima", "roi.py roi_max_counts"), ("kymograph", "roi.py roi_kymograph"), ("indices", "roi.py extract_label_indices")])

prop("C11", "One-dimensional profiles are exact bin statistics",
     "Binned sums, counts, means and other statistics of values against a coordinate, the radial statistics of an image, and the circular average are those of exactly the points that fall into each half-open bin (the last bin closed where documented); bins are equally wide over the requested or default range, masked pixels are left out, and every point inside the range is in exactly one bin.",
     "all coordinates, values, masks and ranges within the stated sizes", ["skbeam/core/utils.py", "skbeam/core/accumulators/binned_statistic.py", "skbeam/core/roi.py"],
     [("binning", "utils.py bin_1D, statistics_1D, bin_grid"), ("circular average", "roi.py circular_average")])

prop("C12", "Pixel coordinate grids are exact",
     "The radius, angle and relative-position of every pixel of an image are those of its (row, column) offset from the given centre scaled by the pixel size, with the angle in [-pi, pi] and signed by the row offset; inconsistent or non-positive pixel sizes are rejected. "
     "Radii convert to two-theta as arctan(radius/distance).",
     "all centres and pixel sizes for the stated image shapes", ["skbeam/core/utils.py"],
     [("radii", "utils.py radial_grid"), ("angles", "utils.py angle_grid"), ("relative coordinates", "utils.py img_to_relative_xyi"), ("two theta", "utils.py radius_to_twotheta")])

exec(open(os.path.join(HERE, "meta_more.py")).read()) if os.path.exists(os.path.join(HERE, "meta_more.py")) else None

NA = globals().get("NA", [])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P + [q for q in globals().get("NAP", [])]:
            assert len(p["title"]) <= 80, p["title"]
            json.dump({"id": p["id"], "title": p["title"], "statement": p["statement"],
                       "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                       "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}, f)
            f.write("\n")
    m = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [
            {"property": p["id"], "quick_cmd": "./run.py %s --tier quick" % p["id"], "thorough_cmd": "./run.py %s --tier thorough" % p["id"],
             "technique": p["technique"], "level": "other",
             "level_note": p["note"] or "Every path of the real functions within the stated sizes is explored symbolically and every assertion is decided by the solver for all values on that path; sizes beyond the bounds and floating-point rounding are outside the claim."}
            for p in P
        ],
        "not_applicable": NA,
        "notes": "See DESIGN.md. Counterexamples are replayed on the unmodified code before they are reported; a counterexample that does not reproduce is recorded as inconclusive in the evidence.",
    }
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
