#!/usr/bin/env python3
"""writes KNOWN_FINDINGS.json"""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [
    {"property": "C29", "status": "known", "rule": "values", "construct": f"C29_quadrant[sx={a},sy={b}]:density",
     "what": f"retina.rgcf_density_xy selects the vertical meridian by the horizontal coordinate (ymi = np.where(xy[:, 0] > 0, 1, 3)), "
             f"so the density in the quadrant with {'positive' if a > 0 else 'negative'} x and {'positive' if b > 0 else 'negative'} y "
             f"uses the {'superior' if a > 0 else 'inferior'} instead of the {'superior' if b > 0 else 'inferior'} meridian",
     "why_not_repaired": "tests/test_retina.py pins the values the wrong selection gives"}
    for a, b in ((1, -1), (-1, 1))]
KNOWN += [
    {"property": "C22", "status": "known", "rule": "values", "construct": f"C22_density[m={m}]:field density on a meridian",
     "what": f"retina.rgcf_density_on_meridian, {n} meridian: the second term (1 - a) exp(-r/re) of Watson's formula is not multiplied by the foveal "
             "density (a misplaced parenthesis), so densities beyond about 5 degrees are too low, down to a quarter",
     "why_not_repaired": "tests/test_retina.py pins the values the wrong formula gives"}
    for m, n in enumerate(("temporal", "superior", "nasal", "inferior"))]
KNOWN += [
    {"property": "C31", "status": "known", "rule": "values", "construct": f"{f}[va={va},res={res}]:sum of the pixels in view",
     "what": f"a {va:.0f} degree {cls}: the solid angles of the pixels inside the view add up to the cone of "
             "ViewMapper._chordfactor times the view angle (in_view and the pixel plane use the chord-corrected angle), not to the "
             "area the view reports",
     "why_not_repaired": "tests/test_metric.py pins metric values of a 153 degree view that depend on the chord factor"}
    for f, cls in (("C31_total", "ViewMapper"), ("C31_solid_total", "SolidViewMapper")) for va in (60.0, 120.0) for res in (48, 75)]
KNOWN += [
    {"property": "C28", "status": "known", "rule": "values", "construct": f"C28_pixels[wide={w}]:column of its ray",
     "what": f"a plain Mapper {'wider than high' if w else 'higher than wide'}: vxy2xyz mirrors the horizontal coordinate (1 - x) but xyz2vxy does not, so ray2pixel of the rays of "
             "pixelrays/pixel2ray names the mirrored column for every pixel off the centre column",
     "why_not_repaired": "either direction can be the intended one: drawing (add_vecs_to_img, pinned by tests/test_viewmapper.py) uses the "
                         "unmirrored one and the rays handed out by init_img the mirrored one; deciding changes results of one of them"}
    for w in (True, False)]
FIXED = [
    ("C01", "fix: do not modify coordinate and sigma arguments in place", "tpnorm, vxy2xyz and non_uniform_gaussian_filter changed the caller's arrays"),
    ("C01", "fix: correct each stray ray's solid angle on a copy of omega", "the stray edge correction wrote into the caller's omega"),
    ("C25", "fix: correct each stray ray's solid angle on a copy of omega", "the stray edge correction was applied to the wrong rays"),
    ("C17", "fix: uv2xy and uv2xyz left numpy error handling disabled", "np.seterr was called and never restored"),
    ("C12", "fix: is_hdr compared decoded text to bytes and was never true", "is_hdr was False for every file"),
    ("C18", "fix: jittered pixels had an offset of the wrong shape", "Mapper.pixels(jitter=True) raised for every resolution"),
    ("C23", "fix: array_rotate interpolated half a pixel off the pixel centres", "an unrotated image changed under linear interpolation"),
    ("C11", "fix: pass file names and header lines to Radiance programs verbatim", "names with spaces, quotes or ! were split or run as commands"),
    ("C12", "fix: report pvalue's message for unreadable and truncated images", "truncated images raised without the program's message"),
    ("C20", "fix: default view and luminance coefficients for images without them", "hdr2vol, GSS and imgmetric failed for images without view or coefficients"),
    ("C19", "fix: setting a view on GSS kept arrays derived from the previous view", "GSS.vm setter"),
    ("C19", "fix: Mapper.framesize did not follow changes of aspect", "cached frame size"),
    ("C13", "fix: hdr_rotate without rotation or center overwrote its input", "default output name was the input name"),
    ("C25", "fix: non_uniform_gaussian_filter did not restore the input order", "results were returned in sorted order"),
    ("C28", "fix: xyz2aa returned azimuths up to 270 instead of (-180, 180)", "azimuth of directions in one quadrant"),
    ("C12", "fix: img_size reported 1x1 for files that cannot be read", "unreadable files had size 1x1"),
    ("C24", "fix: the view header of a downward view had its up vector parallel to the view direction", "view header of (0, 0, -1)"),
    ("C16", "fix: smooth passed an absolute kernel width as a factor to gaussian_kde", "-sigma and Scott's rule without -y"),
    ("C25", "fix: hdr2vol left the second half of 360 degree images without solid angles", "two-sided images: twice as many directions and values as solid angles"),
    ("C35", "fix: resample truncated reduction factors whose reciprocal rounds below a whole number", "reducing by 93, 99, 105, 117 ... left two samples per block"),
    ("C25", "fix: quantile smoothing of several features applied the weights to the flattened features", "median or one quantile of several features raised or paired weights with the wrong samples"),
    ("C25", "fix: interpolate several features between samples out of reach of the kernel", "several features with a coordinate out of reach of all samples raised"),
    ("C28", "fix: azimuth of directions close to -z", "xyz2tp lost the azimuth within 3e-5 rad of -z"),
]


def main():
    log = {}
    for x in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
        h, s = x.split(" ", 1)
        log[s] = h
    out = list(KNOWN)
    for p, s, what in FIXED:
        out.append({"property": p, "status": "fixed", "commit": log[s], "what": f"fixed: property={p} {log[s]} {what}"})
    with open(os.path.join(HERE, "KNOWN_FINDINGS.json"), "w") as f:
        json.dump({"findings": out}, f, indent=1)
        f.write("\n")


main()
