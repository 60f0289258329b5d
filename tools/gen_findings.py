#!/usr/bin/env python3
"""Writes known_findings.json: genuine defects of the code (run by hand only; no check writes it)."""
import json, os, subprocess
F = {  # commit subject -> (property, what failed)
 "populate resolution levels that are added": ("C05", "a level added by growth did not know the cells mapped before, so its bound was too low"),
 "keep the occupancy of a totally ignorant TBM": ("C08", "occupancy of a cell without any evidence was NaN (0/0)"),
 "brute-force enumerators start from the pose": ("C14", "the second matching proposed poses around the previous matching's guess"),
 "a direction that rounds to 180 degrees": ("C28", "a point pair whose direction rounds to 180 degrees indexed one past the last bucket"),
 "hill climbing with frame alignment probes": ("C15", "the forward and backward probes were mirrored instead of being turned along the frame"),
 "every gmapping particle maps on a map": ("C21", "all particles shared one map object after construction"),
 "particle weights stay a distribution": ("C22", "weights became NaN when all raw weights were zero or a score was unknown"),
 "a duplicated gmapping particle draws": ("C21", "copies of a particle drew the same noise for ever"),
 "gmapping point probability follows": ("C19", "a cached probability was returned after the map or the point had changed"),
 "a beam through a cell corner keeps": ("C10", "the cell path left the segment after a corner crossing"),
 "corner crossings are told apart": ("C10", "an absolute tolerance took every crossing for a corner at small cell sizes"),
 "rectangles that cross each other": ("C29", "the intersection of crossing rectangles was empty"),
 "a beam along an edge is shifted": ("C12", "the shift depended on the first cell ever estimated; a zero-length beam aborted"),
 "the area beyond an obstacle": ("C12", "the side of the obstacle was chosen by distance to the world origin, not to the beam's start"),
 "a scan shorter than its margins": ("C11", "a scan with fewer points than the margins was read out of bounds"),
 "an unknown scan probability is": ("C18", "is_prob_unknown compared NaN with ==, so it was never true"),
 "a scan written as text keeps": ("C28", "a scan was written with 6 significant digits, so reading it back moved its points"),
 "a scanner inside an obstacle": ("C26", "a scanner standing in an occupied cell, beyond the middle of the beam's way through it, aborted the generation"),
 "a scan without usable points is": ("C17", "multi-resolution matching aborted on a scan without usable points"),
 "the width and height of the configured map": ("C24", "the configured width became the height of the map and the other way round"),
 "the configured observation quality estimator": ("C24", "its key was misspelled in the code (typetype), so the configured estimator was ignored"),
 "the configured window of the gmapping": ("C24", "its key was misspelled in the code (cutrom), so the configured window was ignored"),
 "the shipped GMapping settings name": ("C24", "config/slams/gmapping_base.properties did not name the scan probability estimator, so every run configured by it was refused"),
 "the shipped experimental vinySLAM settings": ("C24", "config/slams/viny_slam_experimental.properties did not name the occupied area model, so it was refused"),
 "keep the observations number": ("C06", "a loaded mean probability cell forgot how many observations it holds, so its next update differed"),
 "keep the hit counters and": ("C06", "a loaded gmapping cell forgot its hit counters and obstacle position, so it reported and merged differently"),
 "a reading that is not a number": ("C30", "a NaN reading became an obstacle at a range that is not a number"),
 "a bag may start with scans": ("C31", "a scan recorded before the first transform aborted the replay (LookupException)"),
 "scans cached behind a dropped one": ("C31", "when the bag ended after a scan was dropped, the usable scans behind it were lost"),
 "the nanoseconds of a dumped": ("C32", "nanoseconds were written without leading zeros, so 5.05 s was dumped as 5.50000000"),
 "an asynchronous pose correction": ("C32", "destroying the publisher with its thread running terminated the program"),
 "the shipped limits of the multi-resolution": ("C24", "the shipped settings named the limits by keys that nothing reads"),
 "the search space explorer draws its scan": ("C38", "the search space explorer (p2D_ss_evaluator) was killed by a null dereference in its first case: it drew the scan without an observation quality estimator"),
 "sm_runner leaves thinning the scan to the matcher": ("C36", "with a skip rate of k the offline tool matched only every k*k-th point of the scan: it filtered the scan itself and the matcher filtered it again"),
 "a whole multiple is one also": ("C39", "is_multiple_of(0.3, 0.1) was false: the ratio was cut to a whole number, so a ratio rounded down by a hair was none"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for line in reversed(log):
    h, s = line.split(" ", 1)
    for k, (p, w) in F.items():
        if s.startswith("fix: " + k):
            fixed.append("fixed: property=%s %s %s" % (p, h, w))
assert len(fixed) == len(F), (len(fixed), len(F))
assert len(fixed) == sum(" fix: " in " " + l.split(" ", 1)[1] for l in log), "unrecorded fix"
FINDINGS = [
 {"property": "C17", "id": "m3rsm-unknown-prior",
  "site": "src/core/scan_matchers/m3rsm_engine.h propagate_area / branch",
  "what": "cells never seen whose prior impact is higher than that of the known cells in the same coarse cell are not "
          "covered by the coarse cell's bound: on a checkerboard of free and unseen cells the best pose is missed or the "
          "'Bounding assumption is violated' assertion aborts"},
 {"property": "C26", "id": "lasergen-corner",
  "site": "src/core/geometry_primitives.h Ray::intersect_horiz_segm / intersect_vert_segm, used by LaserScanGenerator",
  "what": "a beam that passes exactly through the corners of an occupied cell may not see it: rounding puts the crossings a hair "
          "outside both sides, the cell counts as touched and the beam goes on (room of cells -3..3 of 0.1 m, robot in the "
          "middle of cell (2,-1), beam at 135 degrees). A tolerant comparison sees the cell, but moves the reading of the existing test "
          "cecumCenterFacingDown8beams240FoW past its tolerance, so it is recorded instead of repaired"},
]
json.dump({"findings": FINDINGS, "fixed": fixed},
          open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json"), "w"), indent=1)
print(len(fixed), "fixed", len(FINDINGS), "open")
