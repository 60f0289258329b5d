#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it after editing)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
M = "src/core/maps/"; S = "src/core/scan_matchers/"; ST = "src/core/states/"

p("C01", "A map cell reads back exactly the updates addressed to it",
  "For every grid map kind, reading a cell gives the prototype's value with exactly the observations and resets addressed to that coordinate applied, each once and in order. "
  "An update or reset of one cell leaves every other cell as it was, including cells in the same row, in the same storage tile and across the coordinate axes. "
  "A cell never written reads as unknown.",
  ["histories", "inputs"], "every sequence of updates, resets and reads, on every map kind and size, at every coordinate the map holds",
  "The map tests write a handful of fixed cells with a last-write-wins mock and read back mostly the same cells; frame violations and double application over long histories are unobserved.",
  [M+"plain_grid_map.h", M+"lazy_tiled_grid_map.h", M+"grid_map.h", M+"rescalable_caching_grid_map.h"],
  [("update/reset through an internal coordinate", M+"grid_map.h"), ("tile and cell lookup, sole ownership before a write", M+"lazy_tiled_grid_map.h")],
  ["operator[] of each map after each operation"])
p("C02", "Growing an unbounded map never loses or moves what was mapped",
  "Writing outside an unbounded map's current extent enlarges the extent to include the written cell, and every earlier cell keeps its content at the same external coordinates and the same world position. "
  "The extent never shrinks, the cell size never changes, and every coordinate is reported as available. "
  "Reading outside the extent gives an unknown cell and changes nothing.",
  ["histories", "inputs"], "every sequence of writes and reads in all directions and distances, from every initial size",
  "The growth tests extend a map once or twice per direction and check a small pattern; sequences mixing directions, odd sizes and repeated growth are unbounded.",
  [M+"plain_grid_map.h", M+"lazy_tiled_grid_map.h"],
  [("ensure_inside: storage growth and origin shift", M+"plain_grid_map.h, "+M+"lazy_tiled_grid_map.h")],
  ["width, height, origin, has_cell and cell reads after each write"])
p("C03", "Copies of a tiled map never affect each other",
  "After a tiled map is copied (constructed from or assigned another), an update or reset of either map, including one that makes it grow, is never visible through the other. "
  "At the moment of the copy both maps read the same everywhere. "
  "This holds through any number of copies, copies of copies and assignments over existing maps.",
  ["histories"], "every interleaving of copies, assignments, updates, resets and growth on a family of maps",
  "No test copies a map at all; sharing is observable only through particular histories of copy and write.",
  [M+"lazy_tiled_grid_map.h"],
  [("copy on write of tiles and cells by use count", M+"lazy_tiled_grid_map.h ensure_sole_owning")],
  ["cell reads on every live map after each operation"])
p("C04", "A multi-resolution map selects the right level and restores it",
  "A multi-resolution map keeps levels whose cell size doubles from the finest up to a single all-covering cell, also after it has grown, and asking for a cell size activates the finest level whose cells are at least that large. "
  "Reads, writes, extents and cell-size queries act on the active level only, and a scoped rescaling always returns the map to the cell size it had. "
  "At the finest level the map behaves as the plain map it is built from.",
  ["histories", "inputs", "configurations"], "every sequence of rescale, write, read and scoped rescale, for every map size and cell size",
  "The tests rescale 4 or 5 fixed maps; they do not mix growth, rescaling and scoped restores.",
  [M+"rescalable_caching_grid_map.h"],
  [("level cache continuity and linear level search", M+"rescalable_caching_grid_map.h"), ("RAII scale restore", M+"rescalable_caching_grid_map.h")],
  ["scale(), width(), height(), scale_id(), scales_nm() and reads"])
p("C05", "Coarse levels of a matching map never under-estimate the fine cells",
  "In a multi-resolution map used for scan matching, the impact of every coarse cell is at least the impact of every known finest cell inside it, at every level and at all times, including after the map grows. "
  "While no cell is reset to unknown, a coarse cell is known exactly when some finest cell inside it is known. "
  "The impact of a coarse cell is never larger than the largest impact any finest cell inside it has ever had, or than that of an unknown cell when none is known.",
  ["histories", "inputs"], "every sequence of impact increases and decreases at any cells of any map size, with growth",
  "Existing tests check hand-placed increases on two map sizes; growth and decreases are not combined with bound checks at every level.",
  [S+"m3rsm_engine.h", M+"rescalable_caching_grid_map.h"],
  [("propagation of the maximum to coarser levels", S+"m3rsm_engine.h update_coarser_maps"), ("insertion of new levels on growth", M+"rescalable_caching_grid_map.h")],
  ["impact and unknown flag of every cell of every level"])
p("C06", "A saved map loads back as the same map",
  "Saving an unbounded map and loading the result into another map reproduces the size, cell size, origin and the content of every cell, at every resolution level when there are several. "
  "The loaded map also behaves the same from then on: applying the same further observations to the original and to the loaded map keeps them equal, for every cell kind. "
  "Loading replaces everything the receiving map held before, and a loaded multi-resolution map works at its finest level.",
  ["histories", "inputs"], "every map history before the save and every sequence of operations after the load, for every cell kind",
  "One test round-trips one small map of one cell kind and never continues after the load.",
  [M+"plain_grid_map.h", M+"rescalable_caching_grid_map.h", M+"naive_grid_cells.h", M+"tbm_grid_cells.h", "src/slams/gmapping/gmapping_grid_cell.h", "src/core/serialization.h"],
  [("save_state/load_state", M+"plain_grid_map.h"), ("serialize/deserialize of cells", M+"grid_cell.h")],
  ["full map content after load and after each further operation"])
p("C07", "Cell estimates merge observations as documented and stay in range",
  "A known cell's occupancy always lies in [0, 1]; each valid observation is merged exactly once by its kind's rule (overwrite, quality-weighted blend, running mean, hit ratio), and an observation whose occupancy is not a number leaves a merging cell unchanged. "
  "The cell turns known with its first valid observation and never becomes unknown again, and the mean of a set of observations does not depend on their order. "
  "The reported discrepancy between a cell and an observation lies in [0, 1].",
  ["histories", "inputs"], "every sequence of valid and invalid observations of any occupancy and quality in [0, 1]",
  "There are no unit tests of the naive or hit-counting cells.",
  [M+"grid_cell.h", M+"naive_grid_cells.h", "src/slams/gmapping/gmapping_grid_cell.h"],
  [("operator+= of each cell kind", M+"naive_grid_cells.h")], ["occupancy(), is_unknown(), discrepancy() after each observation"])
p("C08", "Belief-mass cells conserve mass and combine evidence conjunctively",
  "The unknown, empty, occupied and conflict masses of a belief-mass cell stay non-negative and sum to one after any sequence of observations, and the conflict mass is redistributed so that none remains. "
  "Each valid observation is combined once by the conjunctive rule, so the belief does not depend on the order of the observations unless they contradict each other totally, a total-ignorance observation changes nothing, and total contradiction is handled without producing a non-number. "
  "The reported occupancy is the one its kind derives from the masses, always in [0, 1]. How far a cell is from an observation is the number in [0, 1] its kind derives from the two beliefs, and asking for it changes nothing.",
  ["histories", "inputs"], "every sequence of observations of any occupancy and quality, including extreme ones",
  "There are no unit tests for belief masses or belief-mass cells.",
  [M+"transferable_belief_model.h", M+"tbm_grid_cells.h", "src/slams/credibilist/grid_cell.h"],
  [("conjunctive combination and conflict normalisation", M+"transferable_belief_model.h")], ["belief() and occupancy() after each observation"])
p("C09", "World points and grid cells correspond exactly",
  "Every finite world point belongs to exactly one cell, the cell whose half-open square contains it, on both sides of the axes and at every cell size; a cell's centre maps back to that cell and its bounds are that square. "
  "A rasterized rectangle (a single point or one with a positive area) enumerates every cell the rectangle covers exactly once and no other, with or without the cells that only its border touches. "
  "Conversion between internal and external coordinates is the shift by the map origin.",
  ["inputs", "configurations"], "every point, cell, rectangle and cell size",
  "The grid tests use a single scale and a few hand-picked points and rectangles.",
  [M+"regular_squares_grid.h", M+"grid_rasterization.h"],
  [("floor division by the cell size", M+"regular_squares_grid.h"), ("rectangle to cell range", M+"grid_rasterization.h")], ["world_to_cell, cell_to_world, world_cell_bounds, rasterization output"])
p("C10", "A beam is rasterized into exactly a connected path of cells it touches",
  "The cells returned for a segment start with the cell of its beginning, end with the cell of its end, are pairwise distinct and each is adjacent (sharing an edge or corner) to the one before. "
  "Every returned cell is touched by the segment and no cell whose interior the segment crosses is missing. "
  "This holds in all directions and at all cell sizes. "
  "The line of whole points it falls back on when rounding leads it astray has one point per step along the longer axis, from end to end, none further than half a step across from the segment.",
  ["inputs"], "every segment, in all octants, axis-aligned, diagonal, degenerate, through cell corners, at all cell sizes",
  "The line tests check about forty hand-drawn segments.",
  [M+"regular_squares_grid.h", "src/core/geometry_discrete_primitives.h"],
  [("modified 4-connection line", M+"regular_squares_grid.h world_to_cells")], ["the returned cell sequence"])
p("C11", "Inserting a scan marks beam ends occupied and the cells before them free",
  "Inserting a scan gives, for each usable beam, exactly one observation to the cell holding the beam's end, marked occupied when the beam hit something and free when it did not, and exactly one free observation to each other cell the beam crosses; no other cell changes. "
  "Beams longer than the usable range and the points inside the margins at both ends of the scan are ignored. "
  "The observation's quality is the product of the scan quality and the mapping-quality rule, and near the obstacle the free cells are given the blurred occupancy when blurring is on.",
  ["inputs", "configurations"], "every pose, scan, range limit, margin, quality and blur setting",
  "Nine tests cover single beams in straight directions.",
  [M+"grid_map_scan_adders.h"],
  [("wall-distance blurring scan adder", M+"grid_map_scan_adders.h")], ["the observations each cell receives, and all cells of the map"])
p("C12", "Area occupancy estimates are consistent with how the beam crosses the cell",
  "The occupancy estimated for a cell and a beam is either invalid or has probability and quality in [0, 1]; it is invalid exactly when the beam does not touch the cell in a usable way. "
  "For an occupied cell the estimate is driven by the share of the cell's area beyond the obstacle, for a free cell by the smaller of the parts into which the beam cuts it, so mirroring or rotating cell and beam together by quarter turns does not change the estimate. "
  "The constant estimator always returns its configured values.",
  ["inputs"], "every cell and beam, in all directions and relative positions",
  "The estimator tests enumerate fixed positions on one square cell and some are disabled.",
  [M+"area_occupancy_estimator.h", M+"const_occupancy_estimator.h"],
  [("area split by the line through the obstacle", M+"area_occupancy_estimator.h")], ["estimate_occupancy"])
p("C13", "Scan matching returns the best pose it tested, never worse than the guess",
  "The correction and score a pose-enumerating scan matcher (brute force, hill climbing, Monte-Carlo or one with a custom enumerator) returns belong to the first pose with the highest score among all poses it tested, and the initial guess is always tested, so the result never scores below the guess; nor does that of the fixed-step hill climber. "
  "Scoring again at the guess plus the returned correction gives the returned score. "
  "Observers are told about the start once, every tested pose in order, each improvement when it happens, and the end once with the returned result; a dropped observer is never called and does not disturb the others.",
  ["inputs", "histories", "configurations"], "every score landscape, initial guess, matcher configuration and set of observers, over repeated matchings with one matcher",
  "The smoke tests run a few matchings on one synthetic world and compare only the final pose.",
  [S+"pose_enumeration_scan_matcher.h", S+"grid_scan_matcher.h", S+"hcsm_fixed.h"],
  [("strict improvement rule", S+"pose_enumeration_scan_matcher.h"), ("weak observer list", S+"grid_scan_matcher.h")], ["observer callbacks, returned correction and score"])
p("C14", "Brute-force matching tests exactly its configured grid around the guess",
  "For each matching the brute-force enumerator proposes every offset of its configured x, y and rotation ranges and steps exactly once, around that matching's own initial guess and no other pose; a translation range that is not a whole number of steps may be left by less than one step. "
  "The proposals do not depend on which of them were accepted, nor on matchings done earlier with the same matcher.",
  ["inputs", "histories", "configurations"], "every range and step configuration, acceptance pattern and sequence of matchings",
  "The smoke test runs one matching per matcher instance and checks only the final pose.",
  [S+"brute_force_scan_matcher.h"],
  [("pose index advance and base pose", S+"brute_force_scan_matcher.h")], ["the sequence of proposed poses"])
p("C15", "Hill climbing probes all axes each round and halves steps until its limit",
  "Each round of hill climbing probes one step forward and one step back along the two translation axes and rotation around the best pose known at the start of the round; when no probe of a round improves the score both steps are halved, and after the configured number of such rounds the search ends (with the first probe of a further round at most). "
  "The axes are x and y, or turned along the scan's dominant direction when frame alignment is on. A successful probe becomes the best pose and the next round starts there with the steps unchanged. "
  "The search is the same for every matching with equal scores, regardless of earlier matchings.",
  ["inputs", "histories", "configurations"], "every pattern of accepted and rejected probes, step sizes and failure limits, over repeated matchings",
  "The smoke tests check only the final pose of three matchings on one world.",
  [S+"hill_climbing_scan_matcher.h", S+"hcsm_fixed.h"],
  [("six-direction probe cycle with step halving", S+"hill_climbing_scan_matcher.h")], ["the sequence of proposed poses"])
p("C16", "Monte-Carlo matching obeys its attempt limits and is reproducible",
  "Monte-Carlo matching proposes at most the configured total number of poses per matching and stops once the configured number of failures has accumulated at the current spread. "
  "Samples are drawn around the current best pose; a success after more than a third of the allowed failures halves the spread and clears the failure count, an earlier one changes neither, and each matching starts again from the configured spread. "
  "Two matchers with the same seed and the same scores propose the same poses.",
  ["histories", "inputs", "configurations"], "every pattern of accepted and rejected samples, limits and seeds",
  "No test covers the Monte-Carlo matcher.",
  [S+"monte_carlo_scan_matcher.h", "src/core/random_utils.h"],
  [("attempt counters and dispersion reset", S+"monte_carlo_scan_matcher.h")], ["the sequence of proposed poses"])
p("C17", "Multi-resolution matching finds the same optimum as exhaustive search",
  "Multi-resolution matching returns a pose inside the configured translation and rotation window whose score is the maximum over all candidate poses it could refine to, equal to the maximum an exhaustive search over the same candidates finds, and never below the score of the guess. "
  "An equally scored candidate without translation is never passed over for one with a larger rotation. A scan without usable points gives no correction and an unknown score. "
  "The score it returns is the scan's score at the returned pose, and the map's resolution is as it was before.",
  ["inputs", "configurations", "histories"], "every map content, scan, window and step configuration, over repeated matchings",
  "A dozen smoke tests on two synthetic maps check the returned pose; the pruning rule is never compared with exhaustive search.",
  [S+"m3rsm_engine.h", S+"bf_multi_res_scan_matcher.h"],
  [("best-first branch and bound", S+"m3rsm_engine.h")], ["returned pose, score, and map scale"])
p("C18", "A scan's score is the weighted mean over its usable points",
  "The score of a scan at a pose is the sum of its points' scores, each times its weight and factor, over the sum of the weights; with unit factors it is a weighted mean and lies in [0, 1]; it is 'unknown' when there are no usable points, and does not change when the points are reordered under equal weights. "
  "The points used are exactly those that hit an obstacle, lie within the usable range and fall into the map, thinned to every n-th when a skip rate is set. "
  "Scoring does not change the map, the scan or the pose.",
  ["inputs", "configurations"], "every scan, map, pose, weighting scheme, skip rate and range limit",
  "No test evaluates the scan estimator directly.",
  [S+"weighted_mean_point_probability_spe.h"],
  [("filter_scan and weighted mean", S+"weighted_mean_point_probability_spe.h")], ["filter_scan and estimate_scan_probability results"])
p("C19", "A point's score combines exactly the cells its area covers",
  "The score of a scan point depends only on the map cells its analysis area covers and is in [0, 1]: the obstacle rule uses the cell of the obstacle alone, the maximum and mean rules the maximum and mean over the covered cells, and the overlap rule the overlap-area-weighted mean. "
  "Unknown cells count with their prior estimate. "
  "Evaluating the same point against the same map twice gives the same score whatever was evaluated in between, and after the map changes the new content counts.",
  ["inputs", "histories"], "every map content, obstacle position and analysis area, in every evaluation order",
  "The tests cover a few fixed areas on one pattern, and never evaluate twice or in another order.",
  [S+"occupancy_observation_probability.h", S+"observation_impact_estimators.h", "src/slams/gmapping/gmapping_occupancy_observation_pe.h"],
  [("per-rule combination over the rasterized area", S+"occupancy_observation_probability.h")], ["probability()"])
p("C20", "Each scan moves the pose by odometry plus correction, then extends the map",
  "Handling a scan first moves the robot pose by exactly the scan's odometry, matches the scan from that pose against the map built so far, adds the returned correction, and then inserts the scan at the corrected pose. "
  "The scan is inserted with the 'localized' quality exactly when the correction is not zero (up to rounding, 10^-7) and with the 'raw' quality otherwise, and with the configured margin. "
  "Each live pose and map observer is notified once per scan after the corresponding change, with the new pose and the new map.",
  ["histories", "inputs", "configurations"], "every sequence of odometry and scans, matcher outcome and set of subscribed and dropped observers",
  "No test drives the world; component tests cannot see ordering.",
  [ST+"single_state_hypothesis_laser_scan_grid_world.h", ST+"laser_scan_grid_world.h", ST+"world.h"],
  [("handle_observation", ST+"single_state_hypothesis_laser_scan_grid_world.h"), ("handle_sensor_data", ST+"world.h")], ["calls made to matcher, adder, observers; pose() and map()"])
p("C21", "Particle worlds gate, weigh and map independently",
  "A particle moves by the odometry turned into its own heading and re-matches a scan only once its accumulated movement reaches its sampling distance or rotation; between those it neither matches nor maps. "
  "The first match leaves the weight alone, each later one multiplies it by its score unless the score is unknown, and the scan is inserted at the corrected pose unless the score of a later match is zero or unknown. "
  "The master particle is matched from exactly the pose due, every other one (a duplicate of the master too) from a pose disturbed by noise of its own. Each particle owns its map: what one particle maps is never visible to another, also after resampling, and the filter's pose and map are those of its heaviest particle.",
  ["histories", "inputs", "configurations"], "every sequence of odometry, scans, scores and resamplings for any number of particles",
  "No test covers the particle worlds.",
  ["src/slams/gmapping/gmapping_world.h", "src/slams/gmapping/gmapping_particle_filter.h"],
  [("sampled movement gate", "src/slams/gmapping/gmapping_world.h"), ("particle copy", "src/slams/gmapping/gmapping_world.h")], ["particle poses, weights and maps after each scan"])
p("C22", "Particle weights stay a distribution and resampling keeps fit particles",
  "After normalization the particle weights are finite, non-negative and sum to one, even if all raw weights are zero. "
  "Resampling happens exactly when the effective particle number falls below half of the particles and, in the GMapping filter, the robot has moved by more than 0.7 m or turned by more than 0.2 rad in total since the last one; it keeps the particle count, draws every survivor from the previous generation in proportion to its weight, never keeps a particle of zero weight, and the survivors' weights are their earlier weights normalised again. "
  "The heaviest particle reported has the maximal weight, and duplicated particles are separate individuals afterwards.",
  ["inputs", "histories"], "every weight vector and particle count and every random draw",
  "No test covers the particle filter.",
  ["src/core/particle_filter.h"],
  [("normalisation and low-variance resampling", "src/core/particle_filter.h")], ["weights and identities of particles"])
p("C23", "Settings files are read as written, with includes resolved",
  "Every 'key=value' line of a settings file defines its key; key and value are the literal texts before and after the first '='. Comment lines (beginning with '#'), blank lines and lines without '=' define nothing, and a key that is defined nowhere yields the caller's default. "
  "An include line '<path>' brings in, at that point, the settings of the named file, resolved relative to the directory of the including file, through any nesting; a missing file brings in nothing. "
  "Within one file a later line replaces an earlier one; what an earlier appended or an included file has defined is kept against later files and against the including file; setting a property directly always replaces it. "
  "Booleans ('false' and '0' are false), integers, unsigned integers, reals and strings are read with their full value. "
  "Settings given as launch parameters of a ROS node, as texts or with a type, are read under the same rules: any text other than 'false' and '0' is true, a number is the number written or given, and a parameter that is not set yields the caller's default.",
  ["inputs", "configurations"], "every settings file, acyclic nesting of includes and value type",
  "No test reads a settings file.",
  ["src/utils/properties_providers.h", "src/ros/launch_properties_provider.h"],
  [("line parser and include handling", "src/utils/properties_providers.h")], ["the typed getters"])
p("C24", "A configuration builds exactly the components it names",
  "Each documented configuration value selects the documented component with the documented parameters, and every omitted parameter takes its documented default. "
  "The map built has the configured width and height in metres and the configured cell size. "
  "An unknown component name, or a used parameter that is not a number, is refused instead of silently replaced. "
  "A key of a component that is not selected changes nothing. "
  "Every complete settings file shipped in config/ names only keys that are read and is accepted.",
  ["configurations"], "every combination of documented configuration keys and values",
  "No test builds a system from a configuration.",
  ["src/utils/init_scan_matching.h", "src/utils/init_occupancy_mapping.h", "src/slams/gmapping/init_gmapping.h", "src/slams/credibilist/init_slam.h", "src/utils/init_slam.h", "config"],
  [("init_* factory functions", "src/utils/init_scan_matching.h")], ["dynamic types, accessors and behaviour of the built components"])
p("C25", "A dumped map image shows every cell at its place",
  "A dumped map image has one pixel per map cell, with the size in its header, rows from the largest y down to the smallest and columns from the smallest x to the largest. "
  "Each pixel is the cell's occupancy (limited to 0..1) turned into brightness, occupied dark and free bright, and an unknown occupancy (-1) is mid-grey. "
  "Successive dumps of a dumper go to successively numbered files and leave the earlier ones as they are; dumping does not change the map.",
  ["inputs", "histories"], "every map size, extent and content and number of dumps",
  "No test dumps a map.",
  ["src/utils/map_dumpers.h"],
  [("PGM writer", "src/utils/map_dumpers.h")], ["the written files"])
p("C26", "A synthesized scan sees the first obstacle along every beam",
  "For each beam direction a synthesized scan has one occupied point on the first cell the beam pierces within the scanner's range whose occupancy reaches the threshold, in the middle of the beam's way through that cell, and no point if there is no such cell; no such cell before it on the beam is passed over. "
  "A scanner standing inside an occupied cell sees it where it stands. A cell the beam barely grazes, or reaches just at the range, may be seen or not. "
  "The points are ordered by angle and lie on beams spaced by the scanner's step that cover its field of view once (the beam exactly at the far edge is optional). "
  "Generation depends on the pose's heading only through the beam directions and does not change the map.",
  ["inputs", "configurations"], "every map content, pose and scanner geometry",
  "A few tests look at five beams in hand-drawn cecum maps.",
  ["src/utils/data_generation/laser_scan_generator.h"],
  [("beam casting over rasterized cells", "src/utils/data_generation/laser_scan_generator.h")], ["points of the generated scan"])
p("C27", "Text patterns and primitives are drawn on the map cell for cell",
  "Applying a text raster writes each character (a space: free, anything else: occupied) once to the cells at its row and column from the raster's top-left corner, at the requested or centred place and at the requested scaling, and leaves other cells alone. A raster ends at an empty line or with the text, and the next one in the same stream can be drawn after it. "
  "The cecum primitive draws closed walls on exactly the three sides it promises and leaves the rest free, for every size and orientation, and the free space it reports lies within what is free (and is all of it when both sides are longer than 2).",
  ["inputs"], "every raster, offset, scale and cecum size and orientation",
  "Tests draw a handful of rasters and cecums.",
  ["src/utils/data_generation/grid_map_patcher.h", "src/utils/data_generation/map_primitives.h"],
  [("raster patcher", "src/utils/data_generation/grid_map_patcher.h")], ["cells of the patched map"])
p("C28", "Scan geometry and orientation features are computed consistently",
  "A scan point's world position is the pose plus its range along its bearing turned by the pose's heading, whichever sine/cosine provider is used, and converting a scan to Cartesian form and between frames keeps every point where it is. "
  "A scan written as text and read back is the same scan. "
  "The orientation histogram assigns each consecutive point pair's direction to exactly one valid bucket, so bucket counts add up to the number of pairs counted, and does not depend on the direction of traversal of a straight wall.",
  ["inputs"], "every pose, scan, provider step and histogram resolution",
  "Tests check a dozen fixed angles and scans.",
  [ST+"sensor_data.h", "src/core/trigonometry_utils.h", "src/core/features/angle_histogram.h"],
  [("polar to Cartesian conversion", ST+"sensor_data.h"), ("bucket index", "src/core/features/angle_histogram.h")], ["point coordinates, read-back scans, bucket values"])
p("C29", "Rectangle and segment algebra agrees with the sets of points they denote",
  "The intersection of two axis-aligned rectangles is the rectangle of their common points, in every relative position including crossing, containing and touching, and the overlap ratio is the share of the common area. "
  "Splitting a rectangle yields parts that tile it exactly without overlap; containment, corners, centre, moves and side lengths agree with the bounds. "
  "The intersections of a rectangle with a line are exactly the points where the line meets its sides, each reported once, and those with a segment are the ones that lie on the segment; a line along a side meets it in that side's two ends.",
  ["inputs"], "every pair of rectangles, including degenerate ones, and every ray",
  "Tests cover listed relative positions; crossing rectangles are marked as a known gap.",
  ["src/core/geometry_primitives.h"],
  [("rectangle intersection and splitting", "src/core/geometry_primitives.h")], ["results of the rectangle operations"])
R = "src/ros/"
p("C30", "A laser scan message becomes the scan it describes",
  "Every reading of a laser scan message that is a number and not below the message's minimum range gives one point in its direction, in order: an obstacle at its range if it is below the maximum range, and free space up to the maximum range otherwise (or no point, when exceeding readings are configured to be skipped). "
  "Readings that are no number, below the minimum range or minus infinity give no point. The scan has full quality, and comes with the change of the odometry pose since the previous one. Directions are the same with cached and with plain trigonometry, also when the scanner's geometry changes between messages.",
  ["inputs", "configurations", "histories"], "every message and sequence of messages, skip and cache setting",
  "The ROS adapters are not built or tested by the test suite.",
  [R+"laser_scan_observer.h", "src/core/trigonometry_utils.h"],
  [("message to scan conversion", R+"laser_scan_observer.h")], ["the scans handed to the world"])
p("C31", "A drive hands over every usable scan once, in order, with its transform",
  "Replaying a bag hands over exactly the scans for whose time the transform to the odometry frame is known, in the order recorded, each once, with its own time stamp and the transform at that time, however scans and transforms are interleaved and packed. "
  "Scans older than the first transforms are dropped, scans whose transform has not come yet wait, and neither loses a usable scan or stops the replay. Ignored transforms and other topics play no part. "
  "Live, every observer that is alive gets each scan once it becomes usable, in the order of subscription, up to the configured queue length.",
  ["inputs", "histories", "schedules"], "every interleaving of scans and transforms, frame chain and ignore list",
  "The ROS adapters are not built or tested by the test suite.",
  [R+"bag_topic_with_transform.h", R+"topic_with_transform.h"],
  [("bag synchronization", R+"bag_topic_with_transform.h"), ("live topic", R+"topic_with_transform.h")], ["extracted messages, transforms and stamps; observer calls"])
p("C32", "Published poses, corrections, maps and trajectories tell the state",
  "With every pose update each live pose publisher sends the robot's pose in the map frame, and the correction publisher the transform from map to odometry frame through which odometry's latest planar pose becomes the robot's pose; each under the configured frame names and with the right time stamp. "
  "An asynchronous correction publisher keeps sending the latest correction until it is destroyed, and then stops. "
  "A published occupancy grid has the map's size, resolution and place, cells row by row from the bottom left with their occupancy in percent (-1: unknown), and is published with an update if and only if the publishing interval has passed. "
  "A dumped trajectory has one line per pose with its time to the nanosecond. The transforms ignored are those listed in the configuration.",
  ["inputs", "histories", "configurations"], "every sequence of scans, pose and map updates; every map; every time stamp",
  "The ROS adapters are not built or tested by the test suite.",
  [R+"pose_correction_tf_publisher.h", R+"robot_pose_observers.h", R+"occupancy_grid_publisher.h", R+"init_utils.h"],
  [("pose correction", R+"pose_correction_tf_publisher.h"), ("trajectory dumper", R+"robot_pose_observers.h"), ("grid publisher", R+"occupancy_grid_publisher.h")],
  ["sent transforms and messages, trajectory file"])
p("C33", "The programs put it all together: a drive gives its trajectory and its map",
  "Run on a recorded drive with a configuration, the bag runner writes one trajectory line per usable scan with the robot's pose at the scan's time, and a picture of the map that the beams of these scans draw with the configured cells, occupancies, qualities, ranges and map size; with odometry as the only source of localization both are exactly determined (the trajectory also with gmapping). Called with a word too many or too few it tells its usage, fails and writes nothing. "
  "Fed the same drive live, the single-hypothesis node publishes for every usable scan the correction, the pose and (when due) that map, whether its parameters are typed, given as text or taken from a configuration file, which takes precedence. "
  "In every node the published correction takes the odometry pose to the published pose.",
  ["inputs", "histories", "configurations"], "every drive and configuration",
  "No test runs the programs.",
  [R+"lslam2D_bag_runner.cpp", R+"single_hypoth_slam_node.cpp", R+"launch_properties_provider.h", "src/slams/gmapping/gmapping.cpp", "src/slams/credibilist/slam.cpp", "src/utils/init_slam.h"],
  [("bag runner", R+"lslam2D_bag_runner.cpp"), ("node", R+"single_hypoth_slam_node.cpp")], ["trajectory file, map picture, published transforms and grids"])
p("C34", "The fixed-step climber ends where no single step improves the score",
  "The hill climber with fixed steps (a centimetre along an axis, half a degree) ends at a pose a whole number of steps away from the guess where no single step forward or back along an axis scores higher. Its result is the score of that pose and never below the guess's, and it does not move when the guess is such a place already.",
  ["inputs", "histories"], "every score landscape, guess and sequence of matchings",
  "The smoke tests match a handful of drifts in one map; a missed direction shows only in a landscape that needs it.",
  ["src/core/scan_matchers/hcsm_fixed.h"],
  [("climbing rounds", "src/core/scan_matchers/hcsm_fixed.h")], ["returned correction and score, scores around it"])
p("C35", "The drift detector re-checks only ambiguous scans, along their direction",
  "The ambiguous drift detector lets the wrapped matcher's correction and score stand unless at least 40 % of the scan's points follow their neighbour in one direction class. Otherwise it scores the scan without the points of so frequent a direction at the matched pose and along that direction by up to 25 cm in steps of 10 cm, keeps the best place (the matched pose unless another scores higher), and returns the full scan's score there. The wrapped matcher is asked once, with what the detector was given; resetting the detector resets it.",
  ["inputs", "configurations", "histories"], "every scan, wrapped matcher and landscape of scores",
  "No test runs the detector.",
  ["src/core/scan_matchers/connect_the_dots_ambiguous_drift_detector.h", "src/core/features/angle_histogram.h"],
  [("second pass", "src/core/scan_matchers/connect_the_dots_ambiguous_drift_detector.h")], ["calls of the wrapped matcher and the estimator, returned correction and score"])
p("C36", "Offline matching of saved data gives the configured matcher's answer",
  "The offline matching tool, given a configuration, a pose, a map and a scan written by the framework, prints exactly one answer: for a brute-force configuration the best correction of the configured grid (none unless it scores higher than the saved pose) with its score in the saved map (both over the points the configured skip rate and range leave, thinned once), for an idle matcher no correction, and for every other matcher a score not below the saved pose's. A scan without obstacles has an unknown score and no correction. Without one of its inputs the tool fails and answers nothing.",
  ["inputs", "configurations"], "every saved pose, growing map and scan, with every configurable matcher",
  "No test runs the tool or reads back what was saved through it.",
  ["src/utils/sm_runner.cpp", "src/utils/init_scan_matching.h", "src/core/maps/plain_grid_map.h", ST+"sensor_data.h"],
  [("tool", "src/utils/sm_runner.cpp"), ("map state", "src/core/maps/plain_grid_map.h")], ["the tool's printed answer and exit code"])
p("C37", "The helper nodes pass on the way gone, provided grids and transforms",
  "The path publisher sends, whenever the robot's place in the map frame is known, everything it sent before plus that place with its time (the latest one known for the whole chain of transforms), in the map frame. "
  "The adapter of recorded drives forwards every transform unchanged and in order, except recorded corrections from map to odometry: in place of each it sends the first of them, as the transform from the provided map to the map. It keeps sending the latest provided grid, unchanged, in the provided map's frame.",
  ["inputs", "histories", "schedules"], "every history of transforms and grids, frame names",
  "The helper nodes are not built or tested by the test suite.",
  [R+"path_publisher.cpp", R+"wg_pr2_bag_adapter.cpp"],
  [("path publisher", R+"path_publisher.cpp"), ("adapter", R+"wg_pr2_bag_adapter.cpp")], ["published paths, grids and sent transforms"])
p("C38", "The search-space explorer draws what the scan is and how well it fits everywhere",
  "The search-space explorer, for every map around its robot, writes exactly two pictures. One shows the scan the robot takes in the map: the cells in which a beam ends are black, the other cells beams go through white (the last beam through a cell decides), everything else mid-grey. The other shows, in a grid of the given resolution, for every place tried - from a metre before to a metre beyond the robot along both axes, both ends reached - the mean occupancy of the map's cells in which the scan taken at that place would have its points, darker for a better fit, and mid-grey where no place was tried.",
  ["inputs"], "every map with something to see from the robot, every resolution",
  "No test runs the explorer; it crashed in its first case before the repair.",
  ["src/utils/pose2D_search_space_evaluator.cpp", "src/core/scan_matchers/brute_force_scan_matcher.h", "src/utils/map_dumpers.h"],
  [("explorer", "src/utils/pose2D_search_space_evaluator.cpp"), ("enumeration", "src/core/scan_matchers/brute_force_scan_matcher.h")], ["the files written"])
p("C39", "Poses, points, moves and tolerant comparisons keep the laws of arithmetic",
  "Poses, moves, points and cell coordinates add, subtract, scale and negate component by component, exactly on numbers that are exact; headings add without wrapping. The difference of two poses moves the one to the other, a move and its opposite cancel out, a pose that was copied is a pose of its own, squared lengths and distances are those of the x and y components, and a move counts as none exactly when all of its components are zero up to rounding. "
  "Finite numbers are equal exactly when they differ by no more than 10^-7 of the larger magnitude (of one, if both are smaller than that), 'less' and 'ordered' agree with that, a value limited to a range is the nearest value in the range, a whole multiple is recognised despite rounding, the next power is the smallest one not below the number, and degrees and radians convert into each other. Known occupancies are equal when probability and quality are; all unknown ones are equal. "
  "A random move draws each component from its own variable - samples of a uniform variable stay within its limits and cover them, samples of a Gaussian one have its mean and spread - and a copied one draws the same from the same source of chance.",
  ["inputs", "histories"], "every sequence of moves and every finite number within the lattice's range",
  "Nothing tests these classes by themselves (math_utils.h says so).",
  [ST+"robot_pose.h", ST+"state_data.h", "src/core/math_utils.h", "src/core/random_utils.h", "src/core/geometry_primitives.h", "src/core/geometry_discrete_primitives.h"],
  [("poses and moves", ST+"robot_pose.h"), ("comparisons", "src/core/math_utils.h"), ("random variables", "src/core/random_utils.h")], ["results of the operators"])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
