#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (run by hand after a change of the list of properties)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "cameratransform/"
C, PR, SP, L, PA, G, R, ST, SC, U = [P + n for n in ("camera.py", "projection.py", "spatial.py", "lens_distortion.py",
                                     "parameter_set.py", "gps.py", "ray.py", "statistic.py", "scene.py", "utils.py")]
PROPS = []


def prop(id, title, statement, over, text, tests, files, mech, level_note, state=None):
    assert len(title) <= 80, title
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                       anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                                    observe_at=["public API calls, wrapped from outside"], hook_needed=None)), level_note))


prop("C01", "Space points appear in the image where the camera model puts them",
     "For every camera (rectilinear, cylindrical or equirectangular projection, with either orientation convention and any lens) and every space "
     "point in the domain of the projection, the image position is the one given by the documented orientation, projection and lens equations. "
     "A rectilinear camera reports not-a-number for points behind it (unless hiding of such points is switched off) and a position for every point "
     "in front of it; panoramic cameras show points in every direction. Moving or scaling the camera and the scene together does not change the image.",
     ["inputs", "configurations"], "all cameras x all points x both settings of hide_backpoints",
     "the tests project a few hundred random points with moderate parameters through their own inverse, which hides an error made in both directions",
     [C, PR, SP, L], [("imageFromSpace", C), ("imageFromCamera of the three projections", PR), ("cameraFromSpace", SP), ("distortedFromImage", L)],
     "reference-model oracle (and OpenCV as second oracle) on every observed projection; bounded by the sampled cameras and points")
prop("C02", "Image points map to the visible space point that satisfies the constraint",
     "For every camera, image point and constraint (a given X, Y or Z coordinate, a distance, or a triangle mesh; scalar or one value per point), the space "
     "point returned satisfies the constraint, lies on the line of sight of that image point in front of the camera, and projects back to the same image point. "
     "If the constraint can only be met behind the camera, or the line of sight misses the mesh, the answer is not-a-number; for a mesh the nearest hit in front of the camera is returned. "
     "Rays start at the camera position, point along the line of sight, have unit length on request, and every point on them projects back to the image point.",
     ["inputs", "configurations"], "all cameras x image points x constraints",
     "the tests only use Z/X/Y scalars and distances with moderate rectilinear cameras and one mesh",
     [C, PR, SP, L, R], [("spaceFromImage, getRay", C), ("getRay of the projections", PR), ("ray_intersect_triangle", R)],
     "analytic line-of-sight oracle on every observed answer, bounded by the sampled cameras and constraints")
prop("C03", "The orientation is the documented rigid motion, and rotateSpace rotates it",
     "For all orientation parameters the conversions between space and camera coordinates are inverse to each other, preserve distances and handedness, map the camera "
     "position to the origin, and equal the documented rotations for tilt/heading/roll and for yaw/pitch/roll; directions convert without the position. "
     "Rotating the space by an angle turns camera heading and position so that the camera sees every scene point that is rotated along with it at an unchanged image position.",
     ["inputs", "configurations", "histories"], "all angles (also beyond 360 degrees), positions, points; all sequences of rotations",
     "tests check random values in a narrow range and only round trips",
     [SP, C], [("SpatialOrientation", SP), ("SpatialOrientationYawPitchRoll", SP), ("rotateSpace", C)],
     "reference rotation oracle plus rigid-motion invariants")
prop("C04", "Lens distortion follows its formula and can be undone",
     "For every lens and every image point, adding the distortion gives the documented Brown or ABC polynomial about the optical centre, scaled by the focal lengths (Brown) or half of the smaller image side (ABC). "
     "Wherever the polynomial is clearly increasing, removing the distortion is its inverse to well below a hundredth of a pixel; the optical centre stays fixed, zero coefficients change nothing, and coefficients, focal lengths, centre or image size "
     "that are changed later take effect at once.",
     ["inputs", "configurations", "histories"], "all coefficients x all points x all later changes of parameters",
     "tests only do a round trip with a few coefficients",
     [L], [("BrownLensDistortion", L), ("ABCDistortion", L), ("invert_function", L)],
     "independent polynomial and bisection oracle, judged where the radial function has slope >= 0.1")
prop("C05", "Results depend only on the current parameter values, not on their history",
     "After any sequence of parameter changes (through the camera, its projection, orientation or lens, or a camera group; as values, value/uncertainty pairs or None for the default; by GPS position, rotation, "
     "fitting helpers or sampling), the camera reads back the values set last and transforms every point exactly like a freshly constructed camera with these values. "
     "Changing one camera never changes another one that does not share the changed component.",
     ["histories", "configurations"], "all sequences of parameter changes interleaved with queries",
     "tests construct each camera once and never change it after use",
     [PA, C, PR, SP, L], [("ClassWithParameterSet.__setattr__/__getattr__, callbacks", PA), ("_initCameraMatrix", SP), ("_init_inverse", L), ("CameraGroup", C)],
     "model of the parameter history + comparison with a fresh camera after every step",
     [dict(name="parameters", meaning="value, state, default and callback per parameter", where=PA), dict(name="orientation_matrix", meaning="cached rotation", where=SP)])
prop("C06", "Queries change nothing: not their arguments, not the camera, not later answers",
     "No transformation, projection, geometry, GPS, geometry-helper or image function changes the arrays or lists handed to it or any parameter of the camera, "
     "and the same query asked again gives the identical answer, whatever other queries were made in between; a returned array can be overwritten without affecting later answers. "
     "Nor do these functions touch the global random numbers, numpy's error handling and print options, or the working directory.",
     ["histories", "inputs"], "all sequences of queries with all argument containers",
     "tests never look at the arguments after the call and never repeat a call",
     [C, PR, SP, L, G, R, U], [("ensure_array_format", U), ("queries of Camera and CameraGroup", C)],
     "bus monitor compares deep snapshots of arguments and parameters before/after each client call and replays queries")
prop("C07", "A batch of points gives what the points give one by one, in any container",
     "Every vectorised function gives for N points exactly the rows it gives for each point on its own (with the per-point constraint of that row), in the same order and with the documented shape, also for N = 1, 2, 3 and for inputs of more dimensions. "
     "Lists, tuples, integer, non-contiguous and read-only arrays give the same result as a plain float array of the same numbers.",
     ["inputs"], "all batch sizes, shapes and containers of all vectorised functions",
     "tests use one batch size and numpy float arrays mostly",
     [C, PR, SP, L, G, R, U], [("ensure_array_format", U), ("all Points2D/Points3D functions", C)],
     "metamorphic oracle: batch against single calls of the same function")
prop("C08", "Saving and loading restores the camera; a failed save keeps the old file",
     "For every camera and every component with any projection, orientation and lens, loading a saved file restores all parameters (including the GPS position and the kind of projection, lens and orientation parameters) so that "
     "every transformation gives the same results as before saving, also when loaded into an object that had other values. Saving is repeatable and does not change the object, "
     "a save that fails because a value cannot be stored leaves an existing file as it was, and loading a file that is missing or cannot be read as a saved camera (empty, truncated, of an unknown kind) raises an error and leaves the camera as it was. The files are plain JSON objects with the values of the parameters by their names and numbers for the kinds, which keep their meaning: files written before load as the cameras they were.",
     ["inputs", "configurations", "histories", "fault_sequences"], "all cameras, all parameter types, load into any object, values that cannot be written",
     "tests save and load one default camera",
     [C, PR, SP, L], [("save/load", C), ("save/load of the components", PR), ("load_camera", C)],
     "round trip through real files in a scratch directory with state comparison; faults injected by unserialisable values and damaged files")
prop("C09", "GPS distance, bearing and conversion to metres obey spherical geometry",
     "For all points on the globe the distance is the great-circle distance on the documented earth radius (symmetric, zero only for equal points, small distances exact), the bearing is the initial great-circle bearing, and moving a distance along a bearing arrives at the point with that distance and bearing. "
     "Conversions between GPS positions and metric positions relative to an origin are inverse to each other, keep east/north directions and heights, and agree with a camera placed at that GPS position, so that gps -> image -> gps returns the start. "
     "All of it holds across the date line, near the poles and for batches.",
     ["inputs", "configurations"], "all pairs of positions, distances, bearings, heights, origins",
     "tests contain a handful of European positions",
     [G, C], [("getDistance, getBearing, moveDistance", G), ("gpsFromSpace, spaceFromGPS", G), ("setGPSpos, gpsFromImage, imageFromGPS, spaceFromGPS, gpsFromSpace", C)],
     "vector geodesy oracle")
prop("C10", "GPS strings are formatted and parsed without changing the position",
     "Formatting a position and parsing the string returns the position to within the printed precision, for every latitude and longitude, both signs, and every documented format of degrees, minutes and seconds; minutes and seconds stay in range "
     "and the sign or hemisphere letter is right, also when rounding carries over. The parser accepts the documented notations (hemisphere letters after the numbers or a sign, decimal degrees, degree-minute, degree-minute-second, all variants of the minute and second symbols, lists of strings, heights) and gives the signed value they denote.",
     ["inputs"], "all positions x formats x notations",
     "tests use four positions",
     [G], [("formatGPS", G), ("gpsFromString", G), ("splitGPS", G)],
     "independent formatter/parser as oracle")
prop("C11", "Top views and undistorted images show the current camera, pixel for pixel",
     "Every pixel of a top view is the image value at the projection of the ground point which this pixel represents (given extent, scaling and height Z), and every pixel of an undistorted image is the image value at its distorted position, for any camera, image type and extent; pixels without a source are transparent/empty. "
     "After any change of the camera or of the requested extent, scaling or height the next picture is that of the new settings, and asking twice gives the same picture.",
     ["inputs", "configurations", "histories"], "all cameras, images, extents, scalings and sequences of changes between calls",
     "one test compares nothing but the shape",
     [C], [("getTopViewOfImage, _getMap", C), ("undistortImage, _getUndistortMap", C), ("generateLUT caches", C)],
     "pixel-wise recomputation from the reference model; pixels whose source is ambiguous by rounding are not judged",
     [dict(name="map / last_extent / last_scaling", meaning="cached remap tables", where=C)])
prop("C12", "Ray intersections are exact, and NaN where there is none",
     "The intersection of rays with a mesh is the nearest triangle hit in front of the origin (boundary included, both sides of the triangle), and not-a-number when there is none, for any number of rays and triangles including degenerate triangles. "
     "The closest points of two lines are the points of least distance, each on its line, their distance is the distance of the lines (parallel lines included), and the closest point on a line is the foot of the perpendicular.",
     ["inputs"], "all rays, lines and meshes",
     "tests use a few hand made cases",
     [R], [("ray_intersect_triangle", R), ("getClosestPointFromLine, intersectionOfTwoLines, distanceOfTwoLines, extrudeLine, areaOfTriangle", R)],
     "barycentric and least-squares oracle")
prop("C13", "Camera groups and stereo reconstruct the points that their cameras see",
     "For any group of cameras the image positions are those of its cameras on their own, and the space point reconstructed from the images of a point in two cameras is that point, for single and multiple points; for inconsistent images it is the midpoint of the shortest connection of the two rays and the ray distance is its length. "
     "For rectilinear cameras the point correspondence errors are the distances to the epipolar lines (zero for consistent images), and cameras with tilt, heading and roll that are set up from correspondences see the points where they were given. The baseline is the distance of the first two cameras, scaling the space multiplies all camera positions by the factor with unchanged views of the scaled scene, "
     "and a change through the group, a camera or a component reaches exactly the cameras which share that component (a list of components shorter than the others is repeated).",
     ["inputs", "configurations", "histories"], "all groups with own or shared components, all points, all scalings",
     "tests use two nearly default cameras",
     [C, R], [("CameraGroup.spaceFromImages, imagesFromSpace, discanteBetweenRays, getBaseline, scaleSpace, pointCorrespondenceError, setCameraParametersByPointCorrespondence", C), ("intersectionOfTwoLines", R)],
     "reference model of both cameras plus analytic two-ray geometry")
prop("C14", "Measurements in the image have their geometric meaning",
     "The height of an object from its foot and head in the image, its length on the ground, the horizon, the view border and cone and the ground area per pixel are those of the scene: an upright object of known height and position, projected with the camera, is measured with that height; "
     "horizon points are the pixels whose line of sight meets the ground level at the distance of the horizon; pixel areas are those of the ground quadrilaterals of the pixel corners, the cone consists of the camera position and the lines of sight of the image corners or the ground positions of the image border. Not-a-number stands for what is not visible.",
     ["inputs", "configurations"], "all cameras and objects",
     "tests check one camera",
     [C], [("getObjectHeight, getObjectLength", C), ("getImageHorizon, getImageBorder, getCameraCone, generateLUT", C)],
     "synthetic scenes with known ground truth")
prop("C15", "Fit information is scored and fitted as documented",
     "The log probability of a camera is the sum of the documented log-densities of all information added so far (object heights and lengths, horizon, landmarks in space or GPS, point correspondences and baselines of groups, custom terms), recomputed from the current parameters, with -infinity (never an error) for impossible parameters; information which is only to be plotted, and plotting, change nothing, and clearing removes all terms. "
     "Fitting changes only the parameters it is asked to fit, keeps them inside their bounds, leaves the camera at the reported result, never (with the default method) makes the log probability worse than at the given start, recovers the true parameters from exact data when started nearby, and raises a ValueError if no start with non-zero probability is found.",
     ["inputs", "configurations", "histories"], "all combinations and orders of information, parameters and starting points",
     "tests fit one scene with fixed parameters",
     [C, ST, PA], [("addObjectHeightInformation ... getLogProbability", C), ("fit, FitParameter", ST), ("set_fit_parameters", PA)],
     "independent scipy.stats recomputation of the log probability, before/after state monitor for fit")
prop("C16", "Sampling walks inside the bounds and reports the posterior it saw",
     "A Metropolis trace has one row per iteration after the burn-in (a number or a fraction of the iterations), every tried and every recorded value respects its bounds, every recorded probability is the log probability of the recorded parameters, a better position is always accepted and a worse one with the ratio of the probabilities (next to the bounds including the compensation for the cut-off steps, so that a long chain has the distribution of the posterior up to its bounds and never stands still), and equal seeds give equal traces. Rows of a chain with a prior trace consist of the values that were evaluated, and the other sampler (fridge) is told the log probability of the values it samples. "
     "After sampling, and with set_to_mean, the camera has the most probable row of its trace; sample() gives it one row of the trace and returns the probability of that row. Without a trace, parameters set as (mean, standard deviation) are drawn from that normal distribution and returned to their mean. All other parameters stay as they were, and the camera computes with the new values at once.",
     ["histories", "inputs", "schedules"], "all traces, seeds and camera states",
     "tests run one short chain without looking at the trace",
     [ST, PA, C], [("metropolis, FitParameter", ST), ("set_trace, set_to_mean, sample, metropolis", PA)],
     "online monitor of every proposal and offline checker over the recorded trace")
prop("C17", "Projections built from any description of the lens agree",
     "A projection built from focal length in pixels, from focal length in mm with sensor size, or from a field of view (in one or both directions), with image given as size or array and centre given or default, has the focal length, centre and field of view that the description means: the reported field of view is the angle between the rays of the image borders, and "
     "field of view and focal length convert into each other. Explicit values win over derived ones and contradictory or missing descriptions are rejected with an error instead of being guessed.",
     ["inputs", "configurations"], "all combinations of constructor arguments of all projections",
     "tests use one combination",
     [PR], [("CameraProjection.__init__", PR), ("getFieldOfView, focallengthFromFOV, imageFromFOV", PR)],
     "reference constructor table, ray-angle oracle")
prop("C18", "Camera parameters from EXIF and the sensor database are right or refused",
     "The camera parameters read from an image file are its focal length, image size and the sensor size of its camera model (from the sensor database, or derived from the EXIF resolution tags), for every way EXIF stores numbers. "
     "A missing, broken or failed download of the database never destroys an existing database file, never leaves a broken one behind, and makes the function fail cleanly or fall back.",
     ["inputs", "fault_sequences", "crash_points"], "all EXIF contents, database contents and download faults",
     "tests need the network and are skipped",
     [C], [("getCameraParametersFromExif, _getSensorFromDatabase", C)],
     "stand-in network with injected faults, scratch directory, generated EXIF files")
prop("C19", "Scenes and epipolar plots show what the cameras see",
     "A cube, rectangle or grid added to a scene consists of exactly the edges described by its position and size, and scenes do not share objects. The views of a scene draw every object of it in the three coordinate planes and in the image at the positions where the current camera of the scene sees it (gaps for what is not visible), with the camera cone, the horizon and the limits of the image; "
     "a rendered image file has the size of the camera image (to a pixel of rounding) and shows the projected objects and nothing else, for every camera and after any sequence of changes and earlier renderings. The epipolar plots of two rectilinear cameras show each point in the picture of its camera, with the image of the line of sight of its counterpart, and the written and dashed distances are those to that line.",
     ["inputs", "configurations", "histories"], "all cameras, objects and sequences of additions, camera changes, views and renderings",
     "no test touches scenes or plots",
     [SC, C], [("Scene.addCube, addRect, addGrid, plotSceneViews, renderImage", SC), ("plotEpilines, plotMyEpiploarLines", C)],
     "drawn lines and rendered pixels compared with the reference model")
prop("C20", "Plots and summaries of fit information and traces show the data and the model",
     "The plot of the fit information of a camera shows, for every piece of information that was added (heights, lengths, landmarks in space or GPS, horizon; single points or many; scored or only plotted), the given image points, the positions where the camera with its current parameters would see them, the connection of each pair, and the horizon line; in the given color, over the given picture, with the limits of the image of the camera. "
     "The plot of a trace shows for each parameter its recorded values in their order, their smoothed distribution, their mean and the most probable value, for every index of the table and every option, and the printed summary gives their mean and standard deviation rounded to the digits of the standard deviation. Neither changes the camera or the trace.",
     ["inputs", "configurations", "histories"], "all combinations of information, later camera changes, traces and plot options",
     "no test looks at a plot or a summary",
     [C, ST], [("addObjectHeightInformation ... plotFitInformation", C), ("plotTrace, printTraceSummary, print_mean_std", ST)],
     "the drawn lines, points and texts compared with recomputed positions and statistics")

prop("C21", "A query that does not finish leaves no trace",
     "When a query (projection, ray, GPS, measurement, horizon, probability, undistorted picture, top view, look-up table, group query) is stopped before it has finished - by Ctrl-C, missing memory or any other error at any point inside, or because its arguments make no sense - "
     "no parameter, no fit information and no later answer of the camera or group changes: in particular pictures, maps and plots that are asked for afterwards with the same or other arguments are those of a camera that was never asked. "
     "When the probability of a fit or a sampling fails at any evaluation, the answers of the camera are those of the parameters it reports, parameters that were not fitted are as before, and the next fit or sampling gives what it would have given without the failed one.",
     ["crash points", "histories", "inputs"], "all queries x all points where they can stop x all queries before and after",
     "no test lets a call fail",
     [C, PA], [("_getUndistortMap, _getMap, undistortImage, getTopViewOfImage", C), ("generateLUT", C), ("fit, metropolis", PA)],
     "errors are raised at random lines of the package while queries run, the answers afterwards are compared with those of an equal camera that was never interrupted")

prop("C22", "Threads do not disturb one another",
     "When several threads ask the same camera or group at the same time (projections, rays, GPS positions, measurements, horizon, look-up tables, undistorted pictures and top views with the same or other arguments), each of them gets the answer it would get alone, and the camera stays as it was. "
     "When several threads work with cameras of their own (creating, changing, asking, rotating, saving and loading, fitting), each camera behaves as if it was the only one.",
     ["schedules", "histories", "configurations"], "all interleavings of the lines of the package in 2 or 3 threads",
     "no test uses threads",
     [C, PR, SP, L], [("_getUndistortMap, _getMap", C), ("cameraFromSpace, spaceFromCamera", SP), ("getRay, imageFromCamera", PR), ("distortedFromImage, imageFromDistorted", L)],
     "a scheduler hands over between the threads at random lines, the answers are compared with those of the same work done one after the other")

DONE = [f[:-3].upper() for f in sorted(os.listdir(os.path.join(V, "rtm/props"))) if f.startswith("c") and
        "SCENARIOS = dict(" in open(os.path.join(V, "rtm/props", f)).read()]
with open(os.path.join(V, "properties.jsonl"), "w") as fp:
    for p, _ in PROPS:
        fp.write(json.dumps(p) + "\n")
manifest = dict(version=1, setup_cmd="true", checks=[], not_applicable=[],
                notes="The repository is wrapped from the outside at import time (rtm/bus.py); it contains no hooks, so no guard exists. "
                      "Exit 2 means inconclusive (a monitor was not reached often enough). Replay: bash run.sh <ID> --replay <path>.")
for p, note in PROPS:
    if p["id"] in DONE:
        manifest["checks"].append(dict(property=p["id"], quick_cmd="bash run.sh %s" % p["id"],
                                       thorough_cmd="VERIF_TIER=thorough bash run.sh %s --tier thorough" % p["id"],
                                       technique="runtime monitoring: " + note.split(";")[0].split(", bounded")[0],
                                       level="exploration", level_note="held on all monitored executions of the run; " + note))
    else:
        manifest["not_applicable"].append(dict(property=p["id"], reason="check not built yet"))
if not manifest["not_applicable"]:
    pass
json.dump(manifest, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(DONE)
