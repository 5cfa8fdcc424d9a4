#!/usr/bin/env python3
"""Writes properties.jsonl (single source for the property texts)."""
import json
import pathlib

P = []
K = "rigid_body_motion/"


def add(id, title, statement, over, text, why, files, mechanism, state=(), observe=None):
    fl = [K + f for f in files]
    anchors = {"files": fl, "mechanism": [{"name": mechanism, "where": ", ".join(fl)}]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        anchors["observe_at"] = observe
    P.append(
        dict(
            id=id, title=title, statement=statement,
            quantifier={"over": over, "text": text},
            why_tests_cant=why, anchors=anchors,
        )
    )


add("C01", "Transforms between frames compose the frames along the tree path",
    "For any two frames in one tree of static frames, the looked-up translation and rotation map a point p from the source frame to the target frame as rot(r, p) + t, equal to composing the child-to-parent transforms up to the common ancestor and the inverse transforms down to the target. Consequently looking up a frame in itself gives the identity, looking up in opposite directions gives inverse transforms, and going through any intermediate frame gives the direct transform. A looked-up pose of a frame wrt a reference is the same as the transform from that frame into the reference.",
    ["inputs", "configurations"],
    "All rooted trees of static frames (any shape, depth, sibling order), all unit rotations and translations, all ordered pairs and triples of frames, frames given by object or by registered name.",
    "Tests look up a handful of axis-aligned transforms in a three-frame tree with relative tolerances as loose as 1.0; no test varies the tree shape, so wrong order, direction or a dropped frame in deeper paths goes unnoticed.",
    ["reference_frames.py", "core.py", "__init__.py"],
    "Walk from source to target through the common ancestor, accumulating translation and rotation, inverting the frames on the way down",
    [("tree", "parent links plus each frame's translation/rotation wrt its parent")],
    ["lookup_transform", "lookup_pose", "ReferenceFrame.lookup_transform"])

add("C02", "Lookups in moving trees are sampled, clipped and interpolated",
    "When frames on the path are moving (timestamped, not event-like), the looked-up transform is given at the timestamps of the first moving frame on the path from source to target that lie in the intersection of the time ranges of all moving frames on the path. At each returned timestamp it equals the composition of every frame's own transform at that time: exact at that frame's own samples, linearly interpolated translation and spherically interpolated rotation between them, constant for static frames. No returned timestamp lies outside the common range.",
    ["inputs", "configurations"],
    "All trees mixing static and moving frames, with regular or irregular, equal, overlapping or disjoint, numeric or datetime (any unit) increasing timestamps; all ordered pairs of frames; rotations without sign flips between consecutive samples.",
    "Tests use one recorded dataset (not available offline) and matching timestamps of two frames; range intersection, sampling choice and interpolation between samples are exercised for one combination.",
    ["core.py", "reference_frames.py"],
    "Matcher that intersects the ranges, picks the sampling and resamples each frame before composing",
    [("timestamps", "sampling points of each moving frame")],
    ["lookup_transform(return_timestamps=True)", "lookup_pose"])

add("C03", "Event-like (discrete) frames hold each transform until the next event",
    "A frame declared discrete has, at any time t, the transform of its latest event at or before t, and that of its first event before any event. Discrete frames never restrict the time range of a lookup and never determine its sampling unless only discrete and static frames are on the path, in which case the result is given at the sorted union of all their event times without duplicates.",
    ["inputs", "configurations"],
    "All paths mixing discrete, moving and static frames, in either direction, with event times before, inside, coinciding with samples of, and after the moving frames' time range.",
    "Tests check one discrete frame with a couple of events and one mixed path; event times coinciding with samples, queries before the first event, and several discrete frames are not covered.",
    ["core.py", "reference_frames.py"],
    "Step-wise resampling of discrete frames and merging of event times",
    [("discrete", "whether a timestamped frame is interpolated or held")],
    ["lookup_transform(return_timestamps=True)", "transform_points"])

add("C04", "Transforming points, vectors, orientations applies the looked-up transform",
    "Transforming an array from one frame into another applies the looked-up transform to each element: points are rotated then translated, vectors are only rotated, orientations are multiplied from the left by the rotation. This holds for any array shape and any position of the spatial axis, keeps the layout of the array, and transforming back gives the original array. A single point, vector or orientation transformed across a moving path gives one transformed value per timestamp of the lookup.",
    ["inputs", "configurations"],
    "All static trees and frame pairs, arrays with one to four dimensions of any lengths and spatial axis anywhere (positive or negative index); single elements across moving trees.",
    "Tests transform arrays with the spatial axis last (or one fixed example) between two or three fixed frames; element-wise agreement over shapes and axes is not established.",
    ["reference_frames.py", "core.py", "utils.py", "__init__.py"],
    "Application of the transform with broadcasting over the other axes",
    (), ["transform_points", "transform_vectors", "transform_quaternions"])

add("C05", "Timestamped arrays are resampled to where the transform is defined",
    "Transforming an array with timestamps returns values at exactly those of its own timestamps that lie within the time range of all moving frames on the path, each value being the array's value transformed with the transform interpolated to that timestamp. The returned timestamps have the length of the time axis of the result and every other axis is kept, wherever the time and spatial axes are. Across static or discrete frames all timestamps are kept.",
    ["inputs", "configurations"],
    "All trees of static, moving and discrete frames, timestamped arrays of points, vectors or orientations with two to four dimensions, any distinct time and spatial axes, timestamps regular or irregular, numeric or datetime, overlapping the frames' ranges in any way.",
    "Tests use a single sampling and one non-default time axis; agreement for arrays whose sampling differs from the frames' is not checked against an independent computation.",
    ["reference_frames.py", "core.py", "__init__.py"],
    "Arrays take precedence in determining the sampling; frames are interpolated to it",
    (), ["transform_points", "transform_vectors", "transform_quaternions"])

add("C06", "Equivalent definitions of a frame give equivalent frames",
    "A frame defined by the inverse of a transform (with the inverse flag) behaves exactly like the frame defined by the transform itself. Omitting translation or rotation is the same as giving zero translation or identity rotation, and constructing the frame directly, through the registry function, from a dataset, from a translation or rotation data array or from a rotation matrix gives the same lookups, with the parent given by object or by name.",
    ["inputs", "configurations"],
    "All static, moving and discrete transforms, all ways to define a frame that can express them.",
    "Each alternative constructor is called once in the tests, most of the time without checking the resulting transforms or with trivial transforms.",
    ["reference_frames.py"],
    "Argument normalisation in the constructor and the alternative constructors",
    (), ["ReferenceFrame", "ReferenceFrame.from_*", "register_frame"])

add("C07", "The registry and the trees reflect the history of operations",
    "After any sequence of creating, registering, updating, deregistering and clearing, a name resolves to the frame most recently registered under it and to nothing if it was deregistered or cleared since; registering an existing name without asking for an update fails, and updating replaces the frame and detaches the replaced one from its parent. Registry operations never change the transforms of other frames: lookups between frames of a tree give what their definitions imply, whether or not they are (still) registered. The rendered tree lists exactly the frames below the given root, with their nesting.",
    ["histories"],
    "All interleavings of register (function and method), update, deregister (function and method), clear, failed operations, lookups and tree rendering over a small set of names and frames; replaced frames are leaves (what happens to children of a replaced frame is documented as open).",
    "Tests exercise single register/deregister calls on a clean registry; no test runs a history.",
    ["reference_frames.py", "core.py", "__init__.py"],
    "Global name registry and parent links of the frames",
    [("registry", "name to frame mapping"), ("parent/children", "tree structure")],
    ["registry", "register_frame", "deregister_frame", "clear_registry", "ReferenceFrame.register/deregister", "render_tree"])

add("C08", "Invalid definitions and requests are rejected without side effects",
    "Frame definitions with inconsistent shapes, with a transform but no parent, with two-dimensional timestamps, declared discrete without timestamps, or with an unknown parent raise an error and leave every tree and the registry as they were. Transforming with a wrong spatial length, with timestamps that do not match the time axis, with decreasing timestamps, with an unknown frame, or between frames of different trees raises an error instead of returning a value, and so does asking for velocities of static transforms.",
    ["inputs", "fault_sequences"],
    "All single faults of the listed kinds injected into otherwise valid definitions and requests, for all entry points that take them.",
    "Tests check some errors on fixed inputs but never that the trees and the registry are unchanged after the failure.",
    ["reference_frames.py", "core.py", "__init__.py"],
    "Validation of shapes, timestamps and names before attaching and registering",
    [("tree", "children of the intended parent")],
    ["ReferenceFrame", "register_frame", "transform_*", "lookup_*"])

add("C09", "Library calls never modify their arguments or the frames",
    "Calling any lookup, transformation, estimation, conversion or quaternion function leaves the arrays, timestamps, labelled arrays (including their coordinates and attributes) and datasets passed to it unchanged, and leaves all frames unchanged, so that repeating the call gives the same result. Modifying a returned array in place does not change what later calls return.",
    ["inputs", "histories"],
    "All public functions with generated valid arguments (plain arrays and labelled arrays), followed by a repetition of the call after overwriting the result of the first.",
    "Tests look only at the returned values of single calls.",
    ["core.py", "reference_frames.py", "estimators.py", "utils.py", "coordinate_systems.py", "accessors.py"],
    "Copying before in-place arithmetic; attributes copied before being updated",
    (), ["all public functions"])

add("C10", "Linear velocity is the time derivative of position",
    "The estimated linear velocity of a sampled position is exact for motion with constant velocity, has an error that vanishes at the rate of a second-order scheme at interior samples when a smooth motion is sampled more densely, and is in position units per second whether timestamps are numeric (seconds) or datetimes. It is linear in the positions, does not depend on a constant offset of positions or timestamps, and has the layout of the input for any position of the time and spatial axes.",
    ["inputs"],
    "All position time series (polynomial and sinusoidal motion, arbitrary data for the algebraic laws), regular and irregular increasing timestamps, two to four dimensions, any axes.",
    "Tests compare one sinusoidal motion with a tolerance larger than the velocities themselves.",
    ["core.py", "estimators.py"],
    "Finite differences along the time axis with conversion of datetimes to seconds",
    (), ["estimate_linear_velocity", "lookup_linear_velocity", "lookup_twist"])

add("C11", "Angular velocity is the body-frame rate of the rotation",
    "The estimated angular velocity of a rotation sampled at increasing timestamps is expressed in the rotating frame, in radians per second: for rotation q0 * exp(t w / 2) it equals w at every sample up to the accuracy of the scheme, which improves with denser sampling, and for general smooth motion it converges to the true body-frame rate. It does not depend on a constant rotation applied from the left, and samples with missing (NaN) rotations give NaN without affecting the accuracy elsewhere. For rotations about a fixed axis by less than pi, the rotation-vector mode agrees with the quaternion mode.",
    ["inputs"],
    "All smooth rotation time series (constant rate, sinusoidal about changing axes), any rate resolved by the sampling, regular and irregular, numeric or datetime timestamps, NaN gaps, any axes.",
    "Tests use a single motion about coordinate axes and one-sided comparisons without absolute value, so sign and frame errors pass.",
    ["core.py", "estimators.py"],
    "Quaternion derivative, or gradient of the rotation vector",
    (), ["estimate_angular_velocity", "lookup_angular_velocity", "lookup_twist"])

add("C12", "Looked-up velocities respect reference and representation frame",
    "The looked-up linear and angular velocities are those of the moving frame with respect to the reference frame, with coordinates in the representation frame: changing only the representation frame only rotates the vectors by the orientation between the frames at each timestamp. For rigidly moving frames with known analytic motion they agree with the analytic velocities up to discretisation error, in trees with several moving frames. The combined lookup equals the two separate lookups, and omitted frames default to the parent as reference and the reference as representation frame.",
    ["inputs", "configurations"],
    "All trees of static and smoothly moving frames with common or overlapping sampling, all frames as moving, reference and representation frame, both angular modes.",
    "Tests check one frame, one representation and loose tolerances.",
    ["reference_frames.py", "__init__.py", "core.py"],
    "Differentiation in the reference frame followed by rotation into the representation frame",
    (), ["lookup_twist", "lookup_linear_velocity", "lookup_angular_velocity"])

add("C13", "Velocity transforms obey the laws of relative motion",
    "Changing the reference or moving frame of a velocity adds the relative velocities of the frames according to the documented formulas (angular velocities add; linear velocities add with the lever-arm term of the rotating frame), with the result in coordinates of the new frame; changing the representation frame only rotates. The result agrees with directly looking up the velocity for the new frames up to discretisation error, across static and moving frames, for single series and for several series stacked along further axes, for any axes.",
    ["inputs", "configurations"],
    "All chains of static and smoothly moving frames with matching or overlapping sampling; reference, moving and representation frame changes; two and three dimensional arrays; all axis arguments.",
    "Tests check that one compensated tree has small velocities with one-sided comparisons.",
    ["reference_frames.py", "__init__.py"],
    "Three-term velocity formula with looked-up relative twist and lever arm",
    (), ["transform_linear_velocity", "transform_angular_velocity"])

add("C14", "Outlier suppression and low-pass filtering only remove what they should",
    "With an outlier threshold more than twice above all second-order differences the estimates are the same as without, and for smooth translations, and rotations about a fixed axis in rotation-vector mode, with isolated jumps larger than the threshold before the last sample, the estimates stay as accurate as without the jumps at every sample that is not NaN, while NaN only appears next to jumps at the ends of the series. The low-pass filter leaves constant velocity unchanged, attenuates components far above the cutoff and passes components far below it without time shift, and is linear.",
    ["inputs"],
    "All smooth motions with jumps at any position (but the last interval), thresholds between the smooth second differences and the jump sizes; all cutoffs in (0, 1) usable with the series length; linear velocities and, for rotation-vector mode, angular velocities.",
    "Tests call the functions once with these arguments without checking the values against the undisturbed motion.",
    ["core.py", "estimators.py", "reference_frames.py"],
    "Interpolation across samples flagged by second-order differences; zero-phase Butterworth filter",
    (), ["estimate_linear_velocity", "estimate_angular_velocity", "lookup_twist"])

add("C15", "Labelled arrays give the plain-array result with consistent labels",
    "Every transformation, estimation and coordinate conversion applied to a labelled array (xarray) gives the same numbers as applied to its plain values with the corresponding axes and timestamps, for any order of dimensions. The result has the dimensions, name and coordinates of the input; when the time axis is resampled, the time coordinate holds the new timestamps and every coordinate along time is interpolated to them (or taken from the nearest sample if not numeric), and when the kind of coordinates changes, the spatial dimension is replaced by the documented one with its labels.",
    ["inputs", "configurations"],
    "All labelled arrays with one to four dimensions in any order, numeric and datetime time coordinates, further coordinates along any dimension (numeric, strings), frames static or moving with ranges that cut the array.",
    "Tests check selected dimension names for the default dimension order and one resampled coordinate.",
    ["core.py", "__init__.py", "estimators.py"],
    "Unpacking of labelled arrays into values and axes and repacking with updated coordinates",
    (), ["transform_*", "estimate_*", "transform_coordinates"])

add("C16", "Frame metadata follows the transformations",
    "A transformed labelled array states the frame it is now expressed in: representation frame is the target after any transformation, and the reference or moving frame is the target if that is what was transformed, while other attributes are kept. The source frame can be omitted if the array states it, giving the same result, and a warning is given exactly if the stated frame differs from the given source frame. Looked-up poses, transforms and velocities returned as labelled data hold the same values as the plain lookup together with their timestamps, axis labels, and moving, reference and representation frame.",
    ["inputs", "configurations"],
    "All transformations between named frames of labelled arrays with any subset of the frame attributes set, consistent or not with the source frame; all lookups with and without labelled output.",
    "Tests check the attributes for one or two calls each.",
    ["core.py", "__init__.py"],
    "Attribute updates in the common transformation routine and dataset construction",
    (), ["transform_*", "lookup_*(as_dataset/as_dataarray)"])

add("C17", "Coordinate system conversions are mutually inverse",
    "Converting cartesian to polar or spherical coordinates and back gives the original point, also at the origin, on the axes and close to the poles, and converting back and forth the other way gives an equivalent point. Polar and spherical coordinates follow the mathematical convention of ISO 80000-2: non-negative radius equal to the euclidean norm, polar angle from the positive z axis in [0, pi], azimuth from the positive x axis in [-pi, pi]. This holds for arrays of any shape with the coordinates along any axis, by function and by coordinate system name, and unsupported conversions or lengths are rejected. Integer coordinates are converted like the same real numbers, and points with missing elements never turn into valid ones.",
    ["inputs"],
    "All finite points including zeros, axis-aligned, tiny and huge ones, any array shape and axis.",
    "Tests convert a few points on the axes.",
    ["coordinate_systems.py", "__init__.py"],
    "Elementwise formulas stacked along the axis",
    (), ["cartesian_to_polar", "polar_to_cartesian", "cartesian_to_spherical", "spherical_to_cartesian", "transform_coordinates"])

add("C18", "Quaternion inverse, product and vector rotation satisfy their algebra",
    "Inverse and product of quaternion arrays are those of the quaternion algebra: the product is associative, a quaternion times its inverse is one, and rotating vectors by a product is rotating by the right then by the left factor. Rotation preserves lengths and angles and does not depend on the scale or sign of the quaternion. Results are the same for quaternion dtype and for plain arrays with the quaternion along any axis, element by element or for all combinations, with the documented result shape; incompatible shapes are rejected.",
    ["inputs"],
    "All non-zero quaternions (unit or not), vectors, array shapes of up to four dimensions with singleton dimensions, spatial and quaternion axes.",
    "Tests use a couple of rotations about coordinate axes with trailing axes.",
    ["utils.py"],
    "Axis handling around the quaternion package",
    (), ["qinv", "qmul", "rotate_vectors"])

add("C19", "Euler angles convert to the documented composition of rotations",
    "The quaternion constructed from roll, pitch and yaw is the product of the elementary rotations about x, y and z in the stated order, for each of the six orders; angles left out are identities, while angles that are not a number give quaternions that are not a number. Angles given together along any axis or separately give the same result, of unit norm, in plain or quaternion dtype, and inconsistent shapes, orders or argument combinations are rejected.",
    ["inputs"],
    "All angles, six orders, all subsets of angles, array shapes of up to three dimensions and axes.",
    "Tests check single rotations by 45 degrees for the default order.",
    ["utils.py"],
    "Elementary rotors chained according to the order string",
    (), ["from_euler_angles"])

add("C20", "The quaternion mean is the average rotation",
    "The mean of quaternions is the unit quaternion that maximises the sum of squared inner products with the inputs; in particular the mean of copies of one rotation is that rotation, the mean does not depend on order or signs of the inputs, and rotating all inputs rotates the mean. Means over a subset of axes equal the means of the corresponding slices, for quaternion dtype as for plain arrays.",
    ["inputs"],
    "All sets of unit quaternions with a unique mean, any number of dimensions up to three and subsets of axes.",
    "The test uses inputs symmetric about the identity, for which almost any formula gives the identity.",
    ["utils.py"],
    "Dominant eigenvector of the averaged outer product",
    (), ["qmean"])

add("C21", "Quaternion interpolation reproduces samples and constant-rate rotation",
    "Interpolating a sampled rotation at its own sampling points returns the samples, and between them gives unit quaternions that are exact for rotation at constant rate about a fixed axis and converge to the true rotation for smooth motion. This holds along any axis, for several series at once, for numeric and datetime sampling points and either dtype. The labelled-array versions of interpolation and inverse give the same values, with dimensions, name and attributes kept, the interpolated dimension's coordinate replaced and other coordinates along it interpolated (or nearest if not numeric).",
    ["inputs"],
    "All sampled smooth rotations without sign flips, regular or irregular sampling points, output points inside the sampled range, one to three dimensional arrays, any axis and quaternion axis, labelled arrays with further coordinates.",
    "Tests check that constant arrays stay constant and one interpolation to known points.",
    ["utils.py", "accessors.py"],
    "Spherical quadrangle interpolation with axis permutation",
    (), ["qinterp", "DataArray.rbm.qinterp", "DataArray.rbm.qinv"])

add("C22", "Shortest-arc rotation rotates onto the target by the smallest angle",
    "The estimated rotation is a unit quaternion that rotates the first vector into the direction of the second, by exactly the angle between them (at most pi) about an axis orthogonal to both. This includes parallel, antiparallel and nearly antiparallel vectors and any lengths, element-wise for arrays with the spatial axis anywhere and for one vector against many.",
    ["inputs"],
    "All pairs of non-zero vectors of any lengths and relative directions, any array shape and axis, plain or labelled.",
    "Tests use one pair of vectors at a right angle.",
    ["estimators.py"],
    "Half-angle construction from dot and cross product",
    (), ["shortest_arc_rotation"])

add("C23", "Best-fit rotation and transform are least-squares optimal rotations",
    "The best-fit rotation, and the best-fit translation and rotation, reproduce the true ones for exactly related vectors that determine them, and for any data no other rotation (and translation) has a smaller sum of squared residuals. The result is always a proper rotation given as unit quaternion, also for planar, collinear or mirrored data, and does not depend on the order of the vectors, the position of the spatial axis or the array shape.",
    ["inputs"],
    "All pairs of equally shaped vector sets with at least two vectors: generic, noisy, planar, collinear, mirrored; any axis, plain and labelled.",
    "Tests recover one exact transform from generic points.",
    ["estimators.py"],
    "Singular value decomposition of the cross-covariance with reflection handling",
    (), ["best_fit_rotation", "best_fit_transform"])

add("C24", "Iterative closest point recovers small and initialised transforms",
    "For a point set and its transformed copy in any order, the iterative closest point estimate recovers the true transform if the displacement is small compared to the distance between points, or if an initial transform close to the true one is given. The result is a proper rigid transform that, for any data, never fits worse than the initial guess in root mean square distance to the nearest neighbours. Iterations end early only if the mean distance changes by less than the tolerance, so that with a small tolerance and enough iterations a further step brings no improvement. Labelled input gives labelled output with the same values.",
    ["inputs"],
    "All point sets with a minimum mutual distance, true transforms with displacements well below it, permutations, supersets as target, initial transforms; large transforms with initial guess.",
    "The test recovers one transform of one random point set with loose tolerance.",
    ["estimators.py"],
    "Nearest-neighbour matching alternating with best-fit transforms",
    (), ["iterative_closest_point"])

add("C25", "OptiTrack import reproduces the exported poses",
    "Loading an OptiTrack export gives, for every rigid body in the file and no markers, its position in meters whatever the export's length unit, its orientation as the unit quaternion for the export's rotation order, and absolute timestamps equal to the capture start time plus the time column. The numpy, pandas and xarray formats hold the same data, missing samples stay missing, and other formats are rejected.",
    ["inputs", "configurations"],
    "All exports with one or more rigid bodies, with or without markers, the six rotation orders, the supported length units or none stated, AM and PM start times, any poses, missing samples.",
    "The tests load one file with neither length unit nor rotation type, and check shapes.",
    ["io.py", "utils.py"],
    "Parsing of the header metadata and multi-row column header; Euler conversion",
    (), ["io.load_optitrack"])

add("C26", "Plots show the data they are given",
    "Plotted points, vectors, orientations and reference frames have exactly the coordinates of the data: points at their positions, vectors starting at their base, the axes of an orientation or frame along its rotated unit vectors from its origin, in red, green and blue for x, y and z. All three axes of the plot have the same scale and include the plotted points and reference frames. Data of the wrong shape is rejected.",
    ["inputs"],
    "All finite arrays of points, vectors with and without base, orientations, static frames with and without world frame and any arrow length, single elements and arrays, several plots on the same axes.",
    "Tests compare no image data or coordinates, or only call the functions.",
    ["plotting.py", "plot.py"],
    "Conversion into matplotlib 3D artists and adjustment of the limits",
    (), ["plot.points", "plot.vectors", "plot.quaternions", "plot.reference_frame"])

add("C27", "ROS messages and bags carry poses without loss",
    "Packing translations, rotations, poses, twists, points, vectors or quaternions into ROS messages and unpacking them gives the same values, frames and stamps, with quaternion components in the order of each side. Motion written to a bag and loaded from it gives the same timestamps, positions and orientations in the same order, as arrays or as dataset, topic by topic; exported and cached files hold the loaded data up to their storage resolution of 1e-4.",
    ["inputs", "histories"],
    "All finite values, numeric and datetime timestamps, several topics and message types in one bag interleaved in any order, messages with and without headers, default and explicit export paths, cached and uncached loading repeated.",
    "All ROS tests are skipped here because ROS is not installed, and upstream they check shapes for one bag.",
    ["ros/msg.py", "ros/io.py"],
    "Message construction and unpacking; topic reading by message type; netCDF encoding",
    [("cache", "netCDF files next to the bag")],
    ["ros.msg.*", "RosbagReader", "RosbagWriter"])

add("C28", "The ROS transformer agrees with the reference frame tree",
    "A transformer built from any frame of a tree holds every frame of the tree, static frames as static transforms and moving frames with each of their samples and stamps, and keeps them for at least the time span of the tree. Its lookups and transformations of points, vectors, orientations and poses from a source into a target frame agree with those of the frame tree at that time.",
    ["inputs", "configurations"],
    "All trees of static, moving and event-like frames with numeric or datetime timestamps, built from root or any other frame, all pairs of frames, times at, between and at the ends of the samples, and the latest time.",
    "All ROS tests are skipped here because ROS is not installed.",
    ["ros/transformer.py", "ros/msg.py"],
    "Filling a tf2 buffer from the tree and unpacking its answers",
    [("buffer", "tf2 transform buffer")],
    ["ros.Transformer"])

add("C29", "ROS publishers and playback publish what the frames define, in order",
    "Broadcasters publish the transform (and pose and twist if asked) of the frame wrt the base at the requested index or, by default, the current one, with its stamp; spinning publishes all samples in order, wrapping around and waiting the time between them, until stopped; a subscribed broadcaster publishes the sample nearest in time to each message for its frame and ignores other frames. Marker publishers publish at most the allowed number of evenly spaced positions of the frame starting at the first, and only when the message changed. Spinning can be stopped at any time, also before its thread runs and while waiting for messages. The playback widget steps forward and backward within the range of messages at the given step and speed.",
    ["histories", "inputs"],
    "All static and moving frames, bases, index sequences, incoming message sequences, numbers of spin iterations, maximum point counts, widget button sequences.",
    "All ROS tests are skipped here because ROS is not installed, and upstream they count single messages.",
    ["ros/transformer.py", "ros/visualization.py", "ros/utils.py"],
    "Publisher state (current index, last message) and the spin loop",
    [("idx", "current playback index"), ("last message", "serialised marker published last")],
    ["ReferenceFrameTransformBroadcaster", "ReferenceFrameMarkerPublisher", "play_publisher"])

add("C30", "Results depend on the values of arguments, not on how they are stored",
    "Every function gives the same result for arrays of the same values, whatever their number format (integers of any size with or without sign, single, double or extended precision, other byte order), container (array, nested lists or tuples, pandas objects, anything with the array protocol) and memory layout (strided, reversed, Fortran-ordered, unaligned, read-only), up to the precision of the format. The same holds for timestamps, whether numbers or datetimes of any unit, for axes given as numpy integers, and for names given as numpy strings. Integer input is never computed with in integer arithmetic.",
    ["inputs", "configurations"],
    "All functions and methods that take arrays, including the definition of static, moving and event-like frames, all formats that hold the values, and all or some of the arguments in another format.",
    "Tests pass double precision arrays nearly everywhere; a function has dozens of combinations of argument and format, and wrap-around or truncation shows only for particular values.",
    ["core.py", "utils.py", "reference_frames.py", "coordinate_systems.py", "estimators.py"],
    "Conversion of arguments with np.asarray and dtype handling before computing",
    (), ["all public functions"])

add("C31", "Each element or sample is processed independently of the others",
    "Element-wise functions and transformations give for each element what they give for that element alone or for any selection of elements, whatever the size of the array and whatever the other elements are (missing, zero, infinite or huge). Timestamped arrays and lookups give each sample the transform at its own time however long the record is; velocity estimates depend on nearby samples only; means and fits do not depend on the order of the elements.",
    ["inputs", "configurations"],
    "All arrays of one to thousands of elements, all selections (slices, reordered, repeated, single), extreme values elsewhere in the array, long records of moving and event-like frames.",
    "Tests use arrays of a few elements without missing or extreme values, so that processing in blocks, scaling by a global value or leaking between elements goes unnoticed.",
    ["core.py", "utils.py", "reference_frames.py", "coordinate_systems.py", "estimators.py"],
    "Vectorised numpy computations along the sample axis",
    (), ["transform_*", "lookup_*", "rotate_vectors", "qmul", "estimate_*"])

add("C32", "Results do not depend on what was called before",
    "Every lookup, transformation, estimate, interpolation and conversion gives what it would give as the only call made on the frames as they are now: earlier calls, with the same or with other arguments, leave no trace, repeating a call gives the same result, and arrays that were changed in place, or frames that were attached elsewhere, redefined, renamed, registered or deregistered since an earlier call are seen with their present values.",
    ["histories", "inputs"],
    "All histories of calls of the public functions over one tree, with similar arguments (same frames, shapes, names, number and ends of timestamps) and changes of arrays and frames in between.",
    "Tests build a fixture, make one call and compare; stale results of a cache, or state left behind by a call, need particular successions of calls that differ in one respect only.",
    ["core.py", "utils.py", "reference_frames.py", "estimators.py", "__init__.py", "accessors.py"],
    "Computation of every result from the current frames and arguments (no caches); global state limited to the registry and the trees",
    (), ["all public functions"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
