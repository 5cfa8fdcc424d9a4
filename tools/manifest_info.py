# noqa: F821  (executed by gen_manifest.py)
PBT = "property-based testing (Hypothesis) "
info("C01", PBT + "against an independent model of frame trees",
     "Rooted trees of up to eight frames; lookups compared with composition of rotation matrices to 1e-9, plus identity, inverse and via-intermediate relations.")
info("C02", PBT + "against frames modelled as functions of time",
     "Constant-rate moving frames, so that interpolation is exact and every looked-up timestamp and value is predicted; sign-flipped quaternion sequences and duplicate timestamps are excluded (DESIGN.md).")
info("C03", PBT + "against a step-function model of event-like frames",
     "Every query time is compared with the last event at or before it.")
info("C04", PBT + "against the looked-up transform applied by the model",
     "Arrays up to four dimensions with any axis position; also checks distances and angles are preserved.")
info("C05", PBT + "against a model of the documented resampling rule",
     "Timestamped plain arrays over moving paths; values, timestamps and array layout predicted.")
info("C06", PBT + "with differential oracles between equivalent definitions",
     "Inverse flag, omitted members, and the constructors from dataset, matrices and DataArrays compared with an explicit definition.")
info("C07", "stateful model-based testing (Hypothesis histories of registry and tree operations)",
     "Histories of 3 to 25 operations compared with a model of registry and trees after each operation.")
info("C08", "fault injection by generated invalid definitions and requests (Hypothesis), invariant over registry and tree",
     "One fault per case out of an enumerated list; the state before and after is compared.")
info("C09", PBT + "with purity, repeatability and aliasing invariants",
     "Every public function that takes arrays is called with generated arguments; arguments, frames and repeated results compared.")
info("C10", PBT + "against analytic derivatives and metamorphic relations",
     "Smooth motions within a rigorous truncation bound; exact for constant velocity.")
info("C11", PBT + "against analytic angular rates and metamorphic relations",
     "Both estimation modes; smooth motions within truncation bounds and refinement, exact for constant rate.")
info("C12", PBT + "against analytic relative velocities",
     "Lookups between frames with known motions in any reference and representation frame.")
info("C13", PBT + "against the laws of relative motion evaluated on analytic motions",
     "Linear and angular velocity transforms of plain arrays in any layout.")
info("C14", PBT + "against analytic velocity, unfiltered estimates and linearity",
     "Isolated jumps of translation and fixed-axis rotation, not in the last interval; low-pass judged in the interior of long records only (DESIGN.md).")
info("C15", PBT + "differential between labelled and plain arrays, with a model of the labels",
     "DataArrays with up to four dimensions and extra coordinates of several types.")
info("C16", PBT + "against a model of the attributes",
     "Frame metadata predicted for chains of transforms and lookups.")
info("C17", PBT + "with round-trip and inequality oracles",
     "All three systems, any layout, points at the origin and on the axes included.")
info("C18", PBT + "against an independent quaternion algebra",
     "Broadcasting, both dtypes, any axis; rotation vs explicit rotation matrices.")
info("C19", PBT + "against products of elementary rotations",
     "All six orders, with missing angles, and rejected argument combinations.")
info("C20", PBT + "against an optimality certificate and invariances",
     "The mean must maximise the average squared dot product; sign, order and rotation invariance.")
info("C21", PBT + "against constant-rate rotations, samples and truncation bounds",
     "Plain and accessor interpolation, labels predicted; sign-continuous sequences only (DESIGN.md).")
info("C22", PBT + "against geometric definition",
     "The rotation maps the first direction to the second and its axis is orthogonal to both; lengths 1e-50 to 1e50.")
info("C23", PBT + "against an optimality certificate",
     "Residual must not exceed that of the true and of perturbed transforms; proper rotation.")
info("C24", PBT + "with planted transforms and monotonicity invariant",
     "Recovery with small displacement or close initial transform; never worse than the initial guess in root mean square distance.")
info("C25", PBT + "with generated export files as round-trip oracle",
     "Files written by an independent writer; units, rotation type, missing values and names varied.")
info("C26", PBT + "against coordinates read back from the matplotlib artists",
     "Sequences of plots on shared axes; limits and aspect checked for points and frames.")
info("C27", PBT + "with round-trip oracles over in-process stand-ins of the ROS packages",
     "ROS is not installed: messages and bags are the stand-ins in lib/fakeros.py, written after the ROS 1 interfaces.")
info("C28", PBT + "differential against the frame tree, over an in-process stand-in of tf2",
     "ROS is not installed: tf2_ros.Buffer is the stand-in in lib/fakeros.py, with cache time, pruning, interpolation and extrapolation errors as in tf2.")
info("C29", "stateful model-based testing (Hypothesis) over in-process stand-ins of the ROS packages that record what is published",
     "ROS is not installed: publishers, clock and subscriptions are stand-ins in lib/fakeros.py; threads are run at chosen points.")
info("C30", PBT + "metamorphic and differential between storage formats",
     "The same call with plain double precision arrays is the oracle; formats that lose digits are compared up to their precision.")
info("C31", PBT + "metamorphic between an array and selections, replacements and permutations of its elements",
     "Arrays of up to 4000 elements and records of up to 2000 samples; timestamped samples also against the model.")
info("C32", "stateful property-based testing (Hypothesis) of call histories, differential against the same call in a newly forked process",
     "Histories of up to 10 steps over a tree of six frames.")
