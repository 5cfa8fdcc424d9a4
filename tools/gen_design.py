import re,json,pathlib
ROOT=pathlib.Path(__file__).resolve().parent.parent
props={json.loads(l)['id']:json.loads(l) for l in open(ROOT/'properties.jsonl')}
BOUNDS={
"C01":"Up to 8 frames per tree, static chains of up to 48 frames. The root's own lookups and unconnected trees (must raise) included.",
"C02":"Excluded: quaternion sequences with sign flips between samples (`squad` interpolates the long way; the library does not promise otherwise), duplicate timestamps. Moving frames with the inverse flag: the library inverts the samples and then interpolates, and the model does the same.",
"C03":"Event times coinciding with query times, before the first event and after the last included.",
"C04":"Static multi-dimensional arrays over moving frames are an error by design and only checked as such.",
"C05":"At most four dimensions. Single timestamped samples included.",
"C06":"`from_dataset`, `from_dataarray`, `from_rotation_matrix`, `from_translation_dataarray`, `from_rotation_dataarray` against an explicit frame.",
"C07":"Children of a frame that is replaced by `update=True` stay with the replaced frame (modelled so).",
"C08":"Registry, children and parents, plus a lookup, compared before/after.",
"C09":"Aliasing is tested by overwriting the first result in place.",
"C10":"Datetimes are converted to float seconds since 1970 by the library (resolution 2.4e-7 s), tolerance in `model.rate_tol`.",
"C11":"Quaternion mode needs at least 4 valid samples (5 with a gap), as the spline of the quaternion package does.",
"C12":"Root frame without a reference: any exception accepted.",
"C13":"Up to 4 dimensions.",
"C14":"The outlier flag adds adjacent second differences and does not see a jump in the last interval; thresholds are drawn above twice the largest smooth second difference and jumps outside the last interval. Lookups with `outlier_thresh` spread missing values to neighbours. The angular outlier flag is not used in quaternion mode (documented). Low-pass: cutoff 0.1 to 0.5, at least about 150 samples, judged in the interior.",
"C15":"Static 2-D DataArrays need `timestamps=False`; second argument with the same dimensions; labelled arrays with an empty result excluded.",
"C16":"Attributes and the number of warnings.",
"C17":"Azimuth may be -pi or pi on the cut.",
"C18":"Norms 1e-3 to 1e3.",
"C19":"NaN angles included.",
"C20":"Negative axes of plain arrays and 3-D arrays with `qaxis` other than -1 are ambiguous in the documentation and excluded.",
"C21":"Sign-continuous sequences; empty output points and DataArray targets with another dimension name excluded.",
"C22":"Lengths 1e-50 to 1e50 (squares must not underflow).",
"C23":"Optimality up to 1e-9 relative.",
"C24":"Recovery is only claimed for displacements below 0.4 of the smallest distance of points.",
"C25":"Rows padded to equal width, as Motive writes them.",
"C26":"Tips of vectors are not necessarily inside the limits (matplotlib's quiver autoscales to the bases); the statement covers points and frames.",
"C27":"Stand-ins for rospy, rosbag and messages. Stamps to 1e-6 s (float seconds). Two known findings: cache files are named by topic only, with '/' replaced by '_'; the histories draw topics and folders that do not collide, and the two collisions are replayed separately on each run. The upstream (skipped) ROS test fixes the file name, so the name was not changed.",
"C28":"Stand-in for tf2. Between the samples of event-like frames tf2 interpolates while the tree holds, so these are compared at their samples only. Tolerances follow from float seconds.",
"C29":"Stand-ins for publishers, time, threads (collected by replacing `threading.Thread.start` and run at chosen points) and widgets. Broadcasting a path that is never defined is excluded; twists of static paths are rejected by the library.",
"C30":"Only formats that hold the values exactly are required to give the same result; formats that lose digits are compared to their precision. Least-squares fits are compared by their residual, and iterative closest point is not called with lossy formats (its iteration is discontinuous). Complex and object arrays are outside.",
"C31":"Up to 4000 elements, records up to 2000 samples. Elements that are replaced by huge or infinite values inside a selection are only compared where the result is finite. Functions that couple samples by definition (rates, interpolation) are compared away from the cut, or on values for which the coupling vanishes.",
"C32":"Up to 10 steps. Each call is repeated in a forked copy of the process that made the changes of the tree and of the arrays but no call; results are compared to 1e-9 relative, labelled arrays with coordinates, names and attributes, errors by type. Plots, files and ROS are outside (C26, C27, C29 have histories of their own).",
}
out=[]
for i in range(1,33):
    c=f"C{i:02d}"
    s=open(ROOT/f'checks/{c.lower()}.py').read()
    m=re.search(r'RULE = \((.*?)\n\)',s,re.S)
    rule=' '.join(eval('('+m.group(1)+')').split())
    facets=re.findall(r'@facet\(.*?\)\n+def (\w+)\(',s,re.S)
    out.append(f"### {c}: {props[c]['title']}\n\nFacets: {', '.join(facets)}. {rule}\n\nBounds: {BOUNDS[c]}\n\nBeyond the tests: {props[c]['why_tests_cant']}\n")
head=open(ROOT/'DESIGN.md').read().split('\n## Properties')[0].rstrip()
tail=open(ROOT/'DESIGN.md').read()
tail='\n## Seeded'+tail.split('\n## Seeded',1)[1] if '\n## Seeded' in tail else ''
open(ROOT/'DESIGN.md','w').write(head+"\n\n## Properties\n\n"+'\n'.join(out)+tail)
