"""property id -> rules and descriptions"""
from .props import P
from .rules import writers, readers, streams, geometry, transforms, traverse, copies, boxes, aliasing, caches, parallel, sections, options, libraries, binding, operations, curves, polypath, handles, svg, names, results, optional

RULES = {
    "C01": [writers.framing],
    "C02": [writers.grammar, writers.one_each],
    "C03": [writers.content],
    "C04": [writers.scaling],
    "C06": [writers.properties],
    "C07": [writers.timestamps],
    "C08": [writers.headers],
    "C10": [readers.import_attributes],
    "C11": [readers.element_state],
    "C12": [readers.units],
    "C13": [readers.names],
    "C14": [streams.record_reader, streams.real_codec],
    "C15": [streams.tools],
    "C16": [handles.handles],
    "C27": [results.results],
    "C28": [optional.uses],
    "C60": [names.names],
    "C70": [svg.svg],
    "C32": [geometry.placement],
    "C33": [transforms.transformations],
    "C29": [traverse.missing],
    "C30": [traverse.queries],
    "C24": [boxes.boxes, boxes.invalidation],
    "C23": [caches.stale],
    "C25": [parallel.parallel, parallel.per_path],
    "C26": [parallel.rows, sections.flex],
    "C45": [options.handed, options.used, options.kept],
    "C52": [sections.robust],
    "C53": [polypath.sections],
    "C55": [curves.commands],
    "C54": [sections.smooth],
    "C20": [aliasing.results],
    "C21": [aliasing.side_effects],
    "C40": [operations.operations],
    "C42": [binding.extension],
    "C34": [libraries.libraries],
    "C37": [copies.copying, copies.flattening],
    "C31": [traverse.depths, traverse.forwarding, traverse.negative],
}
REGISTRY = {}
for _p in P:
    if not _p["na"]:
        REGISTRY[_p["id"]] = dict(rules=RULES[_p["id"]], explanation=_p["explain"], level="other")
