NOT_APPLICABLE = {
    "P21": "convergence orders quantify over limits of floating-point solutions on mesh families; no static argument over the source bounds them",
    "P22": "reproduction to rounding accuracy quantifies over the result of a sparse linear solve; the structural parts (terms, scatter, numbering) are decided under P01-P06",
    "P23": "correctness of intersections quantifies over floating-point coordinates; the structural parts (tolerance flow, result kinds, tags) are decided under P11, P13 and P14, the definitions in exact arithmetic under P26",
    "P24": "separation along a cut quantifies over run-time incidence graphs; the bookkeeping part is decided under P15",
}
