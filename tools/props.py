"""What check.py needs to know per property, and the text of the manifest."""
PROPS = {
    "P01": dict(pkg="pools", points=r" goroutines/(limited|pooled|internal)"),
    "P02": dict(pkg="pools", points=r" goroutines/(limited|pooled|internal)"),
    "P03": dict(pkg="pools", points=r" goroutines/(limited|pooled|internal)"),
    "P04": dict(pkg="pools", points=r" goroutines/(limited|pooled|internal)"),
}
PROPS["P05"] = dict(pkg="reg", points=r" goroutines/")
PROPS["M01"] = dict(pkg="leak", points=r" (goroutines|prim|pipelines)/")
PROPS["Q01"] = dict(pkg="queue", points=r"/queue/")
PROPS["E01"] = dict(pkg="errs", points=r" goroutines/goroutines.go", race=True)
for _p in ("W01", "W02", "W03"):
    PROPS[_p] = dict(pkg="waitg", points=r" (prim/wait|goroutines/(limited|pooled))")
for _p in ("S01", "S02"):
    PROPS[_p] = dict(pkg="prims", points=r" (prim/(wait|slices)|goroutines/(limited|pooled))")
for _p in ("C01", "C02"):
    PROPS[_p] = dict(pkg="prims", points=r" (prim/(wait|chans)|goroutines/(limited|pooled))")
PROPS["O01"] = dict(pkg="prims", points=r" (prim/|goroutines/(limited|pooled))")
PROPS["X01"] = dict(PROPS["O01"])
PROPS["A01"] = dict(pkg="atom", points=r" prim/atomics", race=True)
PROPS["A02"] = dict(pkg="atom", points=r" prim/atomics")
for _i in range(1, 11):
    PROPS[f"G{_i:02}"] = dict(pkg="pipes", points=r" pipelines/stagedpipe/[a-z]*\.go")
PROPS["X02"] = dict(PROPS["G01"])
PROPS["T01"] = dict(pkg="pipes", points=r" (pipelines/stagedpipe/[a-z]*\.go|prim/|goroutines/(limited|pooled))")
PROPS["T02"] = dict(PROPS["T01"])
PROPS["R01"] = dict(pkg="races", points=r".", race=True)
PROPS["D01"] = dict(script="cli_check")
