"""Configuration of the checks: which specifications decide which property."""
DEFAULT = dict(level="model_checking", shards=6, design=[], assumptions=[])
T = lambda m: (m + ".tla", "Trace.cfg")
D = lambda m, c, **k: dict(module=m + ".tla", cfg=c + ".cfg", **k)
def bnb(*cfgs):
    r = []
    for c in cfgs:
        r.append(D("MCBnB", c, tier="quick"))
        r.append(D("MCBnB", c + "_thorough", tier="thorough"))
    return r
def pool(c):
    return [D("Pool", "Pool_" + c, tier="quick"), D("Pool", "Pool_" + c + "_live", tier="quick"), D("Pool", "Pool_" + c + "_thorough", tier="thorough")]
DATA = "integer-valued test data; exact rational facts about it; AICc compared to 4e-4"
SCHED = "schedules of the real code are those produced by the runtime and a delaying design matrix; all schedules are covered by the design model only"
def gen(module, cfg, thorough=None): return dict(quick=dict(module=module + ".tla", cfg=cfg + ".cfg"), thorough=dict(module=module + ".tla", cfg=(thorough or cfg + "_thorough") + ".cfg", timeout=1500))
PROPS = {
 "C01": dict(trace=T("TraceC01"), design=bnb("BnB_C01"), assumptions=[DATA, SCHED]),
 "C02": dict(trace=T("TraceC02"), design=bnb("BnB_C02"), assumptions=[DATA, SCHED]),
 "C03": dict(trace=T("TraceC03"), design=bnb("BnB_C03", "BnB_C03_live"), assumptions=[SCHED, "a search that has not returned after 20 s and again after 60 s in a fresh process hangs"]),
 "C04": dict(trace=T("TraceC04"), design=bnb("BnB_C04"), assumptions=[DATA, SCHED]),
 "C05": dict(trace=T("TraceC05"), gen=gen("MCModelSpace", "ModelSpace"), assumptions=[DATA]),
 "C07": dict(trace=T("TraceC07"), design=bnb("BnB_C07"), race=dict(quick=30, thorough=400), assumptions=[DATA, SCHED]),
 "C11": dict(trace=T("TraceC11"), gen=gen("MCModelSpace", "ModelSpace"), assumptions=[DATA]),
}
PROPS.update({
 "C06": dict(trace=T("TraceC06"), gen=gen("Highscore", "Highscore"), assumptions=["scores are not NaN"]),
 "C08": dict(trace=T("TraceC08"), gen=gen("Codec", "Codec"), assumptions=["values are compared through their shortest exact decimal texts"]),
 "C09": dict(trace=T("TraceC09"), gen=gen("MCSaScore", "SaScore"), assumptions=["every insertion passes its own candidate object, as the search does"]),
})
FILES = "files are written to a scratch directory"
PROPS.update({
 "C19": dict(trace=T("TraceC19"), gen=gen("MCCsvFile", "CsvFile"), assumptions=["magnitudes below 1e11 when saving", FILES]),
 "C20": dict(trace=T("TraceC20"), gen=gen("Datasets", "Datasets"), assumptions=["integer-valued data"]),
 "C21": dict(trace=T("TraceC21"), gen=gen("Kappa", "Kappa"), assumptions=["selections without duplicates"]),
 "C24": dict(trace=T("TraceC24"), gen=gen("Expansion", "Expansion"), assumptions=["integer data with products below 1.5e9"]),
 "C25": dict(trace=T("TraceC25"), gen=gen("ModelOps", "ModelOps"), assumptions=[]),
 "C28": dict(trace=T("TraceC28"), gen=gen("MCUtilities", "Utilities"), assumptions=["finite values"]),
})
FLOATS = "random data in general position; optimality compared to a few parts in 1e6 of the largest correlation"
PROPS.update({
 "C12": dict(trace=T("TraceC12"), gen=gen("MCLassoPath", "LassoPath"), assumptions=["random data; optimality up to what the stopping rule leaves open"]),
 "C13": dict(trace=T("TraceC13"), design=pool("C13"), gen=gen("Pool", "PoolGen_path", "PoolGen_path"), race=dict(quick=20, thorough=300), assumptions=[FLOATS, "completion orders: all of up to 5 regularisations, samples of them beyond"]),
 "C14": dict(trace=T("TraceC14"), gen=gen("MCLassoPath", "LassoPath"), assumptions=[FLOATS]),
 "C15": dict(trace=T("TraceC15"), assumptions=["standard deviations well above 1e-10", "one target column that is not constant"]),
 "C16": dict(trace=T("TraceC16"), gen=gen("PathHistory", "PathHistory"), assumptions=["integer-valued paths and data", "contents of plots are read from the plot object"]),
 "C17": dict(trace=T("TraceC17"), gen=gen("Nested", "Nested"), assumptions=[FLOATS]),
})
PROPS.update({
 "C27": dict(trace=T("TraceC27"), gen=gen("MCOmpPath", "OmpPath"), assumptions=["integer-valued data with singular values above 0.2 or exactly zero"]),
 "C18": dict(trace=T("TraceC18"), gen=gen("MCOmpPath", "OmpPath"), assumptions=["integer-valued data without zero columns and targets; singular values above 0.2 or exactly zero"]),
})
PROPS["C10"] = dict(trace=T("TraceC10"), design=[D("Annealing", "Annealing", tier="quick"), D("Annealing", "Annealing_thorough", tier="thorough")], assumptions=[DATA, "cost functions are deterministic and finite"])
PROPS["C22"] = dict(trace=T("TraceC22"), design=pool("C22"), gen=gen("Pool", "PoolGen_kappa", "PoolGen_kappa"), race=dict(quick=40, thorough=400), assumptions=["targets select deterministically, without duplicates", "completion orders: all of up to 4 targets, samples of them beyond"])
PROPS["C23"] = dict(trace=T("TraceC23"), design=pool("C23"), race=dict(quick=20, thorough=200), assumptions=["exact statement with at most 8 rows and one or two samples", "with many samples: 8 standard errors", "completion orders are those produced by the runtime"])
PROPS["C26"] = dict(trace=T("TraceC26"), cli=True, assumptions=[DATA, "data files without constant columns other than a leading column of ones"])
PROPS["C29"] = dict(trace=("TraceC29.tla", "TraceC29.cfg"), cli=True, gen=gen("Requests", "Requests", "Requests"), assumptions=["shapes up to 5 rows, columns or entries; one fault per request", FILES])
PROPS["C30"] = dict(trace=("TraceC30.tla", "TraceC30.cfg"), tools=True, gen=gen("Tools", "Tools", "Tools"), assumptions=["random data without constant columns", "figures are compared in the formats svg and png", FILES])
PROPS["C31"] = dict(trace=T("TraceC31"), gen=gen("Calls", "Calls"), race=dict(quick=400, thorough=1500), assumptions=["the content is only overwritten while no call runs", "helper objects with a state (estimators, covariance lasso) are used by one thread", "values are compared to 1e-6"])
PROPS["C32"] = dict(trace=T("TraceC32"), cli=True, tools=True, gen=gen("Workbench", "Workbench"), assumptions=[DATA, "runs that overlap write different files", FILES])
