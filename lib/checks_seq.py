"""Checks of the sequential properties: TLC-generated behaviours replayed on the real library."""
from common import *


def typed(behs, n=6):
    return [dict(t=i % n, h=b) for i, b in enumerate(behs)]


def s01(c):
    exe_f = cf.ThreadPoolExecutor(1).submit(c.harness, "s01_sparse", "asan")
    c.model_check("SparseMapMC", "SparseMap_mc.cfg", workers=4)
    behs = c.simulate("SparseMapGen", "SparseMap_gen.cfg", num=8000 if c.thorough else 800, depth=26, procs=4)
    exe = exe_f.result()
    c.samples = [dict(ops=[r["op"] for r in behs[0]])]
    c.replay(exe, typed(behs), "sparse-map")


def s02(c):
    exe_f = cf.ThreadPoolExecutor(1).submit(c.harness, "s02_array", "asan")
    c.model_check("ArrayFieldsMC", "ArrayFields_mc.cfg", workers=4)
    k = 10 if c.thorough else 1
    sc = c.simulate("ArrayFieldsGen", "ArrayFieldsGen_scal.cfg", num=400 * k, depth=26, procs=3)
    ve = c.simulate("ArrayFieldsGen", "ArrayFieldsGen_vec.cfg", num=600 * k, depth=26, procs=4, seed=c.seed + 5)
    exe = exe_f.result()
    c.samples = [dict(ops=[r["op"] for r in ve[0]])]
    c.replay(exe, [dict(t=i % 3, h=b) for i, b in enumerate(sc)] + [dict(t=3 + i % 3, h=b) for i, b in enumerate(ve)], "array-fields")


def s03(c):
    exe_f = cf.ThreadPoolExecutor(1).submit(c.harness, "s03_iter", "asan")
    c.model_check("IterationMC", "Iteration_mc.cfg", workers=4)
    c.model_check("IterationMC2", "Iteration_mc2.cfg", workers=4)
    behs = c.simulate("IterationGen", "IterationGen.cfg", num=30000 if c.thorough else 2000, depth=20, procs=5)
    exe = exe_f.result()
    c.samples = [dict(scenario=behs[0][0]["s"], ops=[{k: v for k, v in r.items() if k != "vis"} for r in behs[0][1:]])]
    c.replay(exe, typed(behs, 3), "iteration")


def i01(c):
    exe_f = cf.ThreadPoolExecutor(1).submit(c.harness, "i01_interp", "asan")
    behs = c.simulate("InterpGen", "InterpGen.cfg", num=12000 if c.thorough else 1500, depth=20, procs=4)
    c.model_check("InterpMC", "Interp_mc.cfg")
    exe = exe_f.result()
    c.samples = [dict(scenario={k: v for k, v in behs[0][0].items()}, steps=behs[0][1:3])]
    c.replay(exe, typed(behs), "interpolation")


def n01(c):
    exe_f = cf.ThreadPoolExecutor(1).submit(c.harness, "n01_patterns", "asan")
    c.model_check("PatternsMC", "Patterns_mc.cfg", workers=4)
    behs = c.simulate("PatternsGen", "PatternsGen.cfg", num=30000 if c.thorough else 3000, depth=14, procs=4)
    exe = exe_f.result()
    c.samples = [dict(layers=behs[0][0]["layers"], patterns=[r["p"] for r in behs[0][1:] if r["n"] == "Pattern"])]
    c.replay(exe, behs, "patterns")


def m01(c):
    exe_f = cf.ThreadPoolExecutor(1).submit(c.harness, "m01_metadata", "asan")
    c.model_check("MetadataMC", "Metadata_mc.cfg", workers=4)
    behs = c.simulate("MetadataGen", "MetadataGen.cfg", num=10000 if c.thorough else 1000, depth=32, procs=4)
    exe = exe_f.result()
    c.samples = [dict(ops=[{k: v for k, v in r.items() if k not in ("m", "g")} for r in behs[0][1:12]])]
    c.replay(exe, behs, "metadata")


def x01(c):
    exe_f = cf.ThreadPoolExecutor(1).submit(c.harness, "x01_mapping", "asan")
    c.model_check("CurveMC", "Curve_mc.cfg", workers=4)
    behs = c.simulate("MappingGen", "MappingGen.cfg", num=10000 if c.thorough else 1200, depth=32, procs=4)
    exe = exe_f.result()
    c.samples = [dict(steps=[{k: v for k, v in r.items() if k in ("n", "obj", "t", "v")} for r in behs[0][1:10]])]
    c.replay(exe, behs, "mapping")


def f01(c):
    exe_f = cf.ThreadPoolExecutor(1).submit(c.harness, "f01_roundtrip", "asan")
    c.model_check("FieldFileMC", "FieldFile_mc.cfg", workers=3)
    behs = c.simulate("FieldFileGen", "FieldFileGen.cfg", num=12000 if c.thorough else 1200, depth=10, procs=4)
    exe = exe_f.result()
    c.samples = [dict(steps=[dict(n=r["n"], structure=r["f"]["str"], **{k: r[k] for k in ("fmt", "th", "managed") if k in r}) for r in behs[0]])]
    c.replay(exe, behs, "round-trip")


def store(c, cfg, num, depth):
    exe_f = cf.ThreadPoolExecutor(1).submit(c.harness, "f02_store", "asan")
    c.model_check("FileStoreMC", "FileStore_deep.cfg" if c.thorough else "FileStore_mc.cfg", workers=3)
    behs = c.simulate("FileStoreGen", cfg, num=num * 12 if c.thorough else num, depth=depth, procs=4)
    exe = exe_f.result()
    c.samples = [dict(steps=[{k: v for k, v in r.items() if k in ("n", "o", "path", "fmt", "keep", "ok", "how", "sort")} for r in behs[0]])]
    c.replay(exe, behs, "file store")


def f02(c):
    store(c, "FileStoreGen_f02.cfg", 1500, 18)


def f03(c):
    store(c, "FileStoreGen_f03.cfg", 2000, 26)


def f05(c):
    exe_f = cf.ThreadPoolExecutor(1).submit(c.harness, "f05_archive", "asan")
    c.model_check("Archive", "Archive_deep.cfg" if c.thorough else "Archive_mc.cfg", workers=3)
    k = 12 if c.thorough else 1
    og = c.simulate("ArchiveGen", "ArchiveGen_ogawa.cfg", num=400 * k, depth=14, procs=4)
    h5 = c.simulate("ArchiveGen", "ArchiveGen_hdf5.cfg", num=120 * k, depth=14, procs=4)
    exe = exe_f.result()
    c.samples = [dict(steps=[{k: r[k] for k in r if k in ("n", "x", "th", "m")} for r in og[0]])]
    c.replay(exe, og, "interrupted Ogawa file", args=("ogawa",))
    c.replay(exe, h5, "interrupted HDF5 file", args=("hdf5",))
