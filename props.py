"""The harnesses of each property."""
import os

SAN = ["-fsanitize=address"]
MODES = {
    # preconditions throw il::AbortException, default values filled
    "checked": ["-O1", "-fno-lifetime-dse", "-DIL_UNIT_TEST", "-DMC_CHECKED=1"] + SAN,
    # what a release build of a client does
    "release": ["-O1", "-fno-lifetime-dse", "-ftrivial-auto-var-init=pattern", "-DNDEBUG"] + SAN,
}
MKL = ["-lmkl_intel_lp64", "-lmkl_core", "-lmkl_sequential", "-lpthread", "-lm", "-ldl"]

MEMFS = ["-Wl,--wrap=fopen", "-Wl,--wrap=fclose"]


def both(src, **k):
    return [dict(src=src, mode=m, **k) for m in ("checked", "release")]


def multi(cls, dim, fast, hdr, *defs, modes=("checked", "release")):
    return [dict(src="multi.cpp", mode=m, name="%s%s-%s" % (cls, "-align" if "ALIGN_SUITES" in defs else "", m),
                 defs=["-DCLS=" + cls, "-DDIM=%d" % dim, "-DFAST=%d" % fast, "-DHDR=<il/%s>" % hdr] + ["-D" + d for d in defs])
            for m in modes]


PROPS = {
    "P05": dict(targets=multi("Array2D", 2, 0, "Array2D.h", "HAS_RESIZE_X") + multi("Array2C", 2, 1, "Array2C.h", "HAS_SET")),
    "P06": dict(targets=multi("Array3D", 3, 0, "Array3D.h") + multi("Array3C", 3, 1, "Array3C.h")
                + multi("Array4D", 4, 0, "Array4D.h", "NOSTRIDE", "NOALIGN") + multi("Array4C", 4, 1, "Array4C.h", "NOSTRIDE", "NOALIGN")),
    "P02": dict(targets=sum([multi(c, d, f, c + ".h", "ALIGN_SUITES", *x) for c, d, f, x in [
        ("Array", 1, 0, ["HAS_RESIZE_X"]), ("Array2D", 2, 0, ["HAS_RESIZE_X"]), ("Array2C", 2, 1, ["HAS_SET"]),
        ("Array3D", 3, 0, []), ("Array3C", 3, 1, [])]], []) + both("base.cpp", defs=["-fno-builtin-malloc", "-fno-builtin-free"], libs=["-Wl,--wrap=malloc", "-Wl,--wrap=free"])),
    "P01": dict(targets=both("array.cpp")),
    "P04": dict(targets=both("deque.cpp")),
    "P07": dict(targets=both("views.cpp")),
    "P32": dict(targets=both("packed.cpp", libs=MKL)),
    "P33": dict(targets=[dict(src="static.cpp", mode=m, name="static-%s-%s" % (e, m), defs=["-DELEM=" + e]) for m in ("checked", "release") for e in ("double", "Elem")]),
    "P09": dict(targets=[dict(src="map.cpp", mode=m, name="map%d-%s" % (i, m), defs=["-DPART=%d" % i]) for m in ("checked", "release") for i in range(3)]),
    "P11": dict(targets=both("strings.cpp")),
    "P12": dict(targets=both("encoding.cpp") + [dict(src="strings.cpp", mode=m, name="histories-" + m, defs=["-DCHECK_TYPE"]) for m in ("checked", "release")]),
    "P13": dict(targets=both("strsearch.cpp")),
    "P10": dict(targets=both("maparray.cpp")),
    "P14": dict(targets=both("utf16.cpp")),
    "P15": dict(targets=both("dynamic.cpp")),
    "P16": dict(targets=both("info.cpp")),
    "P17": dict(targets=both("arith.cpp") + [dict(src="arith.cpp", mode="release", name="builtins", defs=["-DIL_BUILTIN_SAFE_ARITHMETIC=1"])]),
    "P18": dict(targets=both("algo.cpp")),
    "P08": dict(targets=[dict(src="bounds.cpp", mode="checked", name="bounds%d" % i, defs=["-DPART=%d" % i], libs=MKL) for i in range(5)]),
    "P22": dict(targets=[dict(src="numpy.cpp", mode=m, name="numpy-" + m, defs=["-DPART=22"], libs=MEMFS + MKL, repo_src=["il/io/numpy/numpy.cpp"]) for m in ("checked", "release")]),
    "P23": dict(targets=[dict(src="numpy.cpp", mode=m, name="numpy-" + m, defs=["-DPART=23"], libs=MEMFS + MKL, repo_src=["il/io/numpy/numpy.cpp"]) for m in ("checked", "release")]),
    "P25": dict(targets=both("file.cpp", libs=MEMFS)),
    "P19": dict(targets=[dict(src="toml.cpp", mode=m, name="toml-" + m, defs=["-DPART=19"], libs=MEMFS, repo_src=["il/io/toml/toml.cpp"]) for m in ("checked", "release")]),
    "P20": dict(targets=[dict(src="toml.cpp", mode=m, name="toml-" + m, defs=["-DPART=20"], libs=MEMFS, repo_src=["il/io/toml/toml.cpp"]) for m in ("checked", "release")]),
    "P21": dict(targets=[dict(src="toml.cpp", mode=m, name="toml-" + m, defs=["-DPART=21"], libs=MEMFS, repo_src=["il/io/toml/toml.cpp"]) for m in ("checked", "release")]),
    "P24": dict(targets=[dict(src="faults.cpp", mode=m, name="faults-" + m, libs=MEMFS + MKL, repo_src=["il/io/numpy/numpy.cpp", "il/io/toml/toml.cpp"]) for m in ("checked", "release")]),
    "P27": dict(targets=[dict(src="blas.cpp", mode=m, name="blas%d-%s" % (i, m), defs=["-DPART=%d" % i], libs=MKL) for m in ("checked", "release") for i in range(2)] + both("blas_static.cpp")),
    "P28": dict(targets=[dict(src="dense.cpp", mode=m, name="dense%d-%s" % (i, m), defs=["-DPART=%d" % i], libs=MKL) for m in ("checked", "release") for i in range(3)]),
    "P29": dict(targets=both("norm.cpp")),
    "P30": dict(targets=[dict(src="sparse.cpp", mode=m, name="sparse%d-%s" % (i, m), defs=["-DPART=%d" % i], libs=MKL) for m in ("checked", "release") for i in range(2)]),
    "P31": dict(targets=[dict(src="krylov.cpp", mode=m, name="krylov%d-%s" % (i, m), defs=["-DPART=%d" % i], libs=MKL) for m in ("checked", "release") for i in range(2)]),
    "P26": dict(targets=both("pack.cpp", libs=MEMFS)),
    "P36": dict(targets=sum([multi(c, d, f, c + ".h", "MARKERS", *x, modes=("checked",)) for c, d, f, x in [
        ("Array", 1, 0, ["HAS_RESIZE_X"]), ("Array2D", 2, 0, ["HAS_RESIZE_X"]), ("Array2C", 2, 1, ["HAS_SET"]), ("Array3D", 3, 0, []), ("Array3C", 3, 1, []),
        ("Array4D", 4, 0, ["NOSTRIDE", "NOALIGN"]), ("Array4C", 4, 1, ["NOSTRIDE", "NOALIGN"])]], []) + [dict(src="markers.cpp")]),
    "P37": dict(targets=both("scalar.cpp")),
    "P35": dict(targets=both("set.cpp")),
    "P39": dict(targets=[dict(src="dispatch.cpp", mode=m, name="dispatch-" + m, libs=MEMFS + MKL, repo_src=["il/io/numpy/numpy.cpp", "il/io/toml/toml.cpp"]) for m in ("checked", "release")]),
    "P38": dict(targets=both("ppm.cpp", libs=MEMFS)),
    "P34": dict(targets=both("tree.cpp")),
    "P03": dict(targets=both("smallarray.cpp")),
    "P40": dict(targets=both("timer.cpp")),
    "P41": dict(targets=both("format.cpp", repo_src=["il/io/format/print.cc"])),
    "P43": dict(targets=both("png.cpp", defs=["-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib", "libpng")], libs=MEMFS + ["/usr/lib/x86_64-linux-gnu/libpng16.so.16", "-lz"], repo_src=["il/io/png/png.cpp"])),
    "P42": dict(targets=both("sobol.cpp", libs=MKL)),
}
for _p in (3, 4, 5, 6, 7, 12, 14, 16, 18, 25, 34):
    PROPS["P%02d" % _p]["targets"] = PROPS["P%02d" % _p]["targets"] + [
        dict(src="huge.cpp", mode=m, name="huge%d-%s" % (_p, m), defs=["-DPART=%d" % _p], libs=MEMFS if _p == 25 else []) for m in ("checked", "release")]
