#!/usr/bin/env python3
"""writes MANIFEST.json from the table below (only checks whose program exists are claimed)"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
REF = "runtime monitoring: real engine runs on generated models, outputs checked online against an independent reference"
T = {
 "E01": (REF + " (dense exact diagonalization in Fock space)", "exploration", "random models up to 1024 states; exact comparison of every reported value"),
 "E03": ("runtime monitoring: HDF5 dumps of every step of real runs checked offline against the documented truncation rule, an independent NRG, and full vs partial diagonalization", "exploration", "random truncation parameters on random models and on the inputs of 25 symmetry types; kept sets compared exactly"),
 "E05": (REF + " (Lehmann sums) of every delta peak, by algorithm and operator type", "exploration", "random truncated runs; whole histograms compared bin by bin, sum rules included"),
 "E06": (REF + " (documented broadening kernels, Kubo integrals, susceptibilities)", "exploration", "random runs; every written curve compared point by point"),
 "E04": (REF + " (complete-basis sums of an independent NRG)", "exploration", "random truncated runs; every FDM number compared"),
 "T03": (REF + " (piecewise-linear interpolation and exact sums)", "exploration", "random run sets; every merged peak and every averaged point compared"),
 "T06": (REF + " (exact integrals of the Akima interpolant, moments, interpolation)", "exploration", "random tables, filters and grids; every printed number compared"),
 "T05": (REF + " (transforms of the same interpolant integrated interval by interval, sums over peaks)", "exploration", "random functions, meshes and arguments; every printed number compared; accuracy 1e-6 for at least 97% of the points, 2e-2 for every point"),
 "T04": (REF + " (sum of the documented kernels over all peaks; independent Freyn-Florens iteration)", "exploration", "random peak sets, kernels, meshes and filters; every mesh point compared"),
 "T07": (REF + " (direct evaluation of the expression language, eigenvalue equations and matrix products)", "exploration", "random parameter files, expressions and matrices; every printed entry compared"),
 "T01": (REF + " (exact discretization integrals, Lanczos recurrence in arbitrary precision)", "exploration", "random baths, meshes, star tables, precisions; every coefficient compared, also those the engine computes; rejection of insufficient precision judged"),
 "T02": (REF + " (closed-form solution of the mesh equations in terms of the weight function)", "exploration", "random densities of states and meshes; every row of the mesh functions compared"),
 "T08": ("runtime monitoring: AddressSanitizer/UBSan/hardened-container builds of all tools on damaged, hostile and fuzzed input; monitors on exit status, diagnostics and termination", "exploration", "random damage in every input file of every tool, unusable arguments, mutated files and options"),
 "E07": ("runtime monitoring: driver of the real diagonalise() with guarded work arrays, and HDF5 dumps of real runs; every eigensystem checked against its matrix", "exploration", "18 families of matrices, all routines, ratios and workspace modes; 24 symmetry types in real runs"),
 "E08": ("runtime monitoring: real runs under an instrumented OpenMP runtime (random iteration order and delays), MPI with injected delays, ThreadSanitizer; outputs, eigensolver calls, schedules and HDF5 calls recorded and checked", "exploration", "serial, OpenMP and MPI runs of the same input compared file by file; exactly-once from the eigensolver calls; data races by ThreadSanitizer"),
 "E02": ("runtime monitoring: real runs of the same model in different symmetry types, reports compared online with each other", "exploration", "random models with up to three channels in 7 types; 15 groups of equivalent inputs in 17 types with random coefficient tables; tables, spectra of eigenvalues and spectral functions compared"),
 "E09": ("runtime monitoring with crash injection: real runs killed at chosen file operations (preload library) and started again, state files truncated; state files, exit status and outputs checked", "exploration", "kills before, in the middle of and after file operations, repeated kills, damaged and missing state files"),
 "E10": ("runtime monitoring with fault injection: chosen file operations of real runs made to fail (preload library); exit status, DONE, outputs, directory tree and the log of removals checked", "exploration", "every kind of operation on every file of several configurations, one-off and persistent faults, errors at several stages, work directory configurations, MPI"),
 "E11": ("runtime monitoring: real runs on generated parameter files (echoed values compared with the written ones) and on damaged parameter and data files; exit status, DONE and outputs checked", "exploration", "every keyword with values, spacing, order and duplicates; damage at random positions of the inputs of 25 symmetry types"),
 "E12": ("runtime monitoring: AddressSanitizer/UBSan build of the engine in all symmetry types, valgrind memcheck, on regression inputs, generated models with random settings, and damaged inputs", "exploration", "all symmetry types and algorithms; sanitizer and memcheck reports, exit status"),
}
exec(open(os.path.join(HERE, "manifest_more.py")).read()) if os.path.exists(os.path.join(HERE, "manifest_more.py")) else None
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T and os.path.exists(os.path.join(HERE, "checks", i + ".py")):
        c = dict(property=i, quick_cmd=f"python3-vt checks/{i}.py", thorough_cmd=f"python3-vt checks/{i}.py thorough", technique=T[i][0], level=T[i][1], level_note=T[i][2])
        checks.append(c)
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
