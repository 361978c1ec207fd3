"""changes of the engine used to test the checks (id, property, [(file, old, new)]): run with dev/trybugs.py"""
B = [
 ("E03-safeguard-extent", "E03", [("c++/truncation.hpp", "(all[nrkeep] - all[nrkeep - 1]) <= P.safeguard", "(all[nrkeep] - all[nrkeep - 1 - cnt_extra]) <= P.safeguard")]),
 ("E03-keepmin", "E03", [("c++/truncation.hpp", "e <= keepenergy; }), P.keepmin, P.keep);", "e < keepenergy; }), P.keepmin, P.keep);")]),
 ("E04-fdm-weight", "E04", [("c++/measurements.hpp", "    if (stats.wn[N] > 1e-16)", "    if (stats.wn[N] > 1e-6)")]),
 ("E05-ftmats-degenerate", "E05", [("c++/algo_FT.hpp", "n>0 || std::abs(energy) > WEIGHT_TOL)", "n>0 || std::abs(energy) > 0.1 * T)")]),
 ("E06-chit-window", "E06", [("c++/numerics.hpp", "  if (std::abs(x) > WEIGHT_TOL) {\n    // If one", "  if (std::abs(x) > 0.02) {\n    // If one")]),
 ("E08-omp-insert", "E08", [("c++/diag_openmp.hpp", "#pragma omp critical\n#endif\n        { diagnew[I]", "#endif\n        { diagnew[I]")]),
 ("E08-mpi-anysource", "E08", [("c++/diag_mpi.hpp", "     mpiw.recv(source, TAG_INVAR, Irecv);", "     mpiw.recv(boost::mpi::any_source, TAG_INVAR, Irecv);")]),
 ("E09-rho-partial", "E09", [("c++/operators.hpp", "           if (MATRIXF.bad()) throw std::runtime_error(fmt::format(\"Error reading {}\", fn));\n", ""),
                             ("c++/operators.hpp", "       const auto tmp_fn = fn + \".tmp\";", "       const auto tmp_fn = fn;")]),
 ("E10-done-early", "E10", [("c++/nrg-general.hpp", "    if (P.dm) {\n      if (P.need_rho()) prepare_rho(diag);", "    if (P.done) safe_open(\"DONE\");\n    if (P.dm) {\n      if (P.need_rho()) prepare_rho(diag);")]),
 ("E11-dup-same", "E11", [("c++/misc.hpp", "if (parsed_params.count(keyword))", "if (parsed_params.count(keyword) && parsed_params[keyword] != value)")]),
 ("E12-uninit", "E12", [("c++/eigen.hpp", "double T_shift = std::numeric_limits<double>::quiet_NaN();", "double T_shift;"), ("c++/eigen.hpp", "   double shift = std::numeric_limits<double>::quiet_NaN();", "   double shift;")]),
 ("E02-qslr-diag", "E02", [("c++/symmetry/coefnew/qslr/qslr-2ch-diag.dat", "DIAG(13, 0, 1.5);", "DIAG(13, 0, 0.5);")]),
 ("E05-dm-mult", "E05", [("c++/dmnrg.hpp", "double(Sym->mult(sub)) / double(Sym->mult(I)), store_all, P, profile);", "double(Sym->mult(sub)) / double(Sym->mult(ns[0])), store_all, P, profile);")]),
 ("E04-wn-combs", "E04", [("c++/measurements.hpp", "mpf_pow_ui(b, b, store.Nend - N - 1);", "mpf_pow_ui(b, b, std::min<size_t>(store.Nend - N - 1, 20));"), ("c++/measurements.hpp", "std::pow(Sym->nr_combs(), store.Nend - N - 1) / stats.ZZG; // ZZZ", "std::pow(Sym->nr_combs(), std::min<size_t>(store.Nend - N - 1, 20)) / stats.ZZG; // ZZZ")]),
]
