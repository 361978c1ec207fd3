B = [
 ("T02-hardgap", "T02", [("tools/adapt/adapt.hpp", "    if (hardgap) { epsilon = rescale(epsilon); }", "    if (hardgap && x_ > 2.0) { epsilon = rescale(epsilon); }")]),
 ("T02-secant", "T02", [("tools/adapt/adapt.hpp", "     A = ratio1 > 1.0 ? A * factor0 : A / factor0;\n     const auto [ratio2, vecg2] = shoot_g();\n     if (std::abs(ratio2 - 1.0) < convergence_eps)  // We're done\n       return vecg2;", "     A = ratio1 > 1.0 ? A * factor0 : A / factor0;\n     const auto [ratio2, vecg2] = shoot_g();\n     if (std::abs(ratio2 - ratio1) < convergence_eps)  // We're done\n       return vecg2;")]),
 ("T05-hilb-negy", "T05", [("tools/hilb/hilb.hpp", "return std::abs(y) * ref1(std::abs(y) * W + x); };", "return y * ref1(std::abs(y) * W + x); };")]),
 ("T04-acc-neg", "T04", [("tools/broaden/broaden.hpp", "       const auto shift = -accumulation; // note the sign!\n       e                = e - shift;", "       const auto shift = -accumulation; // note the sign!\n       e                = e + shift;")]),
 ("T04-filter-pos", "T04", [("tools/broaden/broaden.hpp", "if (!keeppositive && vfreq[j] >= 0) { vspec[j] = 0.0; }", "if (!keeppositive && vfreq[j] > filterlow) { vspec[j] = 0.0; }")]),
 ("T04-bw-mesh", "T04", [("tools/bw/bw.cc", "double newpt = -sqrt(mesh_[i] * mesh_[i - 1]);", "double newpt = -sqrt(mesh_[i] * mesh_[i - 2]);")]),
 ("T04-bw-omega0", "T04", [("tools/bw/bw.cc", "omega0 = (inta_[i - 1] + inta_[i]) / 2.0;", "omega0 = inta_[i];")]),
 ("T08-bw-pairs", "T08", [("tools/bw/bw.cc", "  if (len % (2 * sizeof(double)) != 0) throw std::runtime_error(\"Input binary file has incomplete data pairs.\");\n", "")]),
]
