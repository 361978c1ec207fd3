"""more changes of the tools (id, property, [(file, old, new)])"""
B = [
 ("T01-adapt-neg", "T01", [("tools/nrgchain/nrgchain.cc", "double eps_neg(double x) {\n  const double gx = (adapt ? g_neg(x) : 1.0);", "double eps_neg(double x) {\n  const double gx = (adapt ? g_pos(x) : 1.0);")]),
 ("T01-bandresc", "T01", [("tools/nrgchain/nrgchain.cc", "coef_zeta = coef_zeta * bandrescale;", "coef_zeta = coef_zeta * (rescalexi ? 1.0 : bandrescale);")]),
 ("T01-intlin-low", "T01", [("tools/common/linint.hpp", "if (x <= Base::xmin) { return intfxmin + Base::fxmin * (x - Base::xmin); }", "if (x <= Base::xmin) { return intfxmin; }")]),
 ("T01-eps-max", "T01", [("tools/nrgchain/nrgchain.cc", "const double int_neg2 = intrho_neg(eps_neg(z+1)) - intrho_neg(eps_neg(z + mMAX + 2));", "const double int_neg2 = intrho_neg(eps_neg(z+1)) - intrho_neg(eps_pos(z + mMAX + 2));")]),
 ("T02-intlin-low", "T02", [("tools/common/linint.hpp", "if (x <= Base::xmin) { return intfxmin + Base::fxmin * (x - Base::xmin); }", "if (x <= Base::xmin) { return intfxmin; }")]),
 ("T03-intavg", "T03", [("tools/common/linint.hpp", "    } else if (x >= x1) {", "    } else if (x > x1) {")]),
]
