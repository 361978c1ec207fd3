# build_engine OUT SYM... : compiles the engine of the current directory's tree with these symmetry types (stubs for the others)
S=$(dirname "$(readlink -f "${BASH_SOURCE[0]}")")
R=$PWD
build_engine() {
  local out=$1; shift
  local O=$W/obj; mkdir -p $O
  local ALL="QS QSZ ISO ISOSZ SPSU2 SPU1 DBLQSZ DBLSU2 DBLISOSZ ISOLR ISOSZLR NONE P PP SL SL3 SPSU2LR SPSU2T SPU1LR SU2 QSLR QST QSTZ QSZTZ QSZLR QJ U1 SPSU2C3 QSC3"
  local CF="-std=c++20 -w -O0 $EXTRA_CF -DNRG_SYM_BASIC -DNRG_SYM_MORE -DNRG_SYM_ALL -DFMT_HEADER_ONLY -DH5_USE_EIGEN -I$S/shim -I$R/c++ -I$R/c++/symmetry -I$R/c++/symmetry/coefnew -I$R/c++/include -I$R/tools -I$R/tools/common -I$R/tools/nrgchain -I$R/tools/adapt -isystem /usr/include/eigen3 -isystem /usr/include/hdf5/serial $(mpicxx --showme:compile)"
  { echo '#include <memory>'; echo '#include <complex>'; echo '#include <stdexcept>'; echo '#include "params.hpp"'; echo '#include "symmetry.hpp"'; echo 'namespace NRG {'
    for s in $ALL; do case " $* " in *" $s "*) ;; *) n=$s; [ $s = ISO ] && n="ISO ISO2"; [ $s = ISOLR ] && n="ISOLR ISO2LR"
      for m in $n; do echo "template <typename S> std::unique_ptr<Symmetry<S>> mk_$m(const Params &P);"
      for t in double 'std::complex<double>'; do echo "template <> std::unique_ptr<Symmetry<$t>> mk_$m(const Params &) { throw std::runtime_error(\"not in this build\"); }"; done; done;; esac; done; echo '}'; } > $O/stubs.cc
  { echo $O/stubs.cc; for f in $R/c++/*.cc; do b=$(basename $f .cc); case $b in sym-*) case " $* " in *" ${b#sym-} "*) echo $f;; esac;; *openmp_link_anchor*) ;; *) echo $f;; esac; done; } |
    xargs -P 8 -I{} sh -c "g++ $CF -c {} -o $O/\$(basename {} .cc).o" || return 1
  g++ $EXTRA_CF $O/*.o -o $out $(mpicxx --showme:link) -lboost_mpi -lboost_serialization -lopenblas -lgmp -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 -ldl -lgsl -lgslcblas
}
