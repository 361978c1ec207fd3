"""setup_cmd: build all the variants the checks use (content-hash cached)"""
import sys, time
from . import build


def main():
    t = time.time()
    bad = 0
    for what, fn in [("engine", lambda: build.engine("main")),
                     ("tools", lambda: build.tools(build.TOOLS)),
                     ("drivers", lambda: build.harness("diag.cc")),
                     ("engine (instrumented OpenMP)", lambda: (build.engine("main-mg"), build.preload("delay.c"))),
                     ("engine (ThreadSanitizer)", lambda: build.engine("tsan", syms=["QS", "QSZ", "SPSU2"], extra_objs=[build.compile_obj(build.VERIF + "/harness/minigomp.cc", "-O1 -g1 -fsanitize=thread")])),
                     ("engine (AddressSanitizer, clang)", lambda: build.engine("casan")),
                     ("engine (a few symmetry types)", lambda: build.engine("main", syms="QS QSZ SPSU2 SPU1 U1 ISO NONE P".split(), name="nrg-some")),
                     ("tools (rel)", lambda: build.tools(build.TOOLS, "rel"))]:
        try:
            fn()
            print(f"built {what} ({time.time() - t:.0f} s)", flush=True)
        except Exception as e:      # the check that needs it will report the failure
            bad += 1
            print(f"building {what} failed: {e}", flush=True)
    sys.exit(1 if bad else 0)


main()
