"""running the engine and reading what it wrote"""
import os, re, subprocess, tempfile, shutil, time, signal
import numpy as np

ENV = dict(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", OMP_DYNAMIC="FALSE", OMPI_ALLOW_RUN_AS_ROOT="1",
           OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl_vader_single_copy_mechanism="none",
           OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
           OMPI_MCA_btl="self,vader", OMPI_MCA_plm="isolated", OMPI_MCA_ess_base_stream_buffering="0")


def env(extra=None):
    e = dict(os.environ)
    e.update(ENV)
    e.pop("NRG_WORKDIR", None)
    if extra:
        e.update(extra)
    return e


class Proc:
    def __init__(self, rc, out, err, timed_out, wall):
        self.rc, self.out, self.err, self.timeout, self.wall = rc, out, err, timed_out, wall


def run_once(cmd, cwd, timeout=60, extra_env=None, stdin=None, limit_as=None, errors="replace"):
    t = time.time()
    pre = None
    if limit_as:
        import resource
        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (limit_as, limit_as))
    p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=env(extra_env), start_new_session=True, preexec_fn=pre)
    to = False
    try:
        o, e = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
    return Proc(p.returncode, o.decode(errors=errors), e.decode(errors=errors), to, time.time() - t)


MPIFAIL = ("before MPI_INIT completed", "MPI_Init_thread", "PMIX ERROR", "ORTE_ERROR_LOG")


def startup_failed(p):
    """Open MPI itself failed to start (the engine has not begun); happens rarely when many processes start at once"""
    return p.rc != 0 and not p.timeout and any(s in p.err or s in p.out for s in MPIFAIL) and "NRG Ljubljana" not in p.out


def run(cmd, cwd, timeout=60, extra_env=None, stdin=None, limit_as=None, errors="replace"):
    for k in range(4):
        p = run_once(cmd, cwd, timeout, extra_env, stdin, limit_as, errors)
        if not startup_failed(p):
            break
        time.sleep(0.3 * (k + 1))
    return p


def param_text(params, extra=None, section="param"):
    s = ""
    if extra:
        s += "[extra]\n" + "".join(f"{k}={v}\n" for k, v in extra.items()) + "\n"
    return s + f"[{section}]\n" + "".join(f"{k}={v}\n" for k, v in params.items())


def read_table(path):
    """td/custom style: comment line(s) with names, rows of numbers"""
    names, rows = None, []
    try:
        with open(path) as f:
            for l in f:
                if l.startswith("#"):
                    t = l[1:].split()
                    if names is None or not all(x.isdigit() for x in t):
                        names = t
                    continue
                if l.strip():
                    rows.append([float(x) for x in l.split()])
    except (OSError, ValueError):
        return None, None
    return names, rows


def read_td(path):
    names, rows = read_table(path)
    if not names:
        return None
    return [dict(zip(names, r)) for r in rows]


def read_bin(path, cols=2):
    a = np.fromfile(path, dtype=np.float64)
    return a.reshape(-1, cols)


def read_energies(path):
    """energies.nrg: per iteration, list of (label tuple, energies). Returned as list of dict"""
    its = []
    cur = None
    lab = None
    with open(path) as f:
        for l in f:
            s = l.strip()
            if s.startswith("====") or "Iteration" in s or s.startswith("#"):
                cur = {}
                its.append(cur)
                continue
            if s.startswith("Subspace"):
                lab = s.split(":")[1].strip() if ":" in s else s[len("Subspace"):].strip()
                continue
            if s:
                if cur is None:
                    cur = {}
                    its.append(cur)
                cur.setdefault(lab, [])
                cur[lab] += [float(x) for x in s.split()]
    return its
