"""E11: malformed configuration or model input is rejected, valid input is read exactly.
Three monitors over runs of the real engine:
 - the parameter echo is compared, entry by entry, with an independent reading
   of the same file (random subsets of all parameters, order, spacing, comments,
   foreign sections, every accepted spelling of each type);
 - equivalent rewritings of parameter and data file must give byte-identical
   result files; duplicates, malformed values and unusable combinations must end
   in a non-zero status without DONE;
 - data files cut at token and byte positions, or with damaged, missing or
   surplus tokens, must never lead to success (a loss confined to trailing white
   space or to the digits of the very last number cannot be recognized)."""
import json, os, random, re, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, build, nrgrun, faults, cases
from vlib.damage import is_block, tokens, damages, same_tokens
from vlib.common import case, viol

ck = common.Check("E11", "exploration",
                  "echo cases count if the engine printed its parameter table and it was compared; equivalence cases if both runs finished and wrote the same set of files; rejection and damage cases if the engine was run on the damaged input and its exit status was judged",
                  ["a truncation that only removes white space at the end or trailing digits of the very last number is indistinguishable from a complete file",
                   "damage that leaves a syntactically well-formed file (another number in place of a number) is not covered"])
BIN = None
PARAMS = json.load(open(os.path.join(common.VERIF, "vlib", "params.json")))
TYPE = {k: t for k, t, d in PARAMS}
DEFAULT = {k: d for k, t, d in PARAMS}
DEFAULT["checkrho"] = "true"        # assertions are enabled in this build


def value(t, s):
    if t == "bool":
        return {"true": 1, "yes": 1, "1": 1, "false": 0, "no": 0, "0": 0}[s.strip().lower()]
    if t == "double":
        return float(s)
    if t in ("int", "size_t"):
        return int(s)
    return s


def spell(rng, t, k):
    """a random valid spelling"""
    if t == "bool":
        s = rng.choice(["true", "false", "yes", "no", "1", "0"])
        return rng.choice([s, s.upper(), s.capitalize()])
    if t == "double":
        x = rng.choice([rng.uniform(-5, 5), 10 ** rng.uniform(-12, 6), rng.randrange(-20, 20), -10 ** rng.uniform(-30, 30), 0.1 + 0.2, 1 / 3])
        return rng.choice([repr(float(x)), "%.3e" % x, "%.12E" % x, "%d" % x if abs(x) < 1e9 else repr(x), "%g" % x, "%.17g" % x, "+%g" % abs(x)])
    if t == "size_t":
        return str(rng.choice([0, 1, 2, 7, 100, 12345, 10 ** 9, 2 ** 40 + 1]))
    if t == "int":
        return str(rng.choice([0, 1, -1, 16, 300, 2 ** 31 - 1, -2 ** 31]))
    w = lambda: "".join(rng.choice("abcdefgAZ_0189-^+*=/.:;,!()#") for _ in range(rng.randrange(1, 8)))
    s = " ".join(w() for _ in range(rng.randrange(1, 4)))
    return s if rng.random() < 0.95 else ""


def constrained(rng, have):
    """values that satisfy the documented conditions between parameters"""
    if "T" in have:
        have["T"] = repr(10 ** rng.uniform(-12, 1))
    if "keep" in have:
        have["keep"] = str(rng.choice([2, 3, 50, 1000, 10 ** 7]))
    if "Lambda" in have:
        have["Lambda"] = rng.choice(["1.01", "2", "3.5", "1e1"])
    if "keepmin" in have:
        have["keepmin"] = str(rng.randrange(0, int(have.get("keep", "100")) + 1))
    if "diagratio" in have:
        have["diagratio"] = rng.choice(["0.1", "1", "0.5"])
    if "diag" in have:
        have["diag"] = rng.choice(["default", "dsyev", "dsyevd", "zheev"] + (["dsyevr", "zheevr"] if value("double", have.get("diagratio", "1")) == 1.0 else []))
    if "mult" in have:
        have["mult"] = rng.choice(["blas", "BLAS", "cuda", "Blas"])
    if "discretization" in have:
        have["discretization"] = rng.choice(["Y", "C", "Z", "Zitko", "Campo", "Yoshida"])
    if value("bool", have.get("dumpabs", "false")) and value("bool", have.get("dumpscaled", "true")):
        have["dumpscaled"] = rng.choice(["false", "0", "no", "No"])
    have.pop("resume", None)
    return have


def noise(rng, block=False):
    """lines without meaning inside a block"""
    c = ["", "   ", "\t", "# comment", "   # T=7", "#T=7", "no equals sign here", "#[param]", "# = =", "[]"[:0]]
    return rng.choice(c)


def foreign(rng):
    """sections of other programs; may contain the same keywords"""
    ks = rng.sample(list(TYPE), 4)
    return [f"[{rng.choice(['dmft', 'sweep', 'params', 'Param', 'param2', 'par am', 'PARAM'])}]"] + [f"{k}={rng.choice(['7', 'abc', '-1', ''])}" for k in ks] + [ks[0] + "=twice"]


def layout(rng, have, unknown=(), extra=None, keep_order=False):
    """one of the many texts with this content"""
    items = list(have.items()) + list(unknown)
    if not keep_order:
        rng.shuffle(items)
    eol = rng.choice(["\n", "\n", "\r\n"])
    L = []
    if rng.random() < 0.5:
        L += ["# header", "T=99", ""]
    if rng.random() < 0.5:
        L += foreign(rng)
    ex = []
    if extra is not None:
        ex = ["[extra]"] + [f"{k} = {v}" for k, v in extra.items()] + [""]
    before = rng.random() < 0.5
    if before:
        L += ex
    L.append(rng.choice(["", "  ", "\t"]) + "[param]" + rng.choice(["", " ", "\t "]))
    for k, v in items:
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            L.append(noise(rng))
        sp = lambda: rng.choice(["", "", "", " ", "  ", "\t"])
        L.append(f"{sp()}{k}{sp()}={sp()}{v}{sp()}")
    if not before:
        L += [""] + ex
    if rng.random() < 0.5:
        L += foreign(rng)
        if rng.random() < 0.5:
            L += ["[param]", "T=55", "keep=1"]
    t = eol.join(L)
    return (t + eol if rng.random() < 0.7 else t).encode()


def expect(have):
    """{keyword: (value, set?)} after the documented normalizations"""
    r = {k: [value(t, DEFAULT[k]), False] for k, t, _ in PARAMS}
    for k, v in have.items():
        r[k] = [value(TYPE[k], v), True]
    b = lambda k: r[k][0]
    if any(b(k) for k in ("cfs", "cfsgt", "cfsls", "fdm", "fdmgt", "fdmls", "fdmmats", "fdmexpv", "dmnrg", "dmnrgmats")):
        r["dm"][0] = 1
    r["mult"][0] = r["mult"][0].lower()
    r["discretization"][0] = r["discretization"][0][:1]
    if b("chitp_ratio") > 0:
        r["chitp"][0] = b("chitp_ratio") / b("betabar") if b("betabar") else None
    return r


ECHO = re.compile(r"^(\w+)=(.*?)( \*)?$")


def run(d, files, timeout=120, args=()):
    for n, c in files.items():
        with open(f"{d}/{n}", "wb") as f:
            f.write(c)
    return nrgrun.run([BIN, *args], d, timeout)


def echo(i):
    rng = ck.rng("echo", i)
    n = rng.choice([0, 1, 3, 10, 40, len(PARAMS)])
    have = {k: spell(rng, TYPE[k], k) for k in rng.sample([p[0] for p in PARAMS], min(n, len(PARAMS)))}
    for k in ("symtype",):
        if k in have:
            have[k] = rng.choice(["QS", "QSZ", "foo"])
    have = constrained(rng, have)
    unk = [(k, rng.choice(["1", "x y", "", "a=b"])) for k in rng.sample(["Foo", "bar2", "t", "LAMBDA", "Keep", "temperature", "Nmax", "lambda"], rng.choice([0, 0, 1, 3]))]
    extra = {k: rng.choice(["1.5", "text", "0"]) for k in rng.sample(["U", "Gamma", "delta", "T", "eps"], rng.choice([0, 1, 3]))} if rng.random() < 0.4 else None
    txt = layout(rng, have, unk, extra)
    d = common.scratch(ck.tmp, "echo")
    p = run(d, dict(param=txt, data=b"# symtype QS\n#!9\n# stop here\nx\n"))
    shutil.rmtree(d, ignore_errors=True)
    fs = dict(param=txt, **{"stdout.txt": p.out})
    if p.timeout:
        return case(f"echo/{i}", False, inconclusive="timeout")
    got, unused, extras, mode = {}, {}, {}, None
    for l in p.out.replace("\r", "").split("\n"):
        if l.startswith("Unused settings"):
            mode = unused
        elif l.startswith("Extra params"):
            mode = extras
        elif l.startswith(" ") and "=" in l and mode is not None:
            k, v = l[1:].split("=", 1)
            mode[k] = v
        else:
            if not l.strip():
                mode = None
            m = ECHO.match(l)
            if m and m[1] in TYPE and m[1] not in got:
                got[m[1]] = (m[2], bool(m[3]))
    vs = []
    miss = [k for k in TYPE if k not in got]
    if miss:
        vs.append(viol("no-echo", f"valid parameter file: {len(miss)} of {len(TYPE)} parameters are not reported ({miss[0]}...): {p.out[-300:]} {p.err[-300:]}", fs))
        return case(f"echo/{i}", True, {}, None, vs)
    want = expect(have)
    cmp = 0
    for k, (v, st) in want.items():
        g, gs = got[k]
        try:
            gv = value(TYPE[k], g) if TYPE[k] != "string" else g
        except (ValueError, KeyError):
            gv = g
        if v is None:
            continue
        if k == "chitp" and v != gv and abs(v - gv) <= 1e-15 * abs(v):
            v = gv
        cmp += 1
        if gv != v or gs != st:
            w = have.get(k)
            vs.append(viol("echo", f"{k}: file {'says ' + repr(w) if w is not None else 'does not set it (default ' + DEFAULT[k] + ')'}, the engine uses {g!r}{' (marked as set)' if gs else ''}", fs))
            break
    wu = {k: v for k, v in unk}
    if unused != wu:
        vs.append(viol("unused", f"unknown settings {wu} reported as {unused}", fs))
    if (extras or None) != (extra or None):
        vs.append(viol("extra", f"[extra] {extra} reported as {extras}", fs))
    return case(f"echo/{i}", True, {"parameters compared with an independent reading": cmp, "of these set in the file": len(have), "unknown settings checked": len(wu)}, dict(set=len(have), unknown=len(unk)), vs)


# ---- rejection of parameter files -----------------------------------------
BAD = {"double": ["abc", "1.0x", "1,5", "--3", "", "1 2", "1.2.3", "0x", "e5", "1e", "true", "1.0 # comment"],
       "size_t": ["abc", "1.5", "1e3", "-1", "-100", "", "1 2", "10x", "99999999999999999999999", "+-1", "true", "- 1"],
       "int": ["abc", "1.5", "1e3", "", "1 2", "10x", "99999999999", "--1", "true"],
       "bool": ["maybe", "2", "tru", "", "truefalse", "yes no", "-1", "1.0", "o", "y", "11", "nope"]}


def reject_cases(rng):
    out = []
    for k, t, _ in PARAMS:
        if t in BAD:
            for v in rng.sample(BAD[t], ck.n(2, len(BAD[t]))):
                out.append(("value", {k: v}))
    for k in rng.sample([p[0] for p in PARAMS if p[0] not in ("symtype", "T", "keep")], ck.n(12, 40)):
        out.append(("dup", k))
    out += [("dup-same", "T"), ("dup", "symtype"), ("dup-same", "ops"), ("no-block", 0), ("no-block", 1), ("no-param", 0), ("empty-param", 0)]
    for c in [dict(T="0"), dict(T="-0.1"), dict(T="-1e-300"), dict(keep="1"), dict(keep="0"), dict(Lambda="1"), dict(Lambda="1.0"), dict(Lambda="0.5"), dict(Lambda="-2"),
              dict(keepenergy="5", keepmin="101", keep="100"), dict(diag="dsyevr", diagratio="0"), dict(diag="dsyevr", diagratio="1.0001"), dict(diag="dsyevr", diagratio="-0.5"),
              dict(diag="zheevr", diagratio="2"), dict(diag="dsyevr", diagratio="0.5", fdm="true"), dict(diag="dsyevr", diagratio="0.5", cfs="true"), dict(diag="dsyevr", diagratio="0.9", cfsgt="true"),
              dict(diag="dsyevr", diagratio="0.9", fdmmats="true"), dict(diag="dsyevr", diagratio="0.9", fdmexpv="true"), dict(diag="dsyevr", diagratio="0.9", fdmls="true"), dict(diag="foo"), dict(diag="dsyevx"), dict(mult="mkl"), dict(mult=""),
              dict(dumpabs="true", dumpscaled="true"), dict(dumpabs="true"), dict(discretization="X"), dict(discretization=""), dict(discretization="y"), dict(symtype="XYZ"), dict(symtype=""),
              dict(symtype="qs"), dict(Ninit="100"), dict(Ninit="4"), dict(diag_mode="cuda9"), dict(specd="A_d"), dict(T="nan"), dict(Lambda="nan")]:
        out.append(("combo", c))
    return out


_base = {}


def base(i):
    if i not in _base:
        _base[i] = faults.inputs(ck.rng("base", i), ["mixed", "dmnrg", "complex", "td", "fdm"][i % 5], light=True)
    return _base[i]


def reject(a):
    i, (kind, what) = a
    rng = ck.rng("rej", i, kind, json.dumps(what))
    files, desc = base(0)
    if kind in ("value", "combo"):
        files = faults.setp(files, **what)
    elif kind == "dup":
        files = dict(files, param=files["param"].replace(b"[param]\n", f"[param]\n{what}={spell(rng, TYPE[what], what)}\n{what} = {spell(rng, TYPE[what], what)}\n".encode()))
    elif kind == "dup-same":
        l = next(l for l in files["param"].decode().split("\n") if l.startswith(what + "="))
        files = dict(files, param=files["param"] + (l + "\n").encode())
    elif kind == "no-block":
        files = dict(files, param=files["param"].replace(b"[param]", [b"[parameters]", b"#[param]"][what]))
    elif kind == "empty-param":
        files = dict(files, param=b"")
    elif kind == "no-param":
        files = {"data": files["data"]}
    d = common.scratch(ck.tmp, "rej")
    p = run(d, files, timeout=60)
    done = os.path.exists(d + "/DONE")
    shutil.rmtree(d, ignore_errors=True)
    if p.timeout:
        return case(f"reject/{kind}/{what}", False, inconclusive="timeout")
    vs = []
    if kind == "combo" and "specd" in what:
        return case(f"reject/{kind}/{what}", False)
    if p.rc == 0 or done:
        vs.append(viol("accepted-param", f"{kind} {what}: exit status {p.rc}{', DONE' if done else ''}", dict(files, **{"stdout.txt": p.out[:20000]})))
    return case(f"reject/{kind}/{what}", True, {f"rejected ({kind})": int(p.rc != 0), "exit by signal": int(p.rc < 0)}, dict(kind=kind, what=what), vs)


# ---- equivalent rewritings --------------------------------------------------
def rewrite_data(rng, data):
    """same tokens, other white space; block headers and comments stay lines of their own"""
    out = []
    lines = data.decode().split("\n")
    seen_block = False
    started = False
    for l in lines:
        t = l.split()
        if l.startswith("#") or not t:
            out.append(l)
            continue
        started = True
        if is_block(l):
            seen_block = True
            out += [""] * rng.choice([0, 0, 1]) + ["# remark"] * rng.choice([0, 0, 1])
            out.append(l)
            continue
        if l.startswith("f "):
            out.append(rng.choice([" ", ""]) + rng.choice([" ", "\t", "\n"]).join(t) + " ")
            continue
        c = any("(" in x for x in t)
        sep = lambda: rng.choice([" ", " ", "  ", "\t"] + ["\n"])
        s = t[0]
        for x in t[1:]:
            s += sep() + x
        out.append(rng.choice(["", "", " "]) + s + rng.choice(["", "", " ", "\t"]))
    return "\n".join(out).encode()


def outputs(d):
    r = {}
    for n in os.listdir(d):
        if n not in ("param", "data") and os.path.isfile(f"{d}/{n}"):
            r[n] = common.slurp(f"{d}/{n}", 5000000)
    return r


def equivalent(i):
    rng = ck.rng("equiv", i)
    files, desc = base(100 + i % 7)
    d = common.scratch(ck.tmp, "eq")
    p0 = run(d, files)
    o0 = outputs(d)
    shutil.rmtree(d, ignore_errors=True)
    have = {}
    for l in files["param"].decode().split("\n"):
        if "=" in l:
            k, v = l.split("=", 1)
            have[k] = v
    resp = {k: v for k, v in have.items()}
    for k in resp:     # other spellings of the same value
        if TYPE[k] == "bool" and rng.random() < 0.7:
            resp[k] = rng.choice(["true", "TRUE", "yes", "1", "Yes"]) if value("bool", resp[k]) else rng.choice(["false", "no", "0", "No"])
        elif TYPE[k] == "double" and rng.random() < 0.7:
            x = float(resp[k])
            resp[k] = rng.choice(["%.17g" % x, "%.17e" % x, "+%.17g" % x if x >= 0 else "%.17g" % x])
    for k, t, dflt in PARAMS:      # explicit defaults
        if k not in resp and k != "checkrho" and dflt != "" and rng.random() < 0.2:
            resp[k] = dflt
    f2 = dict(param=layout(rng, resp, [("Foo", "1")] if rng.random() < 0.3 else []), data=rewrite_data(rng, files["data"]))
    d = common.scratch(ck.tmp, "eq")
    p1 = run(d, f2)
    o1 = outputs(d)
    shutil.rmtree(d, ignore_errors=True)
    if p0.timeout or p1.timeout:
        return case(f"equivalent/{i}", False, inconclusive="timeout")
    vs = []
    fs = dict(**{"a_" + k: v for k, v in files.items()}, **{"b_" + k: v for k, v in f2.items()}, **{"b_stdout.txt": p1.out[-20000:], "b_stderr.txt": p1.err[-3000:]})
    if p0.rc != 0:
        vs.append(viol("failed", f"{desc}: valid input rejected: {p0.err[-300:]}", fs))
    elif p1.rc != 0:
        vs.append(viol("rejected", f"{desc}: equivalent input (other order and spacing) ends with status {p1.rc}: {(p1.err + p1.out)[-300:]}", fs))
    else:
        for n in sorted(set(o0) | set(o1)):
            if o0.get(n) != o1.get(n):
                vs.append(viol("different", f"{desc}: {n} {'differs' if n in o0 and n in o1 else 'is missing in one run'} although the inputs mean the same", fs))
                break
    return case(f"equivalent/{i}", not vs and len(o0) > 3, {"result files compared": len(o0), "result bytes compared": sum(map(len, o0.values()))}, dict(input=desc), vs)


# ---- damaged data files -------------------------------------------------------
TESTS = ["c++sym_all/legacy_sl1", "c++/test0_clean", "c++sym_all/test321_SL", "c++sym_spsu2/spsu2_kappa+eps", "c++sym_spsu2/spsu2_delta2-complex", "c++/test0_minimal_Nmax2_td", "c++sym_all/legacy_isolr", "c++/test3_disc_z",
         "c++sym_all/test315_ISOLR", "c++/test207_substeps_minimal", "c++sym_all/legacy_qslr", "c++sym_more/test511_SPSU2_gap_minimal", "c++sym_more/legacy_iso_iso2", "c++sym_all/legacy_dblsu2_1", "c++sym_spsu2/spsu2_kappa+eps+t-complex1",
         "c++/test13_strategy_all", "c++/legacy_discretization_d1", "c++sym_all/test300_QS_ref"]
NGEN = 6
_src = {}


def source(i):
    """data files to damage: generated ones and inputs of the regression tests"""
    if i not in _src:
        if i < NGEN:
            f, d = faults.inputs(ck.rng("dmg", i), ["mixed", "complex", "td", "gt", "dmnrg", "fdm"][i % 6], Nmax=ck.rng("dmgN", i).choice([2, 3, 4]), light=True)
        else:
            p = os.path.join(build.REPO, "test", TESTS[i - NGEN])
            if not os.path.exists(p + "/data") or not os.path.exists(p + "/param"):
                return None
            f = {n: open(f"{p}/{n}", "rb").read() for n in os.listdir(p) if os.path.isfile(f"{p}/{n}") and n not in ("DONE", "log") and os.path.getsize(f"{p}/{n}") < 300000}
            f = {n: b for n, b in f.items() if n in ("param", "data") or n.endswith(".dat") or n.startswith(("theta", "Delta", "FSOL", "GSOL", "xi", "zeta"))}
            d = TESTS[i - NGEN]
        _src[i] = (f, d)
    return _src[i]


def reference(i):
    s = source(i)
    if s is None:
        return i, None
    files, desc = s
    d = common.scratch(ck.tmp, "src")
    p = run(d, files, timeout=100)
    o = outputs(d) if p.rc == 0 else None
    shutil.rmtree(d, ignore_errors=True)
    return i, (o, p.wall, p.rc)


def damage(a):
    i, j, what, data = a
    files, desc = source(i)
    o0 = _ref[i][0]
    d = common.scratch(ck.tmp, "dmg")
    p = run(d, dict(files, data=data), timeout=60 + 5 * _ref[i][1])
    done = os.path.exists(d + "/DONE")
    o = outputs(d) if p.rc == 0 else None
    shutil.rmtree(d, ignore_errors=True)
    key = f"damage/{i}/{j}"
    if p.timeout:
        return case(key, True, {}, None, [viol("hang", f"{desc}: {what}: the engine did not end", dict(files, data=data))])
    vs = []
    obs = {"damaged data files tried": 1, "cut files" if what.startswith("cut") else "files with damaged tokens": 1}
    if p.rc == 0 or done:
        diff = [n for n in sorted(set(o0) | set(o or {})) if (o or {}).get(n) != o0.get(n)]
        ok = p.rc == 0 and not diff and not what.startswith("cut")
        if same_tokens(data, files["data"]) or ok:      # nothing was lost, or what was lost has no meaning
            obs["damage without effect"] = 1
        else:
            vs.append(viol("accepted-data", f"{desc}: {what}: exit status {p.rc}{', DONE' if done else ''}; {len(diff)} result files differ from those of the intact input", dict(files, data=data, **{"data.orig": files["data"], "stdout.txt": p.out[:50000]})))
    else:
        obs["rejected"] = 1
        obs["rejected without a message"] = int(not p.err.strip() and "xception" not in p.out and "rror" not in p.out)
    if p.rc < 0:
        obs["exit by signal"] = 1
    return case(key, True, obs, dict(input=desc, damage=what), vs)


_ref = {}


def main():
    global BIN
    BIN = build.engine("main")
    ck.run(echo, range(ck.n(260, 3000)))
    rc = reject_cases(ck.rng("reject"))
    base(0)
    ck.run(reject, [(0, c) for c in rc])
    for i in range(7):
        base(100 + i)
    ck.run(equivalent, range(ck.n(28, 280)))
    from concurrent.futures import ThreadPoolExecutor
    ids = list(range(NGEN + len(TESTS)))
    for i in ids:
        source(i)
    with ThreadPoolExecutor(common.NCPU) as ex:
        for i, r in ex.map(reference, ids):
            if r is not None and r[0] is not None:
                _ref[i] = r
            elif r is not None and i < NGEN:
                ck.add(case(f"source/{i}", True, {}, None, [viol("failed", f"{source(i)[1]}: valid input: exit status {r[2]}", source(i)[0])]))
    todo = []
    for i in sorted(_ref):
        rng = ck.rng("damage", i)
        files, desc = source(i)
        n = ck.n(60, 600)
        todo += [(i, j, w, b) for j, (w, b) in enumerate(damages(rng, files["data"], n)) if b != files["data"]]
    ck.run(damage, todo)
    ck.extra["data files damaged"] = [source(i)[1] for i in sorted(_ref)]
    ck.finish()


common.main(main)
