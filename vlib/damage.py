"""damaging model data files: cuts, holes, missing, surplus and malformed tokens"""
import re


def is_block(l):
    return bool(l) and l[0] in "espgdtoqzZXTW" and not l.startswith("f ")


def tokens(b):
    """(start, end, text, kind) of the tokens of the lines that are not comments"""
    out = []
    pos = 0
    for l in b.split(b"\n"):
        if not l.lstrip().startswith(b"#"):
            s = l.decode(errors="replace")
            if is_block(s):
                out.append((pos, pos + len(l.rstrip()), s.strip(), "block"))
            else:
                for m in re.finditer(rb"\S+", l):
                    t = m.group().decode(errors="replace")
                    out.append((pos + m.start(), pos + m.end(), t, "f" if t == "f" else "num"))
        pos += len(l) + 1
    return out





def damages(rng, b, n):
    tk = tokens(b)
    last = tk[-1]
    out = []
    cuts = set()
    for s, e, t, k in tk:
        cuts |= {s, e, (s + e) // 2, min(e + 1, len(b))}
    cuts = [c for c in cuts if c <= last[0]]          # the very last number is lost completely or more
    blocks = [s for s, e, t, k in tk if k == "block"]
    pri = [c for s in blocks for c in (s, s - 1, s + 1) if 0 < c <= last[0]] + [e for s, e, t, k in tk if k == "block"] + [last[0], last[0] - 1]
    pri = sorted(set(pri))
    rng.shuffle(cuts)
    rng.shuffle(pri)
    for c in pri[:max(4, n // 4)] + cuts[:n // 3] + [rng.randrange(0, last[0] + 1) for _ in range(max(2, n // 10))]:
        out.append((f"cut after {c} of {len(b)} bytes", b[:c]))
    while len(out) < n:
        s, e, t, k = rng.choice(tk)
        line = b[:s].count(b"\n") + 1
        w = rng.choice(["garbage", "delete", "dup", "char", "line-delete", "line-dup", "sign", "junk-block", "hole"])
        if w == "garbage":
            g = rng.choice(["abc", "?", "1.2.3", "--1", "*", "%d", "0..1", "NaN", "-", ".", "e", "(1,", "Infinity"]) if k == "num" else rng.choice(["?", "Q", "1.5", "y foo", "-", "F"])
            out.append((f"{t!r} (line {line}) replaced with {g!r}", b[:s] + g.encode() + b[e:]))
        elif w == "delete":
            out.append((f"{t!r} (line {line}) removed", b[:s] + b[e:]))
        elif w == "dup":
            out.append((f"{t!r} (line {line}) doubled", b[:e] + (b" " if k != "block" else b"\n") + b[s:e] + b[e:]))
        elif w == "char" and k == "num":
            c = rng.randrange(s, e + 1)
            out.append((f"letter inserted in {t!r} (line {line})", b[:c] + rng.choice([b"g", b"?", b"_", b"k", b"@"]) + b[c:]))
        elif w in ("line-delete", "line-dup"):
            a = b.rfind(b"\n", 0, s) + 1
            z = b.find(b"\n", s)
            z = len(b) if z < 0 else z + 1
            out.append((f"line {line} {b[a:z]!r} {'removed' if w == 'line-delete' else 'doubled'}", b[:a] + (b[a:z] + b[a:z] if w == "line-dup" else b"") + b[z:]))
        elif w == "sign" and k == "num" and re.fullmatch(r"\d+", t) and int(t) > 0:
            pass
        elif w == "junk-block":
            out.append((f"surplus text before line {line}", b[:b.rfind(b'\n', 0, s) + 1] + rng.choice([b"xyz\n", b"7.5\n", b"-1\n", b"z\n", b"e\n", b"?\n"]) + b[b.rfind(b'\n', 0, s) + 1:]))
        elif w == "hole":
            z = min(len(b) - 1, s + rng.choice([5, 20, 100]))
            if len(tokens(b[:s] + b[z:])) == len(tk):      # only digits of one number are missing: still well-formed
                continue
            out.append((f"{z - s} bytes missing from line {line} on", b[:s] + b[z:]))
    return out


def same_tokens(a, b):
    f = lambda x: [t for _, _, t, _ in tokens(x)]
    return f(a) == f(b)


