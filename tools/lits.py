"""When the (changed) crate does not compile over the symbolic scalar because it mixes
the scalar type with float literals or numeric casts, wrap exactly those expressions in
a scratch copy of the crate: `1.0` -> `crate::verif::Sym::lit(1.0)`, `n as Float` ->
`crate::verif::Sym::lit((n) as f64)`.  In the files over the library's own scalar
(geometry, cameras), which may name `f32` for `Float`, the type and its constants become
those of the build's scalar, and constants that need arithmetic are written out where
they are used.  Nothing else is changed; what was wrapped is reported in the evidence."""
import json
import os
import re
import shutil


def errors(msgs):
    for line in msgs.splitlines():
        if not line.startswith("{"):
            continue
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            yield m["message"]


LIT = re.compile(rb"^-?\s*[0-9][0-9_]*(\.[0-9_]*)?([eE][-+]?[0-9]+)?(_?f32|_?f64)?$")
NUM = rb"[0-9][0-9_]*(?:\.[0-9_]*)?(?:[eE][-+]?[0-9]+)?(?:_?f32|_?f64)?"
LEFT = re.compile(rb"(?<![\w.])(" + NUM + rb")\s*$")
RIGHT = re.compile(rb"\s*(-?" + NUM + rb")(?![\w.])")
RANGE = re.compile(rb"(?<![\w.])(" + NUM + rb")\s*\.\.=?\s*$")
CAST = re.compile(rb"^(.*\S)\s+as\s+([A-Za-z0-9_:]+)$", re.S)


OPS = (b"+", b"-", b"*", b"/", b"+=", b"-=", b"*=", b"/=", b"==", b"!=", b"<", b"<=", b">", b">=")


def wrap(text):
    t = re.sub(rb"_?f(32|64)$", b"", text)
    if b"." not in t and b"e" not in t.lower():
        t += b".0"
    return b"crate::verif::Sym::lit(" + t + b")"


def patch(src_root, msgs):
    """-> descriptions of the edits made"""
    edits = {}
    for m in errors(msgs):
        code = (m.get("code") or {}).get("code")
        for sp in m["spans"]:
            f = sp["file_name"]
            f = f if os.path.isabs(f) else os.path.join(src_root, f)
            if not os.path.realpath(f).startswith(os.path.realpath(src_root) + os.sep) or not os.path.exists(f):
                continue
            raw = open(f, "rb").read()
            a, b = sp["byte_start"], sp["byte_end"]
            text = raw[a:b]
            if code in ("E0308", "E0277", "E0271") and LIT.match(text):
                edits.setdefault(f, {})[(a, b)] = wrap(text)
            elif code == "E0308" and RANGE.search(raw[:a]):
                k = RANGE.search(raw[:a])
                edits.setdefault(f, {})[(k.start(1), k.end(1))] = wrap(k.group(1))
            elif code == "E0277" and text in OPS and "`{float}`" in m["message"]:
                # "cannot multiply `A` by `B`", "cannot add `B` to `A`": A on the left
                m2 = re.search(r"(?:cannot|can't) (\S+) `(.*?)` (?:by|to|from|with) `(.*?)`", m["message"])
                if m2:
                    left = m2.group(3) if m2.group(1).startswith(("add", "sub")) else m2.group(2)
                    k, o = (LEFT.search(raw[:a]), 0) if left == "{float}" else (RIGHT.match(raw[b:]), b)
                    if k:
                        edits.setdefault(f, {})[(o + k.start(1), o + k.end(1))] = wrap(k.group(1))
            elif code in ("E0604", "E0605", "E0606", "E0607"):
                c = CAST.match(text)
                if c and c.group(2) not in (b"f32", b"f64"):
                    edits.setdefault(f, {})[(a, b)] = b"crate::verif::Sym::lit((" + c.group(1) + b") as f64)"
    done = []
    for f, es in edits.items():
        raw = open(f, "rb").read()
        last = len(raw) + 1
        for (a, b), t in sorted(es.items(), reverse=True):
            if b > last:
                continue
            done.append("%s: %s" % (os.path.relpath(f, src_root), raw[a:b].decode(errors="replace")))
            raw = raw[:a] + t + raw[b:]
            last = a
        open(f, "wb").write(raw)
    return done


FLOAT = "crate::math::scalar::Float"
CONSTS = r"(?:(?:::)?(?:std|core)::)?(?:f32::)?consts::([A-Z][A-Z0-9_]*)"


def code_end(text):
    """where the tests begin"""
    m = re.search(r"#\[cfg\(test\)\]", text)
    return m.start() if m else len(text)


def inline_consts(text):
    """write arithmetic constants out where they are used"""
    while True:
        m = re.search(r"^[ \t]*(?:pub(?:\([^)]*\))?\s+)?const\s+([A-Z][A-Z0-9_]*)\s*:\s*(?:f32|Float)\s*=\s*([^;]+);[^\n]*\n", text, re.M)
        if not m:
            return text
        text = text[:m.start()] + text[m.end():]
        text = re.sub(r"\b(?:\w+::)*" + m.group(1) + r"\b", lambda _: "(" + m.group(2) + ")", text)


def retype(src_root, flavour):
    """f32 -> the scalar of the build, in the files that are not generic over it"""
    done = []
    for sub in ("geometry", "cameras"):
        for d, _, fs in os.walk(os.path.join(src_root, "src", sub)):
            for f in sorted(fs):
                if not f.endswith(".rs"):
                    continue
                p = os.path.join(d, f)
                old = open(p).read()
                k = code_end(old)
                text, tests = old[:k], old[k:]
                if flavour == "f64":
                    text = re.sub(r"\bf32\b", "f64", text)
                    text = re.sub(r"(\d\.?)_?f32\b", r"\1_f64", text)
                else:
                    text = inline_consts(text)
                    text = re.sub(r"^\s*use (?:std|core)::f32(?:::consts(?:::\{?self\}?)?)?;", "", text, flags=re.M)
                    m = re.search(r"^\s*use (?:std|core)::f32::consts::(?:\{([^}]*)\}|(\w+));", text, re.M)
                    if m:
                        text = text[:m.start()] + text[m.end():]
                        for n in re.findall(r"\w+", m.group(1) or m.group(2)):
                            text = re.sub(r"(?<![\w:])%s\b" % n, "consts::" + n, text)
                    text = re.sub(CONSTS, r'crate::verif::Sym::konst("\1")', text)
                    text = re.sub(r"\bf32\b", FLOAT, text)
                if text != old[:k]:
                    open(p, "w").write(text + tests)
                    done.append("%s: f32 read as the scalar" % os.path.relpath(p, src_root))
    return done


def build_wrapped(build, flavour, feature, msg, scratch, log, repo="/repo"):
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    root = os.path.join(scratch, "wrapped-" + flavour)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    shutil.copytree(repo, os.path.join(root, "repo"), ignore=shutil.ignore_patterns(".git", "target"))
    shutil.copytree(os.path.join(verif, "harness"), os.path.join(root, "harness"), ignore=shutil.ignore_patterns("target"))
    t = os.path.join(root, "harness", "Cargo.toml")
    s = open(t).read().replace('"%s"' % repo, '"%s"' % os.path.join(root, "repo"))
    open(t, "w").write(s)
    done, last = [], msg
    try:
        # first the literals alone, then, from a fresh copy, with the type too
        for full in (False, True):
            if full:
                shutil.rmtree(os.path.join(root, "repo"))
                shutil.copytree(repo, os.path.join(root, "repo"), ignore=shutil.ignore_patterns(".git", "target"))
                done = retype(os.path.join(root, "repo"), flavour)
                if not done:
                    break
            elif flavour == "f64":
                continue
            for _ in range(8):
                b, last = build(flavour, feature, os.path.join(root, "harness"), os.path.join(scratch, flavour + "-wrapped"))
                if b:
                    return b, done
                e = patch(os.path.join(root, "repo"), last) if flavour == "sym" else []
                if not e:
                    break
                log("wrapped", len(e), "literals")
                done += e
    finally:
        shutil.rmtree(root, ignore_errors=True)
    log("no %s build:" % flavour, " | ".join(m["message"][:200] + " at " + " ".join("%s:%d" % (x["file_name"].rsplit("/", 1)[-1], x["line_start"]) for x in m["spans"][:1]) for m in list(errors(last or msg))[:5]))
    return None, done
