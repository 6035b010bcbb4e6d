"""Loops, for any number of iterations, by Verus: the lists of primitives (C19) and the
component loops of vectors (C07).

The bodies of the functions are extracted from /repo on every run and put under
contract in verus/*.rs.in.  What the extraction changes: comments and attributes go,
the `impl` headers (trait names, type parameters) are those of the template, the result
gets a name, `for x in E` over the members becomes `for x in it: self.primitives.iter()`,
the loops get an invariant, a `'static` bound and the phantom field are dropped.  The
statements are kept as they are.  When a function has another shape than the invariants
are made for, nothing is decided about it here, and the bounded contracts (harness/)
decide alone."""
import concurrent.futures as cf
import json
import os
import re
import subprocess
import time

from config import VERIF

SRC = {"list": "/repo/src/geometry/primitive.rs", "vector": "/repo/src/math/vector.rs"}


def strip(text):
    """drop comments and attributes"""
    text = re.sub(r"/\*.*?\*/", "", text, flags=re.S)
    text = re.sub(r"//[^\n]*", "", text)
    return re.sub(r"#\[[^\]]*\]", "", text)


def block(text, i):
    """text[i] == '{' -> index after the matching '}'"""
    depth = 0
    while i < len(text):
        if text[i] == "{":
            depth += 1
        elif text[i] == "}":
            depth -= 1
            if depth == 0:
                return i + 1
        i += 1
    raise ValueError("unbalanced braces")


def functions(text):
    """-> [(impl header, name, parameter names, body)]"""
    res = []
    for m in re.finditer(r"\bimpl\b[^{;]*\{", text):
        end = block(text, m.end() - 1)
        inner = text[m.end():end - 1]
        head = re.sub(r"\s+", "", m.group(0)[:-1])
        pos = 0
        while True:
            f = re.compile(r"\bfn\s+(\w+)\s*(<[^{;(]*>)?\s*\(([^)]*)\)[^{;]*\{").search(inner, pos)
            if not f:
                break
            e = block(inner, f.end() - 1)
            params = [re.sub(r"^(&|mut|\s)+", "", a.split(":")[0].strip()) for a in re.sub(r"<[^()]*>", "", f.group(3)).split(",") if a.strip()]
            res.append((head, f.group(1), params, inner[f.end() - 1:e]))
            pos = e
    return res


def find(fs, head, name):
    c = [f for f in fs if f[1] == name and re.search(head, f[0])]
    if len(c) != 1:
        raise ValueError("%d functions %s" % (len(c), name))
    return c[0]


def mutables(text):
    return dict((a, b.strip()) for a, b in re.findall(r"\blet\s+mut\s+(\w+)\s*(?::[^=]+?)?=\s*([^;]+);", text))


def loops_in(body):
    return len(re.findall(r"\b(?:for|while|loop)\b", body))


# ---------------------------------------------------------------------- lists (C19)
LIST = r"^impl(\w+for)?PrimitiveList$"
LISTS = {
    "new": (["pub fn new() -> (res: PrimitiveList)\n ensures res.primitives@ == Seq::<PrimitiveHandle>::empty()\n"], []),
    "add_primitive": (["pub fn add_primitive<T: Primitive>(&mut self, primitive: T)\n ensures final(self).primitives@ == old(self).primitives@.push(handle_of(primitive))\n"], ["self", "primitive"]),
    "intersect": (["pub fn intersect(&self, ray: Rayf) -> (res: Option<IntersectionResult>)\n ensures nearest(self.primitives@, self.primitives@.len() as int, ray, res)\n"], ["self", "ray"]),
    "do_intersect": (["pub fn do_intersect(&self, ray: Rayf) -> (res: bool)\n ensures res == some_hit(self.primitives@, self.primitives@.len() as int, ray)\n"], ["self", "ray"]),
    "bbox": (["pub fn bbox(&self) -> (res: Bbox3)\n requires proper(self.primitives@)\n ensures smallest(self.primitives@, self.primitives@.len() as int, res)\n"], ["self"]),
}
LOOP = re.compile(r"\bfor\s+(\w+)\s+in\s+(?:self\.primitives\.iter\(\)|&\s*self\.primitives|self\.primitives\.as_slice\(\)\.iter\(\))\s*\{")


def list_body(name, body):
    if name in ("new", "add_primitive"):
        if loops_in(body):
            raise ValueError("%s has a loop" % name)
        return body
    m = LOOP.search(body)
    if not m or loops_in(body) != 1:
        raise ValueError("%s: the loop has another shape" % name)
    before = body[:m.start()]
    muts = mutables(before)
    if name == "intersect":
        res = [v for v, e in muts.items() if re.match(r"(Option::)?None\b", e)]
        rays = [v for v, e in muts.items() if e in ("ray", "ray.clone()")]
        ts = [v for v, e in muts.items() if e == "ray.tmax"]
        if "ray" in re.findall(r"\bmut\s+(\w+)", body) or len(res) != 1 or len(rays) + len(ts) != 1:
            raise ValueError("intersect: other variables than a result and a ray (or its limit)")
        inv = ["nearest(self.primitives@, it.index@ as int, ray, %s)" % res[0]]
        if rays:
            inv += ["%s.origin == ray.origin" % rays[0], "%s.direction == ray.direction" % rays[0]]
            lim = rays[0] + ".tmax"
        else:
            lim = ts[0]
        inv += ["match %s { None => %s == ray.tmax, Some(h) => %s == h.t_ray && val(h.t_ray) <= val(ray.tmax) }" % (res[0], lim, lim)]
    elif name == "do_intersect":
        if muts:
            raise ValueError("do_intersect: the loop has a state")
        inv = ["forall|i: int| 0 <= i < it.index@ ==> hit(#[trigger] self.primitives@[i], ray) is None"]
    else:
        if len(muts) != 1:
            raise ValueError("bbox: other variables than the box")
        inv = ["proper(self.primitives@)", "smallest(self.primitives@, it.index@ as int, %s)" % list(muts)[0]]
    return before + "for %s in it: self.primitives.iter()\n invariant %s,\n {" % (m.group(1), ",\n ".join(inv)) + body[m.end():]


def list_parts(text):
    if not re.search(r"struct\s+PrimitiveList\s*\{\s*(pub(\([^)]*\))?\s+)?primitives\s*:\s*Vec<PrimitiveHandle>\s*,?\s*\}", text):
        raise ValueError("PrimitiveList has other fields")
    fs = functions(text)
    for n, (head, params) in LISTS.items():
        def get(n=n, head=head, params=params):
            _, _, ps, body = find(fs, LIST, n)
            if ps != params:
                raise ValueError("%s has other parameters" % n)
            return head[0] + list_body(n, body)
        yield "PrimitiveList::" + n, get


# -------------------------------------------------------------------- vectors (C07)
G = r"GenericVector<T,N,U>"
OPS = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "/"}


def scalar_ops():
    out = ""
    for n, o in OPS.items():
        l = n.lower()
        val, asg = (("prod(val(self), val(rhs))", "prod(val(*self), val(rhs))") if n == "Mul" else
                    ("val(self) %s val(rhs)" % o, "val(*self) %s val(rhs)" % o))
        req = "val(rhs) != 0real" if n == "Div" else "true"
        out += """
impl vstd::std_specs::ops::{n}SpecImpl<T> for T {{
    open spec fn obeys_{l}_spec() -> bool {{ true }}
    open spec fn {l}_req(self, rhs: T) -> bool {{ {req} }}
    open spec fn {l}_spec(self, rhs: T) -> T {{ of({val}) }}
}}
impl core::ops::{n}<T> for T {{ type Output = T; #[verifier::external_body] fn {l}(self, rhs: T) -> T {{ unimplemented!() }} }}
impl vstd::std_specs::ops::{n}AssignSpecImpl<T> for T {{
    open spec fn obeys_{l}_assign_spec() -> bool {{ true }}
    open spec fn {l}_assign_req(&self, rhs: T) -> bool {{ {req} }}
    open spec fn {l}_assign_spec(&self, rhs: T) -> &Self {{ &of({asg}) }}
}}
impl core::ops::{n}Assign<T> for T {{ #[verifier::external_body] fn {l}_assign(&mut self, rhs: T) {{ unimplemented!() }} }}
""".format(n=n, l=l, val=val, asg=asg, req=req)
    return out


NONZERO = "forall|j: int| 0 <= j < N ==> val(#[trigger] rhs.vec[j]) != 0real"
# extracted as: impl header, name, parameters, kind, value of component j, precondition
VECTORS = {
    "min": (r"^impl<T:Scalar,constN:usize,U>" + G + "$", "min", "map", "rmin(val({a}.vec[j]), val(rhs.vec[j]))", None, "Self"),
    "max": (r"^impl<T:Scalar,constN:usize,U>" + G + "$", "max", "map", "rmax(val({a}.vec[j]), val(rhs.vec[j]))", None, "Self"),
    "add": (r"ops::Add<%s>for%s$" % (G, G), "add", "map", "val({a}.vec[j]) + val(rhs.vec[j])", None, "Self"),
    "mul": (r"ops::Mul<%s>for%s$" % (G, G), "mul", "map", "prod(val({a}.vec[j]), val(rhs.vec[j]))", None, "Self"),
    "div": (r"ops::Div<%s>for%s$" % (G, G), "div", "map", "val({a}.vec[j]) / val(rhs.vec[j])", NONZERO, "Self"),
    "sub": (r"ops::Sub<%s>for%s$" % (G, G), "sub", "map", "val({a}.vec[j]) - val(rhs.vec[j])", None, "Self"),
    "add_assign": (r"ops::AddAssign<%s>for%s$" % (G, G), "add_assign", "assign", "val({a}.vec[j]) + val(rhs.vec[j])", None, "Self"),
    "sub_assign": (r"ops::SubAssign<%s>for%s$" % (G, G), "sub_assign", "assign", "val({a}.vec[j]) - val(rhs.vec[j])", None, "Self"),
    "mul_scalar": (r"ops::Mul<T>for%s$" % G, "mul", "map", "prod(val({a}.vec[j]), val(rhs))", None, "T"),
    "div_scalar": (r"ops::Div<T>for%s$" % G, "div", "map", "val({a}.vec[j]) / val(rhs)", "val(rhs) != 0real", "T"),
    "dot": (r"InnerProduct<.*for%s$" % G, "dot", "fold", "sum(self.vec, rhs.vec, {n})", None, "Self"),
    "square_norm": (r"^impl.*Normfor%s$" % G, "square_norm", "fold", "sum(self.vec, self.vec, {n})", None, None),
    "almost_eq": (r"AlmostEqualfor%s$" % G, "almost_eq", "all", "close(self.vec[j], other.vec[j])", None, "Self"),
}
VLOOP = re.compile(r"\bfor\s+(\w+)\s+in\s+0\s*\.\.\s*(?:N|self\.vec\.len\(\)|vec\.len\(\))\s*\{")


def vector_body(kind, value, pre, arg, body):
    m = VLOOP.search(body)
    if not m or loops_in(body) != 1:
        raise ValueError("the loop has another shape")
    before, i = body[:m.start()], m.group(1)
    muts = mutables(before)
    if kind == "map":
        if len(muts) != 1:
            raise ValueError("other variables than the components")
        (v, e), = muts.items()
        rest = "%s[j] == self.vec[j]" % v if e == "self.vec" else "true"
        inv = ["forall|j: int| 0 <= j < N ==> if j < %s { val(#[trigger] %s[j]) == %s } else { %s }" % (i, v, value.format(a="self"), rest)]
    elif kind == "assign":
        inv = ["forall|j: int| 0 <= j < N ==> if j < %s { val(#[trigger] self.vec[j]) == %s } else { self.vec[j] == old(self).vec[j] }" % (i, value.format(a="old(self)"))]
    elif kind == "fold":
        if len(muts) != 1:
            raise ValueError("other variables than the sum")
        inv = ["val(%s) == %s" % (list(muts)[0], value.format(n=i + " as int"))]
    else:
        if muts:
            raise ValueError("the loop has a state")
        inv = ["forall|j: int| 0 <= j < %s ==> " % i + value.replace("close(", "close(#[trigger] ")]
    if pre:
        inv.append(pre)
    return before + "for %s in 0..N\n invariant %s,\n {" % (i, ",\n ".join(inv)) + body[m.end():]


def vector_parts(text):
    text = text[:text.find("mod tests")] if "mod tests" in text else text
    fs = functions(text)
    for n, (head, name, kind, value, pre, arg) in VECTORS.items():
        def get(n=n, head=head, name=name, kind=kind, value=value, pre=pre, arg=arg):
            _, _, ps, body = find(fs, head, name)
            other = "other" if kind == "all" else "rhs"
            if ps[:1] != ["self"] or len(ps) != (2 if arg else 1):
                raise ValueError("other parameters")
            if arg and ps[1] != other:
                value, pre = (x and re.sub(r"\b%s\b" % other, ps[1], x) for x in (value, pre))
                other = ps[1]
            body = re.sub(r",?\s*\bp\s*:\s*(std::marker::)?PhantomData\b", "", body)
            body = re.sub(r"let\s+p\s*=\s*(std::marker::)?PhantomData\s*;", "", body)
            body = re.sub(r"\bvec\s*,\s*p\s*,?\s*\}", "vec }", body)
            sig = "pub fn %s(%s%s)" % (n, "&mut self" if kind == "assign" else "self", ", %s: %s" % (other, arg) if arg else "")
            if kind == "map":
                post = " -> (res: Self)\n%s ensures forall|j: int| 0 <= j < N ==> val(#[trigger] res.vec[j]) == %s\n" % ("{}", value.format(a="self"))
            elif kind == "assign":
                post = "\n%s ensures forall|j: int| 0 <= j < N ==> val(#[trigger] final(self).vec[j]) == %s\n" % ("{}", value.format(a="old(self)"))
            elif kind == "fold":
                post = " -> (res: T)\n%s ensures val(res) == %s\n" % ("{}", value.format(n="N as int"))
            else:
                post = " -> (res: bool)\n%s ensures res == (forall|j: int| 0 <= j < N ==> %s)\n" % ("{}", value.replace("close(", "close(#[trigger] "))
            return sig + post.replace("{}", " requires %s\n" % pre if pre else "") + vector_body(kind, value, pre, arg, body)
        yield "GenericVector::" + n, get


PARTS = {"list": list_parts, "vector": vector_parts}


# --------------------------------------------------------------------------- running
def run_verus(kind, parts, path, timeout):
    """-> (state, detail, verified, obligations)"""
    src = open(os.path.join(VERIF, "verus", kind + ".rs.in")).read().replace("@FUNCTIONS@", "\n".join(parts)).replace("@OPS@", scalar_ops())
    with open(path, "w") as f:
        f.write(src)
    try:
        p = subprocess.run(["verus", "--output-json", "--time", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=timeout, cwd=os.path.dirname(path))
    except (OSError, subprocess.TimeoutExpired) as e:
        return "not run", str(e)[:200], 0, 0
    m = re.search(r"^\{.*^\}", p.stdout, re.S | re.M)
    try:
        r = json.loads(m.group(0))["verification-results"] if m else {}
    except (ValueError, KeyError):
        r = {}
    n, bad = r.get("verified", 0), r.get("errors", 0)
    if p.returncode == 0 and r.get("success") and bad == 0:
        return "proved", "", n, n
    if bad and re.search(r"(postcondition|invariant|precondition) not satisfied", p.stderr) \
            and not re.search(r"error(\[|: .*not supported|: cannot|: expected)", p.stderr):
        return "failed", p.stderr[-3000:], n, n + bad
    return "not extracted", "Verus does not take the extracted text: " + p.stderr[:400], 0, 0


def check(kind, build, timeout=100):
    """-> {'functions': {name: (state, detail)}, 'verified': n, 'obligations': n, 'seconds': s}
    a state is 'proved', 'failed', 'not extracted' or 'not run'"""
    t0 = time.time()
    fun = {}
    out = {"functions": fun, "verified": 0, "obligations": 0}
    parts = {}
    try:
        for n, get in PARTS[kind](strip(open(SRC[kind]).read())):
            try:
                parts[n] = get()
            except ValueError as e:
                fun[n] = ("not extracted", str(e))
    except (OSError, ValueError) as e:
        fun["all functions"] = ("not extracted", str(e))
        return out
    path = os.path.join(build, "verus_%s.rs" % kind)
    st, detail, ok, total = run_verus(kind, list(parts.values()), path, timeout)
    if st == "proved":
        for n in parts:
            fun[n] = (st, "")
        out["verified"], out["obligations"] = ok, total
    else:
        # function by function
        def one(n):
            return run_verus(kind, [parts[n]], path.replace(".rs", "_%s.rs" % re.sub(r"\W+", "_", n)), timeout)
        with cf.ThreadPoolExecutor(6) as ex:
            for n, (st, detail, ok, total) in zip(parts, ex.map(one, parts)):
                fun[n] = (st, detail)
                out["verified"] += ok
                out["obligations"] += total
    out["seconds"] = round(time.time() - t0, 2)
    return out


if __name__ == "__main__":
    import sys
    print(json.dumps(check(sys.argv[1], "/tmp"), indent=1))
