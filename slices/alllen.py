#!/usr/bin/env python3
"""alllen.py <property> [evidence.json]: the slice functions for slices of every length.

Cuts the functions named below out of /repo/src as they stand, weaves contracts, loop
invariants and proof hints into them, and gives each to Verus.  What is changed in the
text besides the added annotations is listed in REWRITES and counted in the result;
nothing is dropped but the derives of MaxMin.  The result goes into the evidence file.

It only ever adds to what the bounded contracts of the same functions establish: where
the text no longer has the shape the annotations are written for, it says that the
proof for all lengths is not re-established, and the bounded contracts decide alone."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(ROOT, "..", "repo", "src")

HEAD = """use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::cmp::Ordering;
use core::ops::{Add, Div, Mul, Sub};
verus! {
// ---- assumed of the scalar: the traits of num, and a linear order
pub trait Zero: Sized {
    spec fn zero_spec() -> Self;
    fn zero() -> (r: Self) ensures r == Self::zero_spec();
}
pub trait Num: Sized + Zero + PartialEq + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> {}
pub trait Signed: Sized {
    spec fn abs_spec(self) -> Self;
    fn abs(&self) -> (r: Self) ensures r == self.abs_spec();
}
pub trait Float: Sized + Copy + Num + PartialOrd + Div<Output = Self> {
    spec fn sqrt_spec(self) -> Self;
    fn sqrt(self) -> (r: Self) ensures r == self.sqrt_spec();
}
pub trait Sum: Sized {}
pub open spec fn lt<T: PartialOrd>(a: T, b: T) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Less) }
pub open spec fn gt<T: PartialOrd>(a: T, b: T) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Greater) }
pub open spec fn linear<T: PartialOrd>() -> bool {
    &&& T::obeys_partial_cmp_spec()
    &&& forall|a: T, b: T| #![trigger gt(a, b)] gt(a, b) == lt(b, a)
    &&& forall|a: T| !lt(a, a)
    &&& forall|a: T, b: T, c: T| #![trigger lt(a, b), lt(b, c)] lt(a, b) && lt(b, c) ==> lt(a, c)
    &&& forall|a: T, b: T, c: T| #![trigger lt(a, b), lt(b, c)] !lt(a, b) && !lt(b, c) ==> !lt(a, c)
}
pub open spec fn opp<T: Num>(a: T) -> T { T::zero_spec().sub_spec(a) }
pub open spec fn ordered<T: Num + PartialOrd>() -> bool {
    &&& linear::<T>()
    &&& T::obeys_sub_spec()
    &&& forall|a: T, b: T| #[trigger] a.sub_req(b)
    &&& forall|a: T, b: T| #![trigger opp(a), opp(b)] lt(a, b) == lt(opp(b), opp(a))
}
pub open spec fn mag<T: Num + PartialOrd>(a: T) -> T { if lt(a, T::zero_spec()) { opp(a) } else { a } }
// ---- the definitions
pub open spec fn first_max<T: PartialOrd>(s: Seq<T>, n: int, v: T, k: int) -> bool {
    &&& 0 <= k < n
    &&& v == s[k]
    &&& forall|i: int| 0 <= i < n ==> !lt(v, #[trigger] s[i])
    &&& forall|i: int| 0 <= i < k ==> lt(#[trigger] s[i], v)
}
pub open spec fn first_min<T: PartialOrd>(s: Seq<T>, n: int, v: T, k: int) -> bool {
    &&& 0 <= k < n
    &&& v == s[k]
    &&& forall|i: int| 0 <= i < n ==> !lt(#[trigger] s[i], v)
    &&& forall|i: int| 0 <= i < k ==> lt(v, #[trigger] s[i])
}
pub struct MaxMin<T> { pub max: (T, usize), pub min: (T, usize) }
pub open spec fn ring<T: Num>() -> bool {
    &&& T::obeys_add_spec() && T::obeys_mul_spec()
    &&& forall|a: T, b: T| #[trigger] a.add_req(b)
    &&& forall|a: T, b: T| #[trigger] a.mul_req(b)
    &&& forall|a: T, b: T| #[trigger] a.add_spec(b) == b.add_spec(a)
    &&& forall|a: T, b: T| #[trigger] a.mul_spec(b) == b.mul_spec(a)
}
pub open spec fn field<T: Float>() -> bool {
    &&& ring::<T>()
    &&& T::obeys_div_spec()
    &&& forall|a: T, b: T| #[trigger] a.div_req(b)
}
// the first n terms of f added up, from zero, in order
pub open spec fn sum<T: Num>(f: spec_fn(int) -> T, n: int) -> T decreases n {
    if n <= 0 { T::zero_spec() } else { sum(f, n - 1).add_spec(f(n - 1)) }
}
pub open spec fn abs_sum<T: Num + Signed>(s: Seq<T>, n: int) -> T { sum(|i: int| s[i].abs_spec(), n) }
pub open spec fn inner<T: Num>(s: Seq<T>, t: Seq<T>, n: int) -> T { sum(|i: int| s[i].mul_spec(t[i]), n) }
pub open spec fn euclid<T: Float>(s: Seq<T>) -> T { inner(s, s, s.len() as int).sqrt_spec() }
pub uninterp spec fn near<T>(a: T, b: T, e: T) -> bool;
// ---- contracts of the functions called
"""
C_MAX = """    requires slice.len() > 0, linear::<T>(),
    ensures first_max(slice@, slice@.len() as int, r.max.0, r.max.1 as int),
            first_min(slice@, slice@.len() as int, r.min.0, r.min.1 as int),
"""
T_MAX = """#[verifier::external_body]
pub fn find_max_min<T: core::cmp::PartialOrd + Copy>(slice: &[T]) -> (r: MaxMin<T>)
""" + C_MAX + "{ unimplemented!() }\n"
T_NEAR = """#[verifier::external_body]
pub fn nearly_equal<T: Float>(a: T, b: T, epsilon: T) -> (r: bool) ensures r == near(a, b, epsilon) { unimplemented!() }
"""
C_NORM2 = "    requires ring::<T>(),\n    ensures r == euclid(slice@),\n"
T_NORM2 = """#[verifier::external_body]
pub fn norm2<T: Float>(slice: &[T]) -> (r: T)
""" + C_NORM2 + "{ unimplemented!() }\n"
C_DOT = """    requires ring::<T>(),
    ensures slice1.len() == slice2.len(), r == inner(slice1@, slice2@, slice1.len() as int),
"""
T_DOT = """#[verifier::external_body]
pub fn dot<T: Num + Copy + Sum>(slice1: &[T], slice2: &[T]) -> (r: T)
""" + C_DOT + "{ unimplemented!() }\n"
T_REFUSE = """#[verifier::external_body]
pub fn refuse_unless(c: bool) ensures c { if !c { panic!() } }
"""
ASSERT = ("rewrite", "assert!(c) -> a call that returns only if c", r"\bassert!\(", "refuse_unless(")
T_DQ = T_NEAR + """// dual quaternions and their accessors (C24 and C12 prove this of the real ones)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct DualQuaternion<T>(core::marker::PhantomData<T>);
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Quaternion<T>(core::marker::PhantomData<T>);
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct V3<T>(core::marker::PhantomData<T>);
impl<T: Copy> DualQuaternion<T> {
    pub uninterp spec fn c(self, i: int) -> T;
    #[verifier::external_body]
    pub fn real(&self) -> (r: Quaternion<T>) ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.c(i) == self.c(i) { unimplemented!() }
    #[verifier::external_body]
    pub fn dual(&self) -> (r: Quaternion<T>) ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.c(i) == self.c(4 + i) { unimplemented!() }
}
impl<T: Copy> Quaternion<T> {
    pub uninterp spec fn c(self, i: int) -> T;
    #[verifier::external_body]
    pub fn real(&self) -> (r: T) ensures r == self.c(0) { unimplemented!() }
    #[verifier::external_body]
    pub fn imag(&self) -> (r: V3<T>) ensures forall|i: int| 0 <= i < 3 ==> #[trigger] r.c(i) == self.c(1 + i) { unimplemented!() }
}
impl<T: Copy> V3<T> {
    pub uninterp spec fn c(self, i: int) -> T;
    #[verifier::external_body]
    pub fn at(&self, i: usize) -> (r: T) requires i < 3 ensures r == self.c(i as int) { unimplemented!() }
}
"""
FUNS = {
  "compare_dual_quaternions": dict(file="utils.rs", ret="bool", callees=T_DQ, contract="""    ensures r == forall|i: int| 0 <= i < 8 ==> near(#[trigger] a.c(i), b.c(i), epsilon),
""", edits=[("rewrite", "v[i] -> v.at(i)", r"\[(\d)\]", r".at(\1)"),
    ("annotate", "hint", r"^\{", """{
    proof {
        let p = |i: int| near(a.c(i), b.c(i), epsilon);
        assert((forall|i: int| 0 <= i < 8 ==> near(#[trigger] a.c(i), b.c(i), epsilon))
            == (p(0) && p(1) && p(2) && p(3) && p(4) && p(5) && p(6) && p(7))) by {
            assert forall|i: int| 0 <= i < 8 && p(0) && p(1) && p(2) && p(3) && p(4) && p(5) && p(6) && p(7) implies near(#[trigger] a.c(i), b.c(i), epsilon) by {
                assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7);
            }
            let q = forall|i: int| 0 <= i < 8 ==> near(#[trigger] a.c(i), b.c(i), epsilon);
            assert(q ==> near(a.c(0), b.c(0), epsilon) && near(a.c(1), b.c(1), epsilon) && near(a.c(2), b.c(2), epsilon) && near(a.c(3), b.c(3), epsilon)
                && near(a.c(4), b.c(4), epsilon) && near(a.c(5), b.c(5), epsilon) && near(a.c(6), b.c(6), epsilon) && near(a.c(7), b.c(7), epsilon));
        }
    }""")]),
  "norm_l": dict(file="slices_methods.rs", ret="T", callees="", contract="""    requires ring::<T>(),
    ensures r == abs_sum(slice@, slice.len() as int),
""", edits=[], loop="ring::<T>(), {acc} == abs_sum(slice@, it.index()),"),
  "norm2": dict(file="slices_methods.rs", ret="T", callees="", contract=C_NORM2, edits=[],
    loop="ring::<T>(), {acc} == inner(slice@, slice@, it.index()),"),
  "dot": dict(file="slices_methods.rs", ret="T", callees=T_REFUSE, contract=C_DOT, edits=[ASSERT],
    loop="ring::<T>(), {acc} == inner(slice1@, slice2@, it.index()),"),
  "project_x_over_y": dict(file="slices_methods.rs", ret="T", callees=T_DOT, contract="""    requires field::<T>(),
    ensures x.len() == y.len(), r == inner(x@, y@, x.len() as int).div_spec(inner(y@, y@, y.len() as int)),
""", edits=[]),
  "normalize": dict(file="slices_methods.rs", ret="", callees=T_NORM2, contract="""    requires field::<T>(),
    ensures final(slice)@.len() == old(slice)@.len(),
            forall|i: int| 0 <= i < old(slice)@.len() ==> #[trigger] final(slice)@[i] == old(slice)@[i].div_spec(euclid(old(slice)@)),
""", edits=[], loop="""field::<T>(), n == euclid(old(slice)@), it.seq().len() == old(slice)@.len(),
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == old(slice)@[i],
            forall|i: int| 0 <= i < it.index() ==> *final(#[trigger] it.seq()[i]) == old(slice)@[i].div_spec(n),"""),
  "compare_vecs": dict(file="utils.rs", ret="bool", callees=T_NEAR, contract="""    ensures r == forall|i: int| 0 <= i < v1.len() && i < v2.len() ==> near(#[trigger] v1[i], v2[i], epsilon),
""", edits=[], loop="{acc} == forall|i: int| 0 <= i < it.index() ==> near(#[trigger] v1[i], v2[i], epsilon),"),
  "find_max_min": dict(file="slices_methods.rs", ret="MaxMin<T>", callees="", contract=C_MAX, edits=[
    ("rewrite", "X.iter().enumerate() -> (0..X.len()).zip(X.iter())",
     r"(\w+)\.iter\(\)\.enumerate\(\)", r"(0..\1.len()).zip(\1.iter())"),
    ("annotate", "loop invariant and hints", r"for \((\w+), (\w+)\) in ([^{]+?) \{", r"""for (\1, \2) in it: \3
        invariant slice@.len() > 0, linear::<T>(),
            first_max(slice@, it.index() + 1, *max, max_pos as int),
            first_min(slice@, it.index() + 1, *min, min_pos as int),
    {
        assert(\1 == it.index() + 1);
        assert(*\2 == slice@[\1 as int]);
        assert(lt(\2, min) == lt(*\2, *min));
        assert(gt(\2, max) == gt(*\2, *max));"""),
  ]),
  "norm_inf": dict(file="slices_methods.rs", ret="T", callees=T_MAX, contract="""    requires slice.len() > 0, ordered::<T>(),
    ensures exists|i: int| 0 <= i < slice.len() && r == mag(#[trigger] slice[i]),
            forall|i: int| 0 <= i < slice.len() ==> !lt(r, mag(#[trigger] slice[i])),
""", edits=[
    ("annotate", "contract of the closure", r"let abs = \|x: T\| (.*?);\n", r"let abs = |x: T| -> (r: T) requires ordered::<T>() ensures r == mag(x) { \1 };\n"),
    ("annotate", "hints", r"(let \(max, min\) = .*?;\n)", r"""\1    proof {
        let (hi, lo) = (max_min.max.0, max_min.min.0);
        assert forall|i: int| 0 <= i < slice.len() implies !lt(mag(hi), mag(#[trigger] slice[i])) || !lt(mag(lo), mag(slice[i])) by {
            let x = slice[i];
            assert(!lt(hi, x) && !lt(x, lo));
            assert(lt(hi, T::zero_spec()) == lt(hi, T::zero_spec()));
            assert(lt(x, T::zero_spec()) == lt(x, T::zero_spec()));
            assert(lt(lo, x) == lt(opp(x), opp(lo)));
            assert(lt(x, lo) == lt(opp(lo), opp(x)));
        };
        assert(gt(max, min) == lt(min, max));
    }
"""),
  ]),
  "check_elements": dict(file="slices_methods.rs", ret="bool", callees=T_NEAR, contract="""    ensures r == exists|i: int| 0 <= i < v.len() && near(#[trigger] v[i], T::zero_spec(), tol),
""", edits=[
    ("rewrite", "a |= b; -> a = a | b; written a = { let t = b; a || t };", r"(\w+) \|= ([^;]+);", r"\1 = { let t_ = \2; \1 || t_ };"),
    ("annotate", "loop invariant", r"for (\w+) in ([^{]+?) \{", r"""for \1 in it: \2
        invariant result == exists|i: int| 0 <= i < it.index() && near(#[trigger] v[i], T::zero_spec(), tol),
    {"""),
  ]),
}
PROPS = {"C11": ["find_max_min", "norm_inf", "norm_l", "norm2", "dot", "normalize", "project_x_over_y"],
         "C28": ["check_elements", "compare_vecs", "compare_dual_quaternions"]}

def group(s, i):
    """index after the bracket that closes the one at i"""
    d = 0
    for j in range(i, len(s)):
        d += (s[j] in "([{") - (s[j] in ")]}")
        if d == 0:
            return j + 1
    raise ValueError("unbalanced")

def closure(c):
    """parameters and body of a closure"""
    m = re.match(r"\s*\|(.*?)\|\s*(.*)$", c, re.S)
    if not m:
        raise ValueError("not a closure: " + c[:40])
    d, ps, cur = 0, [], ""
    for ch in m.group(1) + ",":
        d += (ch in "([") - (ch in ")]")
        if ch == "," and d == 0:
            ps.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return [p for p in ps if p], m.group(2).strip()

def bind(p, e):
    """let p = e; written without reference patterns"""
    if re.fullmatch(r"\w+", p):
        return "let %s = %s; " % (p, e)
    if re.fullmatch(r"&\s*\w+", p):
        return "let %s = *%s; " % (p[1:].strip(), e)
    m = re.fullmatch(r"\(\s*(&?)\s*(\w+)\s*,\s*(&?)\s*(\w+)\s*\)", p)
    if m:
        a, b = m.group(2), m.group(4)
        return "let (%s, %s) = %s; " % (a, b, e) + "".join("let %s = *%s; " % (x, x) for r, x in ((m.group(1), a), (m.group(3), b)) if r)
    raise ValueError("pattern " + p)

def unchain(body, inv, done):
    """one iterator chain written as the loop it stands for, or the invariant put on the loop there is"""
    m = re.search(r"\bfor (.+?) in ([^{]+?) \{", body)
    if m:
        a = re.search(r"let mut (\w+)(?:: \w+)? = ", body[:m.start()])
        e = group(body, m.end() - 1)
        return (body[:m.start()] + "for e_ in it: %s\n        invariant %s\n    { %s" % (m.group(2), inv.replace("{acc}", a.group(1) if a else "acc_"), bind(m.group(1).strip(), "e_"))
                + body[m.end():e] + body[e:])
    m = re.search(r"\.(map|sum|fold|all|for_each)(?:::<\w+>)?\(", body)
    if not m:
        raise ValueError("no loop")
    st = max(body.rfind(c, 0, m.start()) for c in "{;=") + 1
    src, pos = body[st:m.start()].strip(), m.start()
    if src.startswith("return "):
        src, st = src[7:], body.index("return ", st) + 7
    pre, item, names = "", "e_", []
    while True:
        m = re.compile(r"\s*\.(\w+)(?:::<\w+>)?\(").match(body, pos)
        if not m:
            raise ValueError("chain")
        op, end = m.group(1), group(body, m.end() - 1)
        arg = body[m.end():end - 1].strip()
        pos = end
        names.append(op)
        if op == "map":
            ps, b = closure(arg)
            pre += bind(ps[0], item) + "let e%d_ = %s; " % (len(names), b)
            item = "e%d_" % len(names)
        elif op == "sum":
            init, acc, step = "T::zero()", "acc_", "acc_ = acc_ + %s; " % item
            break
        elif op == "fold":
            init, c = re.match(r"(.*?),\s*(\|.*)$", arg, re.S).groups()
            ps, b = closure(c)
            acc, step = ps[0], bind(ps[1], item) + "%s = %s; " % (ps[0], b)
            break
        elif op == "all":
            ps, b = closure(arg)
            init, acc, step = "true", "acc_", bind(ps[0], item) + "if !(%s) { acc_ = false; } " % b
            break
        elif op == "for_each":
            ps, b = closure(arg)
            init, acc, step = "", "acc_", bind(ps[0], item) + b
            break
        else:
            raise ValueError("chain: " + op)
    done.append("X.%s(..) -> the loop over X it stands for (a sum starts at zero and adds in order; all() without its early exit)" % ".".join(names))
    loop = "for e_ in it: %s\n        invariant %s\n    { %s%s }" % (src, inv.replace("{acc}", acc), pre, step)
    if init:
        loop = "({ let mut %s = %s; %s %s })" % (acc, init, loop, acc)
    return body[:st] + " " + loop + body[pos:]


def cut(text, name):
    m = re.search(r"pub fn %s\b" % name, text)
    if not m:
        raise ValueError("no such function")
    i = text.index("{", m.start())
    d, j = 0, i
    while True:
        d += {"{": 1, "}": -1}.get(text[j], 0)
        j += 1
        if d == 0:
            return text[m.start():i], text[i:j]

def strip_comments(s):
    return re.sub(r"//[^\n]*", "", s)

def weave(name, canary=False):
    f = FUNS[name]
    sig, body = cut(open(os.path.join(SRC, f["file"])).read(), name)
    body = strip_comments(body)
    if f["ret"] and ("->" not in sig or f["ret"] not in sig.split("->")[1]):
        raise ValueError("signature changed")
    if f["ret"]:
        sig = sig.replace("-> " + f["ret"], "-> (r: %s)" % f["ret"])
    sig = sig.replace("core::iter::Sum", "Sum")
    done = []
    if "loop" in f:
        body = unchain(body, f["loop"], done)
    for kind, what, pat, rep in f["edits"]:
        body, n = re.subn(pat, rep, body, flags=re.S)
        if n == 0 and kind == "annotate":
            raise ValueError("no place for: " + what)
        if kind == "rewrite" and n:
            done.append("%s (%d)" % (what, n))
    c = f["contract"].replace("ensures", "ensures false,", 1) if canary else f["contract"]
    return HEAD + f["callees"] + sig + "\n" + c + body + "\nfn main() {}\n}\n", done

def verus(d, name, text):
    p = os.path.join(d, name + ".rs")
    open(p, "w").write(text)
    r = subprocess.run(["verus", p, "--output-json", "--rlimit", "60"], cwd=d, capture_output=True, text=True, timeout=120)
    return json.loads(r.stdout[r.stdout.index("{"):])["verification-results"], r

def prove(name):
    t0 = time.time()
    out = {"function": FUNS[name]["file"][:-3] + "::" + name, "length": "every component" if name == "compare_dual_quaternions" else "every length", "proved": False, "by": "verus (z3)"}
    d = tempfile.mkdtemp(prefix="alllen")
    try:
        text, done = weave(name)
        out["rewrites"] = done
        v, r = verus(d, name, text)
        out["obligations_verified"], out["obligations_failed"] = v.get("verified", 0), v.get("errors", 0)
        out["proved"] = bool(v.get("success")) and v.get("verified", 0) > 0
        if not out["proved"]:
            e = [l for l in r.stderr.splitlines() if l.startswith("error")]
            out["why_not"] = (e or ["verus did not succeed"])[0][:300]
        elif verus(d, "canary", weave(name, True)[0])[0].get("errors", 0) == 0:
            out["proved"], out["why_not"] = False, "the assumptions are contradictory"
    except Exception as e:
        out["why_not"] = "%s: %s" % (type(e).__name__, str(e)[:300])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out["ms"] = int(1000 * (time.time() - t0))
    return out

def main():
    prop, ev = sys.argv[1], (sys.argv[2:] + [None])[0]
    if ev == "--text":
        print(weave(prop)[0])
        return
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(prove, PROPS[prop]))
    for r in res:
        print("%s, %s: %s" % (r["function"], r["length"], "proved (%d obligations)" % r["obligations_verified"] if r["proved"]
              else "proof not re-established, bounded lengths only (%s)" % r["why_not"]))
    if ev and os.path.exists(ev):
        d = json.load(open(ev))
        d["coverage"]["every_length"] = res
        d["coverage"]["every_length_assumptions"] = [
            "the scalar is linearly ordered and negation reverses the order; Zero and Num are stand-ins with one constant and total operations",
            "vstd's contracts for slice, range, zip and skip iterators", "addition and multiplication commute; sqrt, abs, sum are the scalar's own",
            "contracts of callees (find_max_min, norm2, dot proved here; nearly_equal a function of its arguments)"]
        c = d["coverage"]
        if all(r["proved"] for r in res) and not c["undecided"] and not c["vacuous"] \
                and c["obligations"] == c["discharged"] and all("length" in b or "longer slices" in b for b in c["bounded"]) and not d["violations"]:
            d["level"] = "proof"
        json.dump(d, open(ev, "w"), indent=1)

if __name__ == "__main__":
    main()
