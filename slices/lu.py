#!/usr/bin/env python3
"""lu.py C07 [evidence.json]: the LU factorization along every path, for every size.

The number of paths through `lu` grows like a factorial, so the path-by-path contracts of
C07 follow a stated part of them for the larger sizes.  Here `lu` of M22 .. M66 is cut out of
/repo/src as it stands, loop invariants are woven in, and Verus discharges the same contract
with no bound on the paths.  What is changed in the text besides the annotations is listed
in `edit` and counted in the result.

It only ever adds to what the path-by-path contracts establish: where the text no longer has
the shape the annotations are written for, it says that the proof is not re-established, and
those contracts decide alone."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lemmas
from alllen import SRC, group, strip_comments

HEAD = """use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::cmp::Ordering;
use core::ops::{Add, Div, Mul, Neg, Sub};
verus! {
// ---- assumed of the scalar: exact real arithmetic
pub trait Float: Sized + Copy + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + Neg<Output = Self> + PartialEq + PartialOrd {
    spec fn val(self) -> real;
    fn zero() -> (r: Self) ensures r.val() == 0real;
    fn one() -> (r: Self) ensures r.val() == 1real;
    fn abs(self) -> (r: Self) ensures r.val() >= 0real, r.val() == self.val() || r.val() == 0real - self.val();
    fn recip(self) -> (r: Self) requires self.val() != 0real ensures r.val() * self.val() == 1real;
    // a positive literal
    fn positive() -> (r: Self) ensures r.val() > 0real;
}
pub open spec fn reals<T: Float>() -> bool {
    &&& T::obeys_add_spec() && T::obeys_sub_spec() && T::obeys_mul_spec() && T::obeys_div_spec() && T::obeys_neg_spec()
    &&& T::obeys_eq_spec() && T::obeys_partial_cmp_spec()
    &&& forall|a: T, b: T| #[trigger] a.add_req(b)
    &&& forall|a: T, b: T| #[trigger] a.sub_req(b)
    &&& forall|a: T, b: T| #[trigger] a.mul_req(b)
    &&& forall|a: T, b: T| #[trigger] a.div_req(b) == (b.val() != 0real)
    &&& forall|a: T| #[trigger] a.neg_req()
    &&& forall|a: T, b: T| (#[trigger] a.add_spec(b)).val() == a.val() + b.val()
    &&& forall|a: T, b: T| (#[trigger] a.sub_spec(b)).val() == a.val() - b.val()
    &&& forall|a: T, b: T| (#[trigger] a.mul_spec(b)).val() == a.val() * b.val()
    &&& forall|a: T, b: T| b.val() != 0real ==> (#[trigger] a.div_spec(b)).val() * b.val() == a.val()
    &&& forall|a: T| (#[trigger] a.neg_spec()).val() == 0real - a.val()
    &&& forall|a: T, b: T| #[trigger] a.eq_spec(&b) == (a.val() == b.val())
    &&& forall|a: T, b: T| (#[trigger] a.partial_cmp_spec(&b) == Some(Ordering::Greater)) == (a.val() > b.val())
    &&& forall|a: T, b: T| (#[trigger] a.partial_cmp_spec(&b) == Some(Ordering::Less)) == (a.val() < b.val())
}
// ---- matrix and vector: entries read and written (C03 and C09 prove this of the real ones)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct @M@<T>(core::marker::PhantomData<T>);
impl<T> Copy for @M@<T> {}
impl<T> Clone for @M@<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<T: Copy> @M@<T> {
    pub uninterp spec fn e(self, i: int, j: int) -> T;
    #[verifier::external_body]
    pub fn get(&self, i: usize, j: usize) -> (r: T) requires i < @N@, j < @N@ ensures r == self.e(i as int, j as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&mut self, i: usize, j: usize, x: T) requires i < @N@, j < @N@
        ensures forall|r: int, c: int| #[trigger] final(self).e(r, c) == if r == i && c == j { x } else { old(self).e(r, c) } { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct @V@<T>(core::marker::PhantomData<T>);
impl<T: Copy> @V@<T> {
    pub uninterp spec fn e(self, i: int) -> T;
    #[verifier::external_body]
    pub fn zeros() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: T) requires i < @N@ ensures r == self.e(i as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&mut self, i: usize, x: T) requires i < @N@
        ensures forall|r: int| #[trigger] final(self).e(r) == if r == i { x } else { old(self).e(r) } { unimplemented!() }
}
#[verifier::external_body]
pub fn refuse() ensures false { panic!() }
// ---- the definitions
pub open spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn f<T: Float>(l: @M@<T>, i: int, j: int) -> real { l.e(i, j).val() }
// sum of l[i][t] * l[t][j] over t < m
pub open spec fn part<T: Float>(l: @M@<T>, i: int, j: int, m: int) -> real decreases m {
    if m <= 0 { 0real } else { part(l, i, j, m - 1) + f(l, i, m - 1) * f(l, m - 1, j) }
}
// the row of the given matrix that stands in row i after the first k exchanges
pub open spec fn row(x: @V@<usize>, k: int, i: int) -> int decreases k {
    if k <= 0 { i }
    else if i == k - 1 { row(x, k - 1, x.e(k - 1) as int) }
    else if i == x.e(k - 1) { row(x, k - 1, k - 1) }
    else { row(x, k - 1, i) }
}
// 1 or -1: the parity of the first k exchanges
pub open spec fn sign(x: @V@<usize>, k: int) -> real decreases k {
    if k <= 0 { 1real } else if x.e(k - 1) != k - 1 { 0real - sign(x, k - 1) } else { sign(x, k - 1) }
}
// s times the first n diagonal entries
pub open spec fn diag<T: Float>(s: real, l: @M@<T>, n: int) -> real decreases n {
    if n <= 0 { s } else { diag(s, l, n - 1) * f(l, n - 1, n - 1) }
}
// after k columns, entry (i, j) of the product of the factors, the remaining block included;
// z: the columns that had nothing left to divide by and got the tiny pivot instead
pub open spec fn entry<T: Float>(l: @M@<T>, z: spec_fn(int) -> bool, tiny: real, k: int, i: int, j: int) -> real {
    part(l, i, j, min(min(i, j), k)) + (if j < i && j < k { f(l, i, j) * f(l, j, j) } else { f(l, i, j) })
        - (if i == j && z(i) { tiny } else { 0real })
}
pub open spec fn zs<T: Float>(l: @M@<T>, z: spec_fn(int) -> bool, tiny: real, k: int) -> bool {
    &&& forall|c: int, r: int| 0 <= c < k && c < r < @N@ && #[trigger] z(c) ==> #[trigger] f(l, r, c) == 0real
    &&& forall|c: int| 0 <= c < k && #[trigger] z(c) ==> f(l, c, c) == tiny
    &&& forall|c: int| #[trigger] z(c) ==> 0 <= c < k
    &&& forall|c: int| 0 <= c < k ==> #[trigger] f(l, c, c) != 0real
}
pub open spec fn factors<T: Float>(a: @M@<T>, x: @V@<usize>, l: @M@<T>, z: spec_fn(int) -> bool, tiny: real, k: int) -> bool {
    &&& forall|i: int, j: int| 0 <= i < @N@ && 0 <= j < @N@ ==> #[trigger] f(a, row(x, k, i), j) == entry(l, z, tiny, k, i, j)
    &&& forall|i: int| 0 <= i < k ==> i <= #[trigger] x.e(i) < @N@
    &&& zs(l, z, tiny, k)
}
pub open spec fn factored<T: Float>(a: @M@<T>, x: @V@<usize>, l: @M@<T>) -> bool {
    exists|z: spec_fn(int) -> bool, tiny: real| tiny > 0real && #[trigger] factors(a, x, l, z, tiny, @N@)
}
// ---- lemmas
proof fn part_same<T: Float>(l: @M@<T>, n: @M@<T>, i: int, j: int, ni: int, nj: int, m: int)
    requires forall|t: int| 0 <= t < m ==> #[trigger] f(l, i, t) == f(n, ni, t), forall|t: int| 0 <= t < m ==> #[trigger] f(l, t, j) == f(n, t, nj),
    ensures part(l, i, j, m) == part(n, ni, nj, m),
    decreases m,
{
    if m > 0 { part_same(l, n, i, j, ni, nj, m - 1); assert(f(l, i, m - 1) == f(n, ni, m - 1)); assert(f(l, m - 1, j) == f(n, m - 1, nj)); }
}
proof fn row_same(x: @V@<usize>, y: @V@<usize>, k: int, i: int)
    requires forall|t: int| 0 <= t < k ==> #[trigger] x.e(t) == y.e(t),
    ensures row(x, k, i) == row(y, k, i), sign(x, k) == sign(y, k),
    decreases k,
{
    if k > 0 { row_same(x, y, k - 1, i); row_same(x, y, k - 1, k - 1); row_same(x, y, k - 1, x.e(k - 1) as int); assert(x.e(k - 1) == y.e(k - 1)); }
}
proof fn chosen(v: real, a: real, t: real, b: real)
    requires t == v * a, a >= 0real,
    ensures t > b && b >= 0real ==> a != 0real, v > 0real && t <= 0real ==> a == 0real,
{
    assert(a == 0real ==> t == 0real) by(nonlinear_arith) requires t == v * a;
    assert(v > 0real && a > 0real ==> t > 0real) by(nonlinear_arith) requires t == v * a;
}
proof fn recip_pos(a: real, b: real)
    requires a * b == 1real, b > 0real,
    ensures a > 0real,
{
    assert(a > 0real) by(nonlinear_arith) requires a * b == 1real, b > 0real;
}
proof fn no_zero(a: real, b: real)
    requires a * b == 0real, b != 0real,
    ensures a == 0real,
{
    assert(a == 0real) by(nonlinear_arith) requires a * b == 0real, b != 0real;
}
// rows k and p exchanged: the factorization of the exchanged matrix
proof fn exchanged<T: Float>(a: @M@<T>, x: @V@<usize>, y: @V@<usize>, l: @M@<T>, n: @M@<T>, z: spec_fn(int) -> bool, tiny: real, k: int, p: int)
    requires
        0 <= k <= p < @N@, factors(a, x, l, z, tiny, k), y.e(k) == p, forall|t: int| 0 <= t < k ==> #[trigger] y.e(t) == x.e(t),
        forall|i: int, j: int| 0 <= i < @N@ && 0 <= j < @N@ ==> #[trigger] f(n, i, j) == f(l, if i == k { p } else if i == p { k } else { i }, j),
    ensures
        forall|i: int, j: int| 0 <= i < @N@ && 0 <= j < @N@ ==> #[trigger] f(a, row(y, k + 1, i), j) == entry(n, z, tiny, k, i, j),
        zs(n, z, tiny, k), forall|i: int| 0 <= i <= k ==> i <= #[trigger] y.e(i) < @N@,
{
    assert forall|i: int, j: int| 0 <= i < @N@ && 0 <= j < @N@ implies #[trigger] f(a, row(y, k + 1, i), j) == entry(n, z, tiny, k, i, j) by {
        let o = if i == k { p } else if i == p { k } else { i };
        row_same(x, y, k, o);
        assert(row(y, k + 1, i) == row(y, k, o));
        assert(f(a, row(x, k, o), j) == entry(l, z, tiny, k, o, j));
        part_same(n, l, i, j, o, j, min(min(i, j), k));
        assert(min(min(i, j), k) == min(min(o, j), k));
    }
    assert forall|c: int, r: int| 0 <= c < k && c < r < @N@ && #[trigger] z(c) implies #[trigger] f(n, r, c) == 0real by {
        let o = if r == k { p } else if r == p { k } else { r };
        assert(f(l, o, c) == 0real);
    }
    assert forall|c: int| 0 <= c < k implies #[trigger] f(n, c, c) != 0real by { assert(f(n, c, c) == f(l, c, c)); }
    assert forall|c: int| 0 <= c < k && #[trigger] z(c) implies f(n, c, c) == tiny by { assert(f(n, c, c) == f(l, c, c)); }
}
// a zero pivot replaced by the tiny one
proof fn replaced<T: Float>(a: @M@<T>, x: @V@<usize>, l: @M@<T>, n: @M@<T>, z: spec_fn(int) -> bool, tiny: real, k: int)
    requires
        0 <= k < @N@,
        forall|i: int, j: int| 0 <= i < @N@ && 0 <= j < @N@ ==> #[trigger] f(a, row(x, k + 1, i), j) == entry(l, z, tiny, k, i, j),
        zs(l, z, tiny, k), f(l, k, k) == 0real,
        forall|i: int, j: int| 0 <= i < @N@ && 0 <= j < @N@ ==> #[trigger] f(n, i, j) == if i == k && j == k { tiny } else { f(l, i, j) },
    ensures ({
        let y = |c: int| c == k || z(c);
        &&& forall|i: int, j: int| 0 <= i < @N@ && 0 <= j < @N@ ==> #[trigger] f(a, row(x, k + 1, i), j) == entry(n, y, tiny, k, i, j)
        &&& zs(n, z, tiny, k)
    }),
{
    let y = |c: int| c == k || z(c);
    assert forall|i: int, j: int| 0 <= i < @N@ && 0 <= j < @N@ implies #[trigger] f(a, row(x, k + 1, i), j) == entry(n, y, tiny, k, i, j) by {
        assert(f(a, row(x, k + 1, i), j) == entry(l, z, tiny, k, i, j));
        part_same(n, l, i, j, i, j, min(min(i, j), k));
        assert(!z(k));
    }
    assert forall|c: int, r: int| 0 <= c < k && c < r < @N@ && #[trigger] z(c) implies #[trigger] f(n, r, c) == 0real by { assert(f(l, r, c) == 0real); }
    assert forall|c: int| 0 <= c < k implies #[trigger] f(n, c, c) != 0real by { assert(f(l, c, c) != 0real); }
    assert forall|c: int| 0 <= c < k && #[trigger] z(c) implies f(n, c, c) == tiny by { assert(f(l, c, c) == tiny); }
}
// one column eliminated
proof fn eliminated<T: Float>(a: @M@<T>, x: @V@<usize>, l: @M@<T>, n: @M@<T>, z: spec_fn(int) -> bool, y: spec_fn(int) -> bool, tiny: real, k: int)
    requires
        0 <= k < @N@, tiny > 0real,
        forall|i: int, j: int| 0 <= i < @N@ && 0 <= j < @N@ ==> #[trigger] f(a, row(x, k + 1, i), j) == entry(l, y, tiny, k, i, j),
        forall|i: int| 0 <= i <= k ==> i <= #[trigger] x.e(i) < @N@,
        zs(l, z, tiny, k), forall|c: int| c != k ==> #[trigger] y(c) == z(c),
        f(l, k, k) != 0real, y(k) ==> f(l, k, k) == tiny && forall|r: int| k < r < @N@ ==> #[trigger] f(l, r, k) == 0real,
        forall|i: int, j: int| 0 <= i < @N@ && 0 <= j < @N@ && (i <= k || j < k) ==> #[trigger] f(n, i, j) == f(l, i, j),
        forall|i: int| k < i < @N@ ==> #[trigger] f(n, i, k) * f(l, k, k) == f(l, i, k),
        forall|i: int, j: int| k < i < @N@ && k < j < @N@ ==> #[trigger] f(n, i, j) == f(l, i, j) - f(n, i, k) * f(l, k, j),
    ensures factors(a, x, n, y, tiny, k + 1),
{
    assert forall|i: int, j: int| 0 <= i < @N@ && 0 <= j < @N@ implies #[trigger] f(a, row(x, k + 1, i), j) == entry(n, y, tiny, k + 1, i, j) by {
        assert(f(a, row(x, k + 1, i), j) == entry(l, y, tiny, k, i, j));
        let m = min(min(i, j), k);
        part_same(n, l, i, j, i, j, m);
        if i > k && j > k {
            assert(min(min(i, j), k + 1) == k + 1);
            assert(part(n, i, j, k + 1) == part(n, i, j, k) + f(n, i, k) * f(n, k, j));
            assert(f(n, k, j) == f(l, k, j));
        } else {
            assert(min(min(i, j), k + 1) == m);
            if i > k && j == k {
                assert(f(n, k, k) == f(l, k, k));
                assert(f(n, i, k) * f(l, k, k) == f(l, i, k));
            }
        }
    }
    assert forall|c: int, r: int| 0 <= c < k + 1 && c < r < @N@ && #[trigger] y(c) implies #[trigger] f(n, r, c) == 0real by {
        if c == k { assert(f(l, r, k) == 0real); no_zero(f(n, r, k), f(l, k, k)); } else { assert(z(c)); assert(f(l, r, c) == 0real); }
    }
    assert forall|c: int| 0 <= c < k + 1 implies #[trigger] f(n, c, c) != 0real by { assert(f(l, c, c) != 0real); }
    assert forall|c: int| 0 <= c < k + 1 && #[trigger] y(c) implies f(n, c, c) == tiny by { if c != k { assert(z(c)); } assert(f(l, c, c) == tiny); }
    assert forall|c: int| #[trigger] y(c) implies 0 <= c < k + 1 by { if c != k { assert(z(c)); } }
}
// ---- the code
impl<T: Float> @M@<T> {
"""
CONTRACT = """    requires reals::<T>(),
    ensures
        // exchanges in range, P * A = L * U (but for the tiny pivots put where a column had nothing left), det
        factored(*self, r.2, r.0),
        r.1.val() == diag(sign(r.2, @N@), r.0, @N@),
"""
TAIL = "\n}\nfn main() {}\n}\n"

# the loops of the function in the order they come in: header, invariant, before it, at the end of its body, after it
LOOPS = [
  (r"for (?P<i>\w+) in 0\.\.N", """reals::<T>(), big.val() >= 0real, lu == *self,
        forall|r_: int| 0 <= r_ < {i} ==> (#[trigger] vv.e(r_)).val() > 0real,""", "", "", ""),
  (r"for (?P<j>\w+) in 0\.\.N", """reals::<T>(), big.val() >= 0real, {i0} < @N@,""", "", "", ""),
  (r"for (?P<i>\w+) in 0\.\.N", """reals::<T>(), tiny.val() > 0real, factors(*self, indx, lu, z_, tiny.val(), {i} as int),
        forall|r_: int| {i} <= r_ < @N@ ==> (#[trigger] vv.e(r_)).val() > 0real, d.val() == sign(indx, {i} as int),""",
   """let ghost mut z_ = |c_: int| false;
    proof {
        assert forall|i: int, j: int| 0 <= i < @N@ && 0 <= j < @N@ implies #[trigger] f(*self, row(indx, 0, i), j) == entry(lu, z_, tiny.val(), 0, i, j) by {
            assert(row(indx, 0, i) == i);
            assert(part(lu, i, j, 0) == 0real);
        }
    }
    """, "proof { eliminated(*self, indx, l1_, lu, z0_, z_, tiny.val(), {i} as int); }\n", ""),
  (r"for (?P<i>\w+) in (?P<k>\w+)\.\.N", """reals::<T>(), {k} < @N@, {k} <= i_max < @N@, big.val() >= 0real,
        forall|r_: int| {k} <= r_ < @N@ ==> (#[trigger] vv.e(r_)).val() > 0real,
        big.val() > 0real ==> f(lu, i_max as int, {k} as int) != 0real,
        big.val() == 0real ==> i_max == {k} && forall|r_: int| {k} <= r_ < {i} ==> (#[trigger] lu.e(r_, {k} as int)).val() == 0real,""", "",
   "", ""),
  (r"for (?P<j>\w+) in 0\.\.N", """reals::<T>(), {k} < @N@, {k} < i_max < @N@,
        forall|r_: int, c_: int| 0 <= r_ < @N@ && 0 <= c_ < @N@ ==> (#[trigger] lu.e(r_, c_)).val()
            == f(l0_, if c_ < {j} && r_ == {k} {{ i_max as int }} else if c_ < {j} && r_ == i_max {{ {k} as int }} else {{ r_ }}, c_),""", "", "", ""),
  (r"for (?P<i>\w+) in \(?(?P<k>\w+) \+ 1\)?\.\.N", """reals::<T>(), {k} < @N@, f(l1_, {k} as int, {k} as int) != 0real,
        forall|r_: int, c_: int| 0 <= r_ < @N@ && 0 <= c_ < @N@ && (r_ <= {k} || c_ < {k} || r_ >= {i}) ==> (#[trigger] lu.e(r_, c_)).val() == f(l1_, r_, c_),
        forall|r_: int| {k} < r_ < {i} ==> (#[trigger] lu.e(r_, {k} as int)).val() * f(l1_, {k} as int, {k} as int) == f(l1_, r_, {k} as int),
        forall|r_: int, c_: int| {k} < r_ < {i} && {k} < c_ < @N@ ==> (#[trigger] lu.e(r_, c_)).val() == f(l1_, r_, c_) - f(lu, r_, {k} as int) * f(l1_, {k} as int, c_),""",
   "let ghost l1_ = lu;\n", "", ""),
  (r"for (?P<j>\w+) in \(?(?P<k>\w+) \+ 1\)?\.\.N", """reals::<T>(), {k} < {i0} < @N@,
        forall|r_: int, c_: int| 0 <= r_ < @N@ && 0 <= c_ < @N@ && !(r_ == {i0} && {k} <= c_ < {j}) ==> (#[trigger] lu.e(r_, c_)).val() == f(l2_, r_, c_),
        f(lu, {i0} as int, {k} as int) == f(l2_, {i0} as int, {k} as int),
        forall|c_: int| {k} < c_ < {j} ==> (#[trigger] lu.e({i0} as int, c_)).val() == f(l2_, {i0} as int, c_) - f(lu, {i0} as int, {k} as int) * f(l2_, {k} as int, c_),""",
   "let ghost l2_ = lu;\n", "", ""),
]

def cut(text, mat):
    """the inherent method lu of the matrix: signature and body"""
    for m in re.finditer(r"impl<T: Float> %s<T> \{" % mat, text):
        e = group(text, m.end() - 1)
        k = re.compile(r"pub fn lu\b[^{]*").search(text, m.end(), e)
        if k:
            b = group(text, k.end())
            return k.group(0).strip(), text[k.end():b]
    raise ValueError("no such function")

def access(body, done):
    """m[(i, j)] and v[i] written as calls"""
    n = 0
    def value(s):
        nonlocal n
        out, i = "", 0
        while True:
            m = re.compile(r"\b(\w+)\[").search(s, i)
            if not m:
                return out + s[i:]
            e = group(s, m.end() - 1)
            arg = s[m.end():e - 1].strip()
            if arg.startswith("(") and group(arg, 0) == len(arg):
                arg = arg[1:-1]
            n += 1
            out += s[i:m.start()] + "%s.get(%s)" % (m.group(1), value(arg))
            i = e
    out, i = "", 0
    for m in re.finditer(r"(?<=[{};])(\s*)(\w+)\[((?:[^\[\]])*)\] = ([^;]*);", body):
        arg = m.group(3).strip()
        if arg.startswith("(") and group(arg, 0) == len(arg):
            arg = arg[1:-1]
        n += 1
        out += value(body[i:m.start()]) + m.group(1) + "{ let x_ = %s; %s.put(%s, x_); }" % (value(m.group(4)), m.group(2), arg)
        i = m.end()
    out += value(body[i:])
    done.append("m[(i, j)], v[i] -> get and put calls (%d)" % n)
    return out

def weave(mat, canary=False):
    n = int(mat[1])
    sig, body = cut(open(os.path.join(SRC, "matrix%dx%d.rs" % (n, n))).read(), mat)
    body = strip_comments(body)
    done = []
    if re.sub(r"\s", "", sig) != "pubfnlu(&self)->(Self,T,V%d<usize>)" % n:
        raise ValueError("signature changed")
    sig = "pub fn lu(&self) -> (r: (Self, T, V%d<usize>))" % n
    body, k = re.subn(r"const N: usize = %d;" % n, "", body)
    if k != 1:
        raise ValueError("const N")
    lit = re.search(r"T::from\(([0-9.eE+-]+)\)\.unwrap\(\)", body)
    if not lit or not float(lit.group(1)) > 0:
        raise ValueError("no positive literal")
    body = body.replace(lit.group(0), "T::positive()")
    done.append("T::from(%s).unwrap() -> some positive scalar" % lit.group(1))
    body, k = re.subn(r'panic!\("[^"]*"\)', "refuse()", body)
    done.append("panic! -> a call that does not return (%d)" % k)
    body = body.replace("let mut vv = V%d::zeros();" % n, "let mut vv: V%d<T> = V%d::zeros();" % (n, n))
    # invariants, from the last loop to the first so that the positions stay
    pos, at, names = 0, [], []
    for h, inv, before, end, after in LOOPS:
        m = re.compile(h + r" \{").search(body, pos)
        first = re.compile(r"\b(for|while|loop)\b").search(body, pos)
        if not m or first.start() != m.start():
            raise ValueError("loop %d" % (len(at) + 1))
        at.append(m)
        pos = m.end()
    if re.compile(r"\b(for|while|loop)\b").search(body, pos):
        raise ValueError("more loops")
    g = [m.groupdict() for m in at]
    k = g[2]["i"]
    if any(x.get("k", k) != k for x in g[3:]):
        raise ValueError("loop variables")
    ins = []
    for q, (m, (h, inv, before, end, after)) in enumerate(zip(at, LOOPS)):
        d = dict(g[q])
        d["k"] = k
        d["i0"] = g[0]["i"] if q == 1 else g[5]["i"]
        d.setdefault("j", "")
        e = group(body, m.end() - 1)
        fill = lambda s: re.sub(r"\{(\w+)\}", lambda x: d[x.group(1)], s).replace("{{", "{").replace("}}", "}")
        ins.append((m.start(), m.start(), before))
        ins.append((m.end() - 1, m.end() - 1, "\n        invariant %s\n    " % fill(inv)))
        ins.append((e - 1, e - 1, fill(end)))
    # hints at the statements in between
    def near(pat, lo, hi, text, after=True):
        m = re.compile(pat).search(body, lo, hi)
        if not m:
            raise ValueError("no place for: " + pat)
        p = m.end() if after else m.start()
        ins.append((p, p, text))
        return m
    e = [group(body, m.end() - 1) for m in at]
    near(r"vv\[%s\] = big\.recip\(\);" % g[0]["i"], e[1], e[0], " proof { recip_pos(vv.e(%s as int).val(), big.val()); }" % g[0]["i"])
    i3 = g[3]["i"]
    near(r"let temp = [^;]*;", at[3].end(), e[3], """ proof { let a_ = f(lu, %s as int, %s as int); let v_ = vv.e(%s as int).val();
            chosen(v_, if a_ >= 0real { a_ } else { 0real - a_ }, temp.val(), big.val()); }""" % (i3, k, i3))
    ins.append((e[3], e[3], "\n            let ghost l0_ = lu; let ghost x0_ = indx;"))
    m = near(r"indx\[%s\] = i_max;" % k, e[4], at[5].start(), """
            proof {
                assert forall|r_: int, c_: int| 0 <= r_ < @N@ && 0 <= c_ < @N@ implies #[trigger] f(lu, r_, c_) == f(l0_, if r_ == K { i_max as int } else if r_ == i_max { K as int } else { r_ }, c_) by {}
                row_same(x0_, indx, K as int, 0);
                exchanged(*self, x0_, indx, l0_, lu, z_, tiny.val(), K as int, i_max as int);
            }
            let ghost z0_ = z_; let ghost lp_ = lu;""".replace("K", k))
    m = near(r"if [^{]*\{[^{}]*\}", m.end(), at[5].start(), """
            proof {
                if f(lp_, K as int, K as int) == 0real {
                    assert(big.val() == 0real);
                    z_ = |c: int| c == K || z0_(c);
                    replaced(*self, indx, lp_, lu, z0_, tiny.val(), K as int);
                    assert forall|r_: int| K < r_ < @N@ implies #[trigger] f(lu, r_, K as int) == 0real by { assert(f(lp_, r_, K as int) == f(l0_, r_, K as int)); }
                } else {
                    assert(!z0_(K as int));
                }
            }
            """.replace("K", k))
    near(r"let det = [^;]*;", e[2], len(body), """
        proof {
            reveal_with_fuel(diag, 8);
            assert(factors(*self, indx, lu, z_, tiny.val(), @N@));
            assert(factored(*self, indx, lu));
        }""")
    ins = [(p, o, t) for o, (p, _, t) in enumerate(ins)]
    for p, o, t in sorted(ins, key=lambda x: (x[0], x[1]), reverse=True):
        # text put in carries no [ ] accesses that `access` would take for the code's
        body = body[:p] + t.replace("#[trigger]", "#TRIG").replace("@N@", str(n)) + body[p:]
    body = access(body, done).replace("#TRIG", "#[trigger]")
    body = re.sub(r"\bN\b", str(n), body)
    c = CONTRACT.replace("ensures", "ensures false,", 1) if canary else CONTRACT
    text = HEAD + sig + "\n" + c + body + TAIL
    return text.replace("@M@", mat).replace("@V@", "V%d" % n).replace("@N@", str(n)), done

def verus(d, name, text):
    p = os.path.join(d, name + ".rs")
    open(p, "w").write(text)
    r = subprocess.run(["verus", p, "--output-json", "--rlimit", "60"], cwd=d, capture_output=True, text=True, timeout=200)
    return json.loads(r.stdout[r.stdout.index("{"):])["verification-results"], r

def prove(mat):
    t0 = time.time()
    out = {"function": mat + "::lu", "paths": "every path", "proved": False, "by": "verus (z3)"}
    d = tempfile.mkdtemp(prefix="lu")
    try:
        text, done = weave(mat)
        out["rewrites"] = done
        v, r = verus(d, mat, text)
        out["obligations_verified"], out["obligations_failed"] = v.get("verified", 0), v.get("errors", 0)
        out["proved"] = bool(v.get("success")) and v.get("verified", 0) > 0
        if not out["proved"]:
            e = [l for l in r.stderr.splitlines() if l.startswith("error")]
            out["why_not"] = (e or ["verus did not succeed"])[0][:300]
        elif verus(d, "canary", weave(mat, True)[0])[0].get("errors", 0) == 0:
            out["proved"], out["why_not"] = False, "the assumptions are contradictory"
    except Exception as e:
        out["why_not"] = "%s: %s" % (type(e).__name__, str(e)[:300])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out["ms"] = int(1000 * (time.time() - t0))
    return out

def main():
    ev = (sys.argv[2:] + [None])[0]
    if ev == "--text":
        print(weave(sys.argv[1])[0])
        return
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        lem = ex.submit(lemmas.check, "lu")
        res = list(ex.map(prove, ["M22", "M33", "M44", "M55", "M66"]))
    for r in res:
        print("%s, every path: %s" % (r["function"], "proved (%d obligations)" % r["obligations_verified"] if r["proved"]
              else "proof not re-established, the explored paths only (%s)" % r["why_not"]))
    lem = lem.result()
    lemmas.say(lem)
    if ev and os.path.exists(ev):
        d = json.load(open(ev))
        d["coverage"]["every_path"] = res
        d["coverage"]["lemmas"] = [lem]
        d["coverage"]["every_path_assumptions"] = [
            "the scalar is exact real arithmetic", "indexing reads and writes the entry named (proved of the real matrices and vectors in C03 and C09)",
            "the definitions in lemmas/lu.lean are those in slices/lu.py (integers there, natural numbers here)"] + ([] if lem["proved"] else [
            "a pivot replaced by the tiny one means a singular matrix; det(A) is the sign of the exchanges times the product of U's diagonal (not rechecked in this run)"])
        c = d["coverage"]
        if all(r["proved"] for r in res) and lem["proved"] and not c["undecided"] and not c["vacuous"] and c["obligations"] == c["discharged"] \
                and all(" lu: " in b for b in c["bounded"]) and not d["violations"]:
            d["level"] = "proof"
        json.dump(d, open(ev, "w"), indent=1)

if __name__ == "__main__":
    main()
