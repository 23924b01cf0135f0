/- The parametrisations behind the contracts: a contract about every rotation is stated about the matrix of a unit
   quaternion, about axis and angle, or about three angles; one about every rigid motion about a rotation and a
   translation, or a screw.  Here is what makes that every one of them.  The definitions are those of
   engine/src/base.rs and bin/{trans,dualq}.rs. -/
import Mathlib.Tactic.Ring
import Mathlib.Tactic.LinearCombination
import Mathlib.Tactic.FieldSimp
import Mathlib.Analysis.Real.Sqrt
import Mathlib.Analysis.SpecialFunctions.Complex.Arg
import Mathlib.Analysis.SpecialFunctions.Trigonometric.Inverse
import Mathlib.LinearAlgebra.Matrix.Determinant.Basic
import Mathlib.LinearAlgebra.Matrix.Notation
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
set_option linter.unusedVariables false
set_option linter.unusedSimpArgs false

open Real

abbrev M3 := Matrix (Fin 3) (Fin 3) ℝ

def Rotation (R : M3) : Prop := R.transpose * R = 1 ∧ R.det = 1

/-- Hamilton product -/
def ham (p q : Fin 4 → ℝ) : Fin 4 → ℝ :=
  ![p 0 * q 0 - p 1 * q 1 - p 2 * q 2 - p 3 * q 3, p 0 * q 1 + p 1 * q 0 + p 2 * q 3 - p 3 * q 2,
    p 0 * q 2 - p 1 * q 3 + p 2 * q 0 + p 3 * q 1, p 0 * q 3 + p 1 * q 2 - p 2 * q 1 + p 3 * q 0]
def conj (q : Fin 4 → ℝ) : Fin 4 → ℝ := ![q 0, -q 1, -q 2, -q 3]
def imag (v : Fin 3 → ℝ) : Fin 4 → ℝ := ![0, v 0, v 1, v 2]
def Unit4 (q : Fin 4 → ℝ) : Prop := q 0 ^ 2 + q 1 ^ 2 + q 2 ^ 2 + q 3 ^ 2 = 1
def Unit3 (u : Fin 3 → ℝ) : Prop := u 0 ^ 2 + u 1 ^ 2 + u 2 ^ 2 = 1
/-- column j: q e_j q* -/
def qmat (q : Fin 4 → ℝ) : M3 := fun i j => ham (ham q (imag (fun k => if k = j then 1 else 0))) (conj q) i.succ

theorem qmat_eq (q : Fin 4 → ℝ) : qmat q =
    !![q 0 ^ 2 + q 1 ^ 2 - q 2 ^ 2 - q 3 ^ 2, 2 * (q 1 * q 2 - q 0 * q 3), 2 * (q 1 * q 3 + q 0 * q 2);
       2 * (q 1 * q 2 + q 0 * q 3), q 0 ^ 2 - q 1 ^ 2 + q 2 ^ 2 - q 3 ^ 2, 2 * (q 2 * q 3 - q 0 * q 1);
       2 * (q 1 * q 3 - q 0 * q 2), 2 * (q 2 * q 3 + q 0 * q 1), q 0 ^ 2 - q 1 ^ 2 - q 2 ^ 2 + q 3 ^ 2] := by
  ext i j
  fin_cases i <;> fin_cases j <;> simp [qmat, ham, conj, imag] <;> ring

/-- the entries of a rotation: orthonormal rows and columns, and each its own cofactor -/
structure Entries (a b c d e f g h i : ℝ) : Prop where
  r1 : a ^ 2 + b ^ 2 + c ^ 2 = 1
  r2 : d ^ 2 + e ^ 2 + f ^ 2 = 1
  r3 : g ^ 2 + h ^ 2 + i ^ 2 = 1
  c1 : a ^ 2 + d ^ 2 + g ^ 2 = 1
  c2 : b ^ 2 + e ^ 2 + h ^ 2 = 1
  c3 : c ^ 2 + f ^ 2 + i ^ 2 = 1
  k1 : a = e * i - f * h
  k2 : b = f * g - d * i
  k3 : c = d * h - e * g
  k4 : d = c * h - b * i
  k5 : e = a * i - c * g
  k6 : f = b * g - a * h
  k7 : g = b * f - c * e
  k8 : h = c * d - a * f
  k9 : i = a * e - b * d

theorem entries {R : M3} (hR : Rotation R) :
    Entries (R 0 0) (R 0 1) (R 0 2) (R 1 0) (R 1 1) (R 1 2) (R 2 0) (R 2 1) (R 2 2) := by
  obtain ⟨h1, hd⟩ := hR
  have h2 : R * R.transpose = 1 := mul_eq_one_comm.mp h1
  have ha : R.adjugate = R.transpose := by
    have : R * R.adjugate = 1 := by rw [Matrix.mul_adjugate, hd, one_smul]
    calc R.adjugate = R.transpose * R * R.adjugate := by rw [h1, one_mul]
      _ = R.transpose := by rw [Matrix.mul_assoc, this, mul_one]
  have col := fun i j => congrFun (congrFun h1 i) j
  have rw' := fun i j => congrFun (congrFun h2 i) j
  have ad := fun i j => congrFun (congrFun ha i) j
  simp only [Matrix.mul_apply, Matrix.transpose_apply, Fin.sum_univ_three] at col rw'
  simp only [Matrix.adjugate_fin_three, Matrix.transpose_apply] at ad
  have a00 := ad 0 0; have a01 := ad 0 1; have a02 := ad 0 2
  have a10 := ad 1 0; have a11 := ad 1 1; have a12 := ad 1 2
  have a20 := ad 2 0; have a21 := ad 2 1; have a22 := ad 2 2
  have x0 := col 0 0; have x1 := col 1 1; have x2 := col 2 2
  have y0 := rw' 0 0; have y1 := rw' 1 1; have y2 := rw' 2 2
  simp at a00 a01 a02 a10 a11 a12 a20 a21 a22 x0 x1 x2 y0 y1 y2
  constructor <;> linarith

/-- the case of a positive 1 + trace -/
theorem quat_pos {a b c d e f g h i : ℝ} (E : Entries a b c d e f g h i) (hw : 0 < 1 + a + e + i) :
    ∃ q, Unit4 q ∧ qmat q = !![a, b, c; d, e, f; g, h, i] := by
  obtain ⟨r1, r2, r3, c1, c2, c3, k1, k2, k3, k4, k5, k6, k7, k8, k9⟩ := E
  set w := 1 + a + e + i with hwd
  have hs := Real.sq_sqrt hw.le
  have hs0 : 0 < √w := Real.sqrt_pos.mpr hw
  set s := √w with hsd
  have K1 : (h - f) ^ 2 = w * (1 + a - e - i) := by rw [hwd]; grind
  have K2 : (c - g) ^ 2 = w * (1 + e - a - i) := by rw [hwd]; grind
  have K3 : (d - b) ^ 2 = w * (1 + i - a - e) := by rw [hwd]; grind
  have K4 : (h - f) * (c - g) = w * (b + d) := by rw [hwd]; grind
  have K5 : (h - f) * (d - b) = w * (c + g) := by rw [hwd]; grind
  have K6 : (c - g) * (d - b) = w * (f + h) := by rw [hwd]; grind
  have q0 : (s / 2) ^ 2 = w / 4 := by rw [div_pow, hs]; norm_num
  have cross : ∀ x y : ℝ, x / (2 * s) * (y / (2 * s)) = x * y / (4 * w) := by
    intro x y; rw [div_mul_div_comm, ← hs]; ring_nf
  have half : ∀ x : ℝ, s / 2 * (x / (2 * s)) = x / 4 := by intro x; field_simp; ring
  have Q1 : (h - f) / (2 * s) * ((h - f) / (2 * s)) = (1 + a - e - i) / 4 := by rw [cross, ← pow_two, K1]; field_simp
  have Q2 : (c - g) / (2 * s) * ((c - g) / (2 * s)) = (1 + e - a - i) / 4 := by rw [cross, ← pow_two, K2]; field_simp
  have Q3 : (d - b) / (2 * s) * ((d - b) / (2 * s)) = (1 + i - a - e) / 4 := by rw [cross, ← pow_two, K3]; field_simp
  have Q4 : (h - f) / (2 * s) * ((c - g) / (2 * s)) = (b + d) / 4 := by rw [cross, K4]; field_simp
  have Q5 : (h - f) / (2 * s) * ((d - b) / (2 * s)) = (c + g) / 4 := by rw [cross, K5]; field_simp
  have Q6 : (c - g) / (2 * s) * ((d - b) / (2 * s)) = (f + h) / 4 := by rw [cross, K6]; field_simp
  have H1 := half (h - f)
  have H2 := half (c - g)
  have H3 := half (d - b)
  generalize (h - f) / (2 * s) = q1 at *
  generalize (c - g) / (2 * s) = q2 at *
  generalize (d - b) / (2 * s) = q3 at *
  generalize s / 2 = p at *
  refine ⟨![p, q1, q2, q3], ?_, ?_⟩
  · simp [Unit4]; linarith
  · rw [qmat_eq]
    ext x y
    fin_cases x <;> fin_cases y <;> simp <;> linarith

/-- every rotation matrix is the matrix of a unit quaternion -/
theorem rotation_is_quaternion {R : M3} (hR : Rotation R) : ∃ q, Unit4 q ∧ qmat q = R := by
  have E := entries hR
  have form : R = !![R 0 0, R 0 1, R 0 2; R 1 0, R 1 1, R 1 2; R 2 0, R 2 1, R 2 2] := by
    ext x y; fin_cases x <;> fin_cases y <;> rfl
  generalize R 0 0 = a at *; generalize R 0 1 = b at *; generalize R 0 2 = c at *
  generalize R 1 0 = d at *; generalize R 1 1 = e at *; generalize R 1 2 = f at *
  generalize R 2 0 = g at *; generalize R 2 1 = h at *; generalize R 2 2 = i at *
  obtain ⟨r1, r2, r3, c1, c2, c3, k1, k2, k3, k4, k5, k6, k7, k8, k9⟩ := id E
  -- one of the four is positive: they add up to 4
  by_cases h0 : 0 < 1 + a + e + i
  · obtain ⟨q, hq, hm⟩ := quat_pos E h0
    exact ⟨q, hq, by rw [hm, form]⟩
  -- turned by a half-turn about an axis first
  by_cases h1 : 0 < 1 + a - e - i
  · have F : Entries a (-b) (-c) d (-e) (-f) g (-h) (-i) := by constructor <;> linarith
    obtain ⟨q, hq, hm⟩ := quat_pos F (by linarith)
    refine ⟨![-q 1, q 0, q 3, -q 2], ?_, ?_⟩
    · simp [Unit4] at *; linarith
    · rw [form, qmat_eq]; rw [qmat_eq] at hm
      have m := fun x y => congrFun (congrFun hm x) y
      have m00 := m 0 0; have m01 := m 0 1; have m02 := m 0 2; have m10 := m 1 0; have m11 := m 1 1
      have m12 := m 1 2; have m20 := m 2 0; have m21 := m 2 1; have m22 := m 2 2
      simp at m00 m01 m02 m10 m11 m12 m20 m21 m22
      ext x y
      fin_cases x <;> fin_cases y <;> simp
      · linear_combination m00
      · linear_combination -m01
      · linear_combination -m02
      · linear_combination m10
      · linear_combination -m11
      · linear_combination -m12
      · linear_combination m20
      · linear_combination -m21
      · linear_combination -m22
  by_cases h2 : 0 < 1 + e - a - i
  · have F : Entries (-a) b (-c) (-d) e (-f) (-g) h (-i) := by constructor <;> linarith
    obtain ⟨q, hq, hm⟩ := quat_pos F (by linarith)
    refine ⟨![-q 2, -q 3, q 0, q 1], ?_, ?_⟩
    · simp [Unit4] at *; linarith
    · rw [form, qmat_eq]; rw [qmat_eq] at hm
      have m := fun x y => congrFun (congrFun hm x) y
      have m00 := m 0 0; have m01 := m 0 1; have m02 := m 0 2; have m10 := m 1 0; have m11 := m 1 1
      have m12 := m 1 2; have m20 := m 2 0; have m21 := m 2 1; have m22 := m 2 2
      simp at m00 m01 m02 m10 m11 m12 m20 m21 m22
      ext x y
      fin_cases x <;> fin_cases y <;> simp
      · linear_combination -m00
      · linear_combination m01
      · linear_combination -m02
      · linear_combination -m10
      · linear_combination m11
      · linear_combination -m12
      · linear_combination -m20
      · linear_combination m21
      · linear_combination -m22
  · have F : Entries (-a) (-b) c (-d) (-e) f (-g) (-h) i := by constructor <;> linarith
    obtain ⟨q, hq, hm⟩ := quat_pos F (by linarith)
    refine ⟨![-q 3, q 2, -q 1, q 0], ?_, ?_⟩
    · simp [Unit4] at *; linarith
    · rw [form, qmat_eq]; rw [qmat_eq] at hm
      have m := fun x y => congrFun (congrFun hm x) y
      have m00 := m 0 0; have m01 := m 0 1; have m02 := m 0 2; have m10 := m 1 0; have m11 := m 1 1
      have m12 := m 1 2; have m20 := m 2 0; have m21 := m 2 1; have m22 := m 2 2
      simp at m00 m01 m02 m10 m11 m12 m20 m21 m22
      ext x y
      fin_cases x <;> fin_cases y <;> simp
      · linear_combination -m00
      · linear_combination -m01
      · linear_combination m02
      · linear_combination -m10
      · linear_combination -m11
      · linear_combination m12
      · linear_combination -m20
      · linear_combination -m21
      · linear_combination m22

theorem angle_of {x y : ℝ} (h : x ^ 2 + y ^ 2 = 1) : ∃ t, -π < t ∧ t ≤ π ∧ cos t = x ∧ sin t = y := by
  set z : ℂ := ⟨x, y⟩
  have hn : ‖z‖ = 1 := by
    rw [Complex.norm_def, Complex.normSq_mk, Real.sqrt_eq_one]; linarith
  have hz : z ≠ 0 := by intro e; simp [e] at hn
  exact ⟨z.arg, Complex.neg_pi_lt_arg z, Complex.arg_le_pi z, by rw [Complex.cos_arg hz, hn]; simp [z], by rw [Complex.sin_arg, hn]; simp [z]⟩

/-- every unit quaternion is cos t + sin t u with a unit u and t in [0, pi], inside off 1 and -1 -/
theorem axis_angle (q : Fin 4 → ℝ) (hq : Unit4 q) :
    ∃ t u, 0 ≤ t ∧ t ≤ π ∧ Unit3 u ∧ q = ![cos t, sin t * u 0, sin t * u 1, sin t * u 2] ∧ (q 1 ^ 2 + q 2 ^ 2 + q 3 ^ 2 ≠ 0 → 0 < sin t ∧ 0 < t ∧ t < π) := by
  simp only [Unit4] at hq
  have hc : -1 ≤ q 0 ∧ q 0 ≤ 1 := abs_le.mp ((sq_le_one_iff_abs_le_one (q 0)).mp (by linarith [sq_nonneg (q 1), sq_nonneg (q 2), sq_nonneg (q 3)]))
  set t := arccos (q 0)
  have ct : cos t = q 0 := cos_arccos hc.1 hc.2
  have st : 0 ≤ sin t := sin_nonneg_of_nonneg_of_le_pi (arccos_nonneg _) (arccos_le_pi _)
  have ss : sin t ^ 2 = q 1 ^ 2 + q 2 ^ 2 + q 3 ^ 2 := by have := sin_sq_add_cos_sq t; rw [ct] at this; linarith
  have form : ∀ p : Fin 4 → ℝ, p = ![p 0, p 1, p 2, p 3] := by intro p; ext x; fin_cases x <;> rfl
  by_cases h0 : sin t = 0
  · have e0 : q 1 ^ 2 + q 2 ^ 2 + q 3 ^ 2 = 0 := by rw [← ss, h0]; norm_num
    have e1 : q 1 = 0 := pow_eq_zero_iff two_ne_zero |>.mp (by linarith [sq_nonneg (q 1), sq_nonneg (q 2), sq_nonneg (q 3)])
    have e2 : q 2 = 0 := pow_eq_zero_iff two_ne_zero |>.mp (by linarith [sq_nonneg (q 1), sq_nonneg (q 2), sq_nonneg (q 3)])
    have e3 : q 3 = 0 := pow_eq_zero_iff two_ne_zero |>.mp (by linarith [sq_nonneg (q 1), sq_nonneg (q 2), sq_nonneg (q 3)])
    refine ⟨t, ![1, 0, 0], arccos_nonneg _, arccos_le_pi _, by simp [Unit3], ?_, fun h => absurd e0 h⟩
    rw [form q]; simp [h0, ct, e1, e2, e3]
  · refine ⟨t, ![q 1 / sin t, q 2 / sin t, q 3 / sin t], arccos_nonneg _, arccos_le_pi _, ?_, ?_, ?_⟩
    · simp [Unit3, div_pow]; field_simp; linarith
    · rw [form q]; simp [ct]; refine ⟨?_, ?_, ?_⟩ <;> field_simp
    · intro _
      refine ⟨lt_of_le_of_ne st (Ne.symm h0), ?_, ?_⟩
      · rcases (arccos_nonneg (q 0)).lt_or_eq with h | h
        · exact h
        · exact absurd (by rw [show t = 0 from h.symm, sin_zero]) h0
      · rcases (arccos_le_pi (q 0)).lt_or_eq with h | h
        · exact h
        · exact absurd (by rw [show t = π from h, sin_pi]) h0

def rotX (s c : ℝ) : M3 := !![1, 0, 0; 0, c, -s; 0, s, c]
def rotY (s c : ℝ) : M3 := !![c, 0, s; 0, 1, 0; -s, 0, c]
def rotZ (s c : ℝ) : M3 := !![c, -s, 0; s, c, 0; 0, 0, 1]
def skew (u : Fin 3 → ℝ) : M3 := !![0, -u 2, u 1; u 2, 0, -u 0; -u 1, u 0, 0]
/-- rotation by t about u -/
noncomputable def rodrigues (u : Fin 3 → ℝ) (t : ℝ) : M3 := 1 + sin t • skew u + (1 - cos t) • (skew u * skew u)

/-- Euler: every rotation matrix is a rotation about an axis by an angle in [0, pi] -/
theorem euler {R : M3} (hR : Rotation R) : ∃ t u, 0 ≤ t ∧ t ≤ π ∧ Unit3 u ∧ R = rodrigues u t := by
  obtain ⟨q, hq, hm⟩ := rotation_is_quaternion hR
  -- of q and -q the one with non-negative real part
  obtain ⟨p, hp, hpm, p0⟩ : ∃ p, Unit4 p ∧ qmat p = R ∧ 0 ≤ p 0 := by
    by_cases h : 0 ≤ q 0
    · exact ⟨q, hq, hm, h⟩
    · refine ⟨fun k => -q k, by simpa [Unit4] using hq, ?_, by simp; linarith⟩
      rw [← hm, qmat_eq, qmat_eq]; ext x y; fin_cases x <;> fin_cases y <;> simp
  obtain ⟨h, u, h0, h1, hu, hf, _⟩ := axis_angle p hp
  have hh : h ≤ π / 2 := by
    by_contra hc
    have := cos_neg_of_pi_div_two_lt_of_lt (by linarith : π / 2 < h) (by linarith [pi_pos] : h < π + π / 2)
    rw [hf] at p0; simp at p0; linarith
  refine ⟨2 * h, u, by linarith, by linarith, hu, ?_⟩
  have sc := sin_sq_add_cos_sq h
  simp only [Unit3] at hu
  rw [← hpm, qmat_eq, hf, rodrigues, sin_two_mul, cos_two_mul']
  ext x y
  fin_cases x <;> fin_cases y <;> simp [skew, Matrix.mul_apply, Fin.sum_univ_three] <;> grind

/-- roll, pitch and yaw: off the lock, and at it -/
theorem zyx {R : M3} (hR : Rotation R) :
    (∃ y a r, -π < y ∧ y ≤ π ∧ -(π / 2) < a ∧ a < π / 2 ∧ -π < r ∧ r ≤ π
      ∧ R = rotZ (sin y) (cos y) * rotY (sin a) (cos a) * rotX (sin r) (cos r))
    ∨ ∃ y k, -π < y ∧ y ≤ π ∧ (k = 1 ∨ k = -1) ∧ R = rotZ (sin y) (cos y) * rotY k 0 := by
  have E := entries hR
  have form : R = !![R 0 0, R 0 1, R 0 2; R 1 0, R 1 1, R 1 2; R 2 0, R 2 1, R 2 2] := by
    ext x y; fin_cases x <;> fin_cases y <;> rfl
  generalize R 0 0 = a at *; generalize R 0 1 = b at *; generalize R 0 2 = c at *
  generalize R 1 0 = d at *; generalize R 1 1 = e at *; generalize R 1 2 = f at *
  generalize R 2 0 = g at *; generalize R 2 1 = h at *; generalize R 2 2 = i at *
  obtain ⟨r1, r2, r3, c1, c2, c3, k1, k2, k3, k4, k5, k6, k7, k8, k9⟩ := E
  have hg : g ^ 2 ≤ 1 := by linarith [sq_nonneg h, sq_nonneg i]
  rcases hg.lt_or_eq with hg | hg
  · left
    have gb : -1 < -g ∧ -g < 1 := by have := abs_lt.mp ((sq_lt_one_iff_abs_lt_one g).mp hg); constructor <;> linarith
    set p := arcsin (-g)
    have sp : sin p = -g := sin_arcsin gb.1.le gb.2.le
    have pl : -(π / 2) < p := neg_pi_div_two_lt_arcsin.mpr gb.1
    have pr : p < π / 2 := arcsin_lt_pi_div_two.mpr gb.2
    have cp : 0 < cos p := cos_pos_of_mem_Ioo ⟨pl, pr⟩
    have cc : cos p ^ 2 = 1 - g ^ 2 := by have := sin_sq_add_cos_sq p; rw [sp] at this; linarith
    obtain ⟨y, y0, y1, yc, ys⟩ := angle_of (x := a / cos p) (y := d / cos p) (by rw [div_pow, div_pow, ← add_div, cc]; apply (div_eq_one_iff_eq (by linarith)).mpr; linarith)
    obtain ⟨r, w0, w1, rc, rs⟩ := angle_of (x := i / cos p) (y := h / cos p) (by rw [div_pow, div_pow, ← add_div, cc]; apply (div_eq_one_iff_eq (by linarith)).mpr; linarith)
    refine ⟨y, p, r, y0, y1, pl, pr, w0, w1, ?_⟩
    rw [eq_div_iff cp.ne'] at yc ys rc rs
    rw [form]
    have n : cos p ^ 2 ≠ 0 := by positivity
    ext x z
    fin_cases x <;> fin_cases z <;> simp [rotX, rotY, rotZ, Matrix.mul_apply, Fin.sum_univ_three, sp] <;>
      first | linarith | (apply mul_left_cancel₀ n; grind)
  · right
    have z : a = 0 ∧ d = 0 ∧ h = 0 ∧ i = 0 := by
      have ad : a ^ 2 + d ^ 2 = 0 := by linarith
      have hi : h ^ 2 + i ^ 2 = 0 := by linarith
      refine ⟨?_, ?_, ?_, ?_⟩ <;> apply pow_eq_zero_iff two_ne_zero |>.mp
      · linarith [sq_nonneg a, sq_nonneg d]
      · linarith [sq_nonneg a, sq_nonneg d]
      · linarith [sq_nonneg h, sq_nonneg i]
      · linarith [sq_nonneg h, sq_nonneg i]
    obtain ⟨rfl, rfl, rfl, rfl⟩ := z
    obtain ⟨y, y0, y1, yc, ys⟩ := angle_of (x := e) (y := -b) (by linarith)
    refine ⟨y, -g, y0, y1, ?_, ?_⟩
    · have : (-g - 1) * (-g + 1) = 0 := by linear_combination hg
      rcases mul_eq_zero.mp this with h | h
      · left; linarith
      · right; linarith
    · rw [form, yc, ys]
      ext x z
      fin_cases x <;> fin_cases z <;> simp [rotX, rotY, rotZ, Matrix.mul_apply, Fin.sum_univ_three] <;> linarith

/-- the dual part of the rigid motion x -> R(q) x + t -/
noncomputable def dual (q : Fin 4 → ℝ) (t : Fin 3 → ℝ) : Fin 4 → ℝ := fun k => ham (imag t) q k / 2

/-- every unit dual quaternion is a rigid motion's -/
theorem unit_dual (q e : Fin 4 → ℝ) (hq : Unit4 q) (ho : q 0 * e 0 + q 1 * e 1 + q 2 * e 2 + q 3 * e 3 = 0) :
    ∃ t, e = dual q t := by
  refine ⟨fun k => 2 * ham e (conj q) k.succ, ?_⟩
  simp only [Unit4] at hq
  ext k
  fin_cases k <;> simp [dual, ham, imag, conj] <;> grind

def crossp (a b : Fin 3 → ℝ) : Fin 3 → ℝ := ![a 1 * b 2 - a 2 * b 1, a 2 * b 0 - a 0 * b 2, a 0 * b 1 - a 1 * b 0]

/-- Chasles: every rigid motion that is not a translation is the screw about a line through w along l,
    by an angle th inside (0, 2 pi) and a displacement d -/
theorem chasles (q : Fin 4 → ℝ) (t : Fin 3 → ℝ) (hq : Unit4 q) (hv : q 1 ^ 2 + q 2 ^ 2 + q 3 ^ 2 ≠ 0) :
    ∃ l w th d, Unit3 l ∧ 0 < th ∧ th < 2 * π ∧
      q = ![cos (th / 2), l 0 * sin (th / 2), l 1 * sin (th / 2), l 2 * sin (th / 2)] ∧
      dual q t = ![-(d / 2) * sin (th / 2), crossp w l 0 * sin (th / 2) + l 0 * (d / 2 * cos (th / 2)),
        crossp w l 1 * sin (th / 2) + l 1 * (d / 2 * cos (th / 2)), crossp w l 2 * sin (th / 2) + l 2 * (d / 2 * cos (th / 2))] := by
  obtain ⟨h, l, _, _, hl, hf, hp⟩ := axis_angle q hq
  obtain ⟨hs, h0, h1⟩ := hp hv
  have hs0 := hs.ne'
  set d := t 0 * l 0 + t 1 * l 1 + t 2 * l 2 with hd
  set m : Fin 3 → ℝ := fun k => (cos h * (t k - d * l k) + sin h * crossp t l k) / (2 * sin h) with hm
  refine ⟨l, crossp l m, 2 * h, d, hl, by linarith, by linarith, ?_, ?_⟩
  · rw [hf, mul_div_cancel_left₀ _ two_ne_zero]; simp [mul_comm]
  · rw [mul_div_cancel_left₀ _ two_ne_zero]
    simp only [Unit3] at hl
    -- (l x m) x l = m, because l is unit and m is at a right angle to it
    have me : ∀ k, m k * (2 * sin h) = cos h * (t k - d * l k) + sin h * crossp t l k := by intro k; rw [hm]; field_simp
    have lm : l 0 * m 0 + l 1 * m 1 + l 2 * m 2 = 0 := by
      have : (l 0 * m 0 + l 1 * m 1 + l 2 * m 2) * (2 * sin h) = 0 := by
        have e0 := me 0; have e1 := me 1; have e2 := me 2
        simp [crossp] at e0 e1 e2
        linear_combination l 0 * e0 + l 1 * e1 + l 2 * e2 - cos h * d * hl - cos h * hd
      rcases mul_eq_zero.mp this with h | h
      · exact h
      · linarith
    have back : ∀ k, crossp (crossp l m) l k = m k := by
      intro k
      fin_cases k <;> simp [crossp]
      · linear_combination m 0 * hl - l 0 * lm
      · linear_combination m 1 * hl - l 1 * lm
      · linear_combination m 2 * hl - l 2 * lm
    have e0 := me 0; have e1 := me 1; have e2 := me 2
    simp [crossp] at e0 e1 e2
    have b0 := back 0; have b1 := back 1; have b2 := back 2
    rw [b0, b1, b2, hf]
    ext k
    fin_cases k <;> simp [dual, ham, imag]
    · rw [hd]; ring
    · linear_combination -e0 / 2
    · linear_combination -e1 / 2
    · linear_combination -e2 / 2

#print axioms rotation_is_quaternion
#print axioms axis_angle
#print axioms euler
#print axioms zyx
#print axioms unit_dual
#print axioms chasles
