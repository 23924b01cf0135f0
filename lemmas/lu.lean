/- From the contract that Verus proves of `lu` (slices/lu.py: `factors`, the same definitions here over natural
   numbers) to the two statements of C07 about the determinant:
     determinant   det A is the parity of the exchanges times the product of the diagonal
     regular       no pivot was replaced by the tiny one unless det A = 0
   with det Mathlib's. -/
import Mathlib.LinearAlgebra.Matrix.Determinant.Basic
import Mathlib.LinearAlgebra.Matrix.Block
import Mathlib.Data.Real.Basic
import Mathlib.Tactic.Ring

open Finset hiding diag

/-- the row of the given matrix that stands in row i after the first k exchanges -/
def row (x : ℕ → ℕ) : ℕ → ℕ → ℕ
  | 0, i => i
  | k + 1, i => if i = k then row x k (x k) else if i = x k then row x k k else row x k i

/-- 1 or -1: the parity of the first k exchanges -/
def sgn (x : ℕ → ℕ) : ℕ → ℝ
  | 0 => 1
  | k + 1 => if x k ≠ k then -sgn x k else sgn x k

/-- sum of f i t * f t j over t < m -/
def part (f : ℕ → ℕ → ℝ) (i j : ℕ) : ℕ → ℝ
  | 0 => 0
  | m + 1 => part f i j m + f i m * f m j

/-- s times the first n diagonal entries -/
def diag (s : ℝ) (f : ℕ → ℕ → ℝ) : ℕ → ℝ
  | 0 => s
  | m + 1 => diag s f m * f m m

open Classical in
noncomputable def entry (f : ℕ → ℕ → ℝ) (z : ℕ → Prop) (tiny : ℝ) (k i j : ℕ) : ℝ :=
  part f i j (min (min i j) k) + (if j < i ∧ j < k then f i j * f j j else f i j) - (if i = j ∧ z i then tiny else 0)

/-- what `lu` ensures, after all n columns -/
structure Factors (n : ℕ) (a : ℕ → ℕ → ℝ) (x : ℕ → ℕ) (f : ℕ → ℕ → ℝ) (z : ℕ → Prop) (tiny : ℝ) : Prop where
  product : ∀ i j, i < n → j < n → a (row x n i) j = entry f z tiny n i j
  range : ∀ i, i < n → i ≤ x i ∧ x i < n
  below : ∀ c r, c < n → c < r → r < n → z c → f r c = 0
  replaced : ∀ c, c < n → z c → f c c = tiny
  column : ∀ c, z c → c < n

theorem exchanges (n : ℕ) (x : ℕ → ℕ) (h : ∀ i, i < n → i ≤ x i ∧ x i < n) (k : ℕ) (hk : k ≤ n) :
    ∃ σ : Equiv.Perm (Fin n), (∀ i, (σ i : ℕ) = row x k i) ∧ ((Equiv.Perm.sign σ : ℤ) : ℝ) = sgn x k := by
  induction k with
  | zero => exact ⟨1, by simp [row], by simp [sgn]⟩
  | succ k ih =>
    obtain ⟨σ, hσ, hs⟩ := ih (by omega)
    have hkn : k < n := by omega
    have hx := (h k hkn).2
    refine ⟨σ * Equiv.swap ⟨k, hkn⟩ ⟨x k, hx⟩, ?_, ?_⟩
    · intro i
      simp only [Equiv.Perm.mul_apply, row]
      by_cases h1 : (i : ℕ) = k
      · have : i = ⟨k, hkn⟩ := Fin.ext h1
        subst this
        simp [hσ]
      · by_cases h2 : (i : ℕ) = x k
        · have : i = ⟨x k, hx⟩ := Fin.ext h2
          subst this
          simp only [Equiv.swap_apply_right, hσ, if_true]
          simp_all
        · rw [Equiv.swap_apply_of_ne_of_ne (fun e => h1 (by simp [e])) (fun e => h2 (by simp [e]))]
          simp [h1, h2, hσ]
    · by_cases h1 : x k = k
      · simp [h1, sgn, hs]
      · have : (⟨k, hkn⟩ : Fin n) ≠ ⟨x k, hx⟩ := fun e => h1 (by simpa using (congrArg Fin.val e).symm)
        simp [Equiv.Perm.sign_swap this, sgn, h1, hs]

theorem part_sum (f : ℕ → ℕ → ℝ) (i j m : ℕ) : part f i j m = ∑ t ∈ range m, f i t * f t j := by
  induction m with
  | zero => simp [part]
  | succ m ih => rw [part, sum_range_succ, ih]

theorem diag_prod (s : ℝ) (f : ℕ → ℕ → ℝ) (m : ℕ) : diag s f m = s * ∏ t ∈ range m, f t t := by
  induction m with
  | zero => simp [diag]
  | succ m ih => rw [diag, prod_range_succ, ih]; ring

theorem sgn_sq (x : ℕ → ℕ) (k : ℕ) : sgn x k * sgn x k = 1 := by
  induction k with
  | zero => simp [sgn]
  | succ k ih => rw [sgn]; split <;> simp [ih]

open Classical in
/-- the two triangular factors stored in f -/
noncomputable def lower (f : ℕ → ℕ → ℝ) (i t : ℕ) : ℝ := if t < i then f i t else if t = i then 1 else 0
open Classical in
noncomputable def upper (f : ℕ → ℕ → ℝ) (z : ℕ → Prop) (t j : ℕ) : ℝ := if t < j then f t j else if t = j then (if z t then 0 else f t t) else 0

theorem entry_mul {n : ℕ} {a : ℕ → ℕ → ℝ} {x : ℕ → ℕ} {f : ℕ → ℕ → ℝ} {z : ℕ → Prop} {tiny : ℝ} (h : Factors n a x f z tiny)
    (i j : ℕ) (hi : i < n) (hj : j < n) : entry f z tiny n i j = ∑ t ∈ range n, lower f i t * upper f z t j := by
  have hm : min i j < n := by omega
  have split : ∑ t ∈ range n, lower f i t * upper f z t j = ∑ t ∈ range (min i j + 1), lower f i t * upper f z t j := by
    symm
    apply sum_subset
    · intro t; simp only [mem_range]; omega
    · intro t _ ht
      simp only [mem_range, not_lt] at ht
      by_cases hti : i < t
      · simp [lower, show ¬ t < i by omega, show ¬ t = i by omega]
      · simp [upper, show ¬ t < j by omega, show ¬ t = j by omega]
  rw [split, sum_range_succ]
  have first : ∑ t ∈ range (min i j), lower f i t * upper f z t j = part f i j (min (min i j) n) := by
    rw [show min (min i j) n = min i j by omega, part_sum]
    apply sum_congr rfl
    intro t ht
    simp only [mem_range] at ht
    simp [lower, upper, show t < i by omega, show t < j by omega]
  rw [first, entry]
  rcases lt_trichotomy i j with hij | hij | hij
  · rw [show min i j = i by omega]
    simp [lower, upper, hij, show ¬ j < i by omega, show ¬ i = j by omega]
  · subst hij
    by_cases hz : z i
    · simp [lower, upper, hz, h.replaced i hi hz]
    · simp [lower, upper, hz]
  · rw [show min i j = j by omega]
    by_cases hz : z j
    · simp [lower, upper, hij, hj, hz, show ¬ i = j by omega, h.below j i hj hij hi hz]
    · simp [lower, upper, hij, hj, hz, show ¬ i = j by omega]

/-- the matrix with these entries -/
def mat (n : ℕ) (a : ℕ → ℕ → ℝ) : Matrix (Fin n) (Fin n) ℝ := fun i j => a i j

theorem det_factors {n : ℕ} {a : ℕ → ℕ → ℝ} {x : ℕ → ℕ} {f : ℕ → ℕ → ℝ} {z : ℕ → Prop} {tiny : ℝ} (h : Factors n a x f z tiny) :
    (mat n a).det = sgn x n * ∏ t ∈ range n, upper f z t t := by
  obtain ⟨σ, hσ, hs⟩ := exchanges n x h.range n le_rfl
  have hp : (mat n a).submatrix σ id = mat n (lower f) * mat n (upper f z) := by
    ext i j
    simp only [Matrix.submatrix_apply, id, mat, Matrix.mul_apply, hσ]
    rw [h.product i j i.2 j.2, entry_mul h i j i.2 j.2]
    exact (Fin.sum_univ_eq_sum_range (fun t => lower f i t * upper f z t j) n).symm
  have hl : (mat n (lower f)).det = 1 := by
    rw [Matrix.det_of_isLowerTriangular]
    · simp [mat, lower]
    · intro i j hij
      have : (i : ℕ) < j := by simpa using hij
      simp [mat, lower, show ¬ (j : ℕ) < i by omega, show ¬ (j : ℕ) = i by omega]
  have hu : (mat n (upper f z)).det = ∏ t ∈ range n, upper f z t t := by
    rw [Matrix.det_of_isUpperTriangular]
    · exact Fin.prod_univ_eq_prod_range (fun t => upper f z t t) n
    · intro i j hij
      have : (j : ℕ) < i := by simpa using hij
      simp [mat, upper, show ¬ (i : ℕ) < j by omega, show ¬ (i : ℕ) = j by omega]
  have hd := congrArg Matrix.det hp
  rw [Matrix.det_permute, Matrix.det_mul, hl, hu, one_mul, hs] at hd
  rw [← hd, ← mul_assoc, sgn_sq, one_mul]

/-- a pivot was replaced by the tiny one only if the matrix is singular -/
theorem regular {n : ℕ} {a : ℕ → ℕ → ℝ} {x : ℕ → ℕ} {f : ℕ → ℕ → ℝ} {z : ℕ → Prop} {tiny : ℝ} (h : Factors n a x f z tiny)
    (hd : (mat n a).det ≠ 0) (c : ℕ) : ¬ z c := by
  intro hz
  apply hd
  rw [det_factors h, prod_eq_zero (mem_range.mpr (h.column c hz)), mul_zero]
  simp [upper, hz]

/-- of a regular matrix: P * A = L * U as it stands, and det is the number `lu` returns -/
theorem determinant {n : ℕ} {a : ℕ → ℕ → ℝ} {x : ℕ → ℕ} {f : ℕ → ℕ → ℝ} {z : ℕ → Prop} {tiny : ℝ} (h : Factors n a x f z tiny)
    (hd : (mat n a).det ≠ 0) : (mat n a).det = diag (sgn x n) f n := by
  rw [det_factors h, diag_prod]
  congr 1
  apply prod_congr rfl
  intro t _
  simp [upper, regular h hd t]

#print axioms regular
#print axioms determinant
