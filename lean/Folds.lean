import Mathlib.Tactic.Abel
import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Algebra.BigOperators.Intervals
/-! The rules by which the engine (mirv/engine.py: `emit`) follows a fold, proved of every element type, every
term and every array.  `F t a n` is the sum of `t (a i)` over `i < n`. -/
open Finset
variable {E V : Type} [AddCommGroup V]

def F (t : E → V) (a : ℕ → E) (n : ℕ) : V := ∑ i ∈ range n, t (a i)

/-- vec, touch: nothing sums to 0 -/
theorem F_zero (t : E → V) (a : ℕ → E) : F t a 0 = 0 := by simp [F]

/-- touch: one more element -/
theorem F_touch (t : E → V) (a : ℕ → E) (i : ℕ) : F t a (i + 1) = F t a i + t (a i) := by
  simp [F, sum_range_succ]

/-- prefix: only the elements below n count -/
theorem F_prefix (t : E → V) (a b : ℕ → E) (n : ℕ) (h : ∀ i < n, b i = a i) : F t b n = F t a n := by
  unfold F
  exact sum_congr rfl (fun i hi => by rw [h i (mem_range.mp hi)])

/-- store: the element at i replaced -/
theorem F_store (t : E → V) (a b : ℕ → E) (i n : ℕ) (hi : i < n) (h : ∀ j, j ≠ i → b j = a j) :
    F t b n = F t a n + (t (b i) - t (a i)) := by
  unfold F
  have hm : i ∈ range n := mem_range.mpr hi
  rw [← add_sum_erase _ _ hm, ← add_sum_erase _ (fun j => t (a j)) hm]
  have : ∑ j ∈ (range n).erase i, t (b j) = ∑ j ∈ (range n).erase i, t (a j) :=
    sum_congr rfl (fun j hj => by rw [h j (ne_of_mem_erase hj)])
  rw [this]; abel

theorem F_store_before (t : E → V) (a b : ℕ → E) (i : ℕ) (h : ∀ j, j ≠ i → b j = a j) : F t b i = F t a i :=
  F_prefix t a b i (fun j hj => h j (Nat.ne_of_lt hj))

/-- push -/
theorem F_push (t : E → V) (a b : ℕ → E) (n : ℕ) (h : ∀ i < n, b i = a i) : F t b (n + 1) = F t a n + t (b n) := by
  rw [F_touch, F_prefix t a b n h]

/-- concat: c is a (n elements) followed by b (m elements) -/
theorem F_concat (t : E → V) (a b c : ℕ → E) (n m : ℕ) (h1 : ∀ i < n, c i = a i) (h2 : ∀ i < m, c (n + i) = b i) :
    F t c (n + m) = F t a n + F t b m := by
  unfold F
  rw [sum_range_add]
  congr 1
  · exact sum_congr rfl (fun i hi => by rw [h1 i (mem_range.mp hi)])
  · exact sum_congr rfl (fun i hi => by rw [h2 i (mem_range.mp hi)])

/-- perm: the same elements in another order -/
theorem F_perm (t : E → V) (a b : ℕ → E) (n : ℕ) (p : Equiv.Perm (Fin n)) (h : ∀ i : Fin n, b i = a (p i)) :
    F t b n = F t a n := by
  unfold F
  rw [← Fin.sum_univ_eq_sum_range (fun i => t (b i)) n, ← Fin.sum_univ_eq_sum_range (fun i => t (a i)) n]
  rw [← Equiv.sum_comp p (fun i : Fin n => t (a i))]
  exact sum_congr rfl (fun i _ => by rw [h i])

/-- non-negative terms: monotone in n (for the integers and the reals alike) -/
theorem F_mono {W : Type} [AddCommGroup W] [PartialOrder W] [IsOrderedAddMonoid W] (t : E → W) (a : ℕ → E)
    (h : ∀ e, 0 ≤ t e) {m n : ℕ} (hmn : m ≤ n) : F t a m ≤ F t a n := by
  unfold F
  exact sum_le_sum_of_subset_of_nonneg (range_mono hmn) (fun i _ _ => h (a i))

/-- a termwise lemma (Dom): what holds of nothing and is kept by one more element holds of every segment [m, n) -/
theorem F_dom {V1 V2 : Type} [AddCommGroup V1] [AddCommGroup V2] (t1 : E → V1) (t2 : E → V2) (R : V1 → V2 → Prop)
    (h0 : R 0 0) (hs : ∀ x y e, R x y → R (x + t1 e) (y + t2 e)) (a : ℕ → E) (m k : ℕ) :
    R (F t1 a (m + k) - F t1 a m) (F t2 a (m + k) - F t2 a m) := by
  induction k with
  | zero => simpa using h0
  | succ k ih =>
    have e1 : F t1 a (m + (k + 1)) - F t1 a m = (F t1 a (m + k) - F t1 a m) + t1 (a (m + k)) := by
      rw [← Nat.add_assoc, F_touch]; abel
    have e2 : F t2 a (m + (k + 1)) - F t2 a m = (F t2 a (m + k) - F t2 a m) + t2 (a (m + k)) := by
      rw [← Nat.add_assoc, F_touch]; abel
    rw [e1, e2]
    exact hs _ _ _ ih
