import Mathlib.Order.Nat
import Mathlib.Data.Nat.Nth
import Mathlib.Data.Nat.Count
import Mathlib.Data.Fintype.Card
import Mathlib.Algebra.Order.BigOperators.Group.Finset

/-!
Existence of the counting functions the contracts use as ghost state: the number `rank p c` of marked indices before
`c` and the `k`-th marked index `sel p k`, for any set of marked indices below a bound.  (Pivot columns C08-C13,
hidden rounds C19/C20, published seed-tree nodes C14/C15.)
-/

namespace Ranks

variable (p : ℕ → Prop) [DecidablePred p]

/-- every fact about ranks that the verification conditions instantiate -/
theorem ranks (N : ℕ) :
    Nat.count p 0 = 0 ∧
    (∀ c, Nat.count p (c + 1) = Nat.count p c + if p c then 1 else 0) ∧
    (∀ c, Nat.count p c ≤ c) ∧
    (∀ c, c < N → Nat.count p c ≤ Nat.count p N ∧ Nat.count p (c + 1) ≤ Nat.count p N) ∧
    (∀ c, c < N → p c → Nat.count p c < Nat.count p N ∧ Nat.nth p (Nat.count p c) = c) ∧
    (∀ k, k < Nat.count p N → Nat.nth p k < N ∧ p (Nat.nth p k) ∧ Nat.count p (Nat.nth p k) = k) := by
  refine ⟨by simp, fun c => Nat.count_succ p c, fun c => Nat.count_le p, ?_, ?_, ?_⟩
  · intro c hc
    exact ⟨Nat.count_monotone p (le_of_lt hc), Nat.count_monotone p hc⟩
  · intro c hc h
    refine ⟨?_, Nat.nth_count h⟩
    have h1 := Nat.count_monotone p (Nat.succ_le_of_lt hc)
    have h2 := Nat.count_succ p c
    simp [h] at h2
    simp only [Nat.succ_eq_add_one] at h1
    omega
  · intro k hk
    have h1 : Nat.nth p k < N := Nat.nth_lt_of_lt_count hk
    have h2 : ∀ hf : (Set.ofPred p).Finite, k < hf.toFinset.card := by
      intro hf
      exact lt_of_lt_of_le hk (Nat.count_le_card hf N)
    exact ⟨h1, Nat.nth_mem k h2, Nat.count_nth h2⟩

/-- unmarked indices: c minus the rank, with the same facts -/
theorem complement (c : ℕ) : Nat.count p c + Nat.count (fun x => ¬ p x) c = c := by
  induction c with
  | zero => simp
  | succ n ih =>
    rw [Nat.count_succ, Nat.count_succ]
    by_cases h : p n <;> simp [h] <;> omega

/-- K pairwise distinct indices below N mark exactly K indices, so N-K remain -/
theorem distinct_count (K N : ℕ) (f : Fin K → ℕ) (hf : Function.Injective f) (hN : ∀ k, f k < N)
    [DecidablePred fun x => ∃ k, f k = x] : Nat.count (fun x => ∃ k, f k = x) N = K := by
  rw [Nat.count_eq_card_filter_range]
  have : (Finset.range N).filter (fun x => ∃ k, f k = x) = Finset.univ.image f := by
    ext x
    simp only [Finset.mem_filter, Finset.mem_range, Finset.mem_image, Finset.mem_univ, true_and]
    constructor
    · rintro ⟨_, h⟩; exact h
    · rintro ⟨k, rfl⟩; exact ⟨hN k, k, rfl⟩
  rw [this, Finset.card_image_of_injective _ hf]
  simp

/-- storing a nonzero value over a zero raises the number of nonzero entries by one -/
theorem store_count (T : ℕ) (x : Fin T → ℕ) (i : Fin T) (v : ℕ) (h0 : x i = 0) (hv : v ≠ 0) :
    (Finset.univ.filter (fun j => Function.update x i v j ≠ 0)).card = (Finset.univ.filter (fun j => x j ≠ 0)).card + 1 := by
  have : Finset.univ.filter (fun j => Function.update x i v j ≠ 0) = insert i (Finset.univ.filter (fun j => x j ≠ 0)) := by
    ext j
    by_cases h : j = i
    · subst h; simp [hv]
    · simp [h]
  rw [this, Finset.card_insert_of_notMem (by simp [h0])]

end Ranks
