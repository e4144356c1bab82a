import Mathlib.Data.Matrix.Mul
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse

/-!
Facts about reduced row-echelon forms over a field used with the contract of `generator_RREF` (property C08):
the contract says that the matrix is transformed by invertible row operations, that on success the result is a
reduced row-echelon form with K pivot columns, and that failure is reported only when some row of the transformed
matrix vanishes.
-/

namespace Rref

variable {F : Type*} [Field F] {K N : ℕ}

structure IsRREF (R : Matrix (Fin K) (Fin N) F) (piv : Fin K → Fin N) : Prop where
  mono : StrictMono piv
  unit : ∀ i k, R i (piv k) = if i = k then 1 else 0
  lead : ∀ i j, j < piv i → R i j = 0

/-- one step of the reduction, in the form the contract states it (rows `i` and `p` exchanged, the pivot row scaled by the
inverse of its entry in column `pc`, multiples of it subtracted from all other rows), is an invertible row operation -/
theorem step (H R : Matrix (Fin K) (Fin N) F) (i p : Fin K) (pc : Fin N) (hs : H p pc ≠ 0)
    (hi : ∀ c, R i c = (H p pc)⁻¹ * H p c)
    (ho : ∀ a, a ≠ i → ∀ c, R a c = H (Equiv.swap i p a) c - H (Equiv.swap i p a) pc * ((H p pc)⁻¹ * H p c)) :
    ∃ U : Matrix (Fin K) (Fin K) F, IsUnit U.det ∧ R = U * H := by
  let w : Fin K → F := fun a => H (Equiv.swap i p a) pc
  let E : Matrix (Fin K) (Fin K) F := fun a b =>
    if a = i then (if b = i then (H p pc)⁻¹ else 0) else (if b = a then 1 else 0) + (if b = i then - (w a * (H p pc)⁻¹) else 0)
  let E' : Matrix (Fin K) (Fin K) F := fun a b =>
    if a = i then (if b = i then H p pc else 0) else (if b = a then 1 else 0) + (if b = i then w a else 0)
  have hE : E' * E = 1 := by
    ext a b
    rw [Matrix.mul_apply]
    by_cases ha : a = i
    · subst ha
      have h1 : ∑ x, E' a x * E x b = H p pc * E a b := by
        simp only [E', if_true, ite_mul, zero_mul, Finset.sum_ite_eq', Finset.mem_univ]
      rw [h1]
      by_cases hb : b = a
      · subst hb; simp [E, hs]
      · simp [E, hb, Ne.symm hb]
    · have h1 : ∑ x, E' a x * E x b = E a b + w a * E i b := by
        simp only [E', ha, if_false, add_mul, ite_mul, one_mul, zero_mul, Finset.sum_add_distrib, Finset.sum_ite_eq', Finset.mem_univ, if_true]
      rw [h1]
      by_cases hb : b = i
      · subst hb; simp [E, ha, Ne.symm ha]
      · by_cases hab : b = a
        · subst hab; simp [E, ha]
        · simp [E, ha, hb, hab, Ne.symm hab]
  have hEd : IsUnit E.det := Matrix.isUnit_det_of_left_inverse hE
  let S : Matrix (Fin K) (Fin K) F := fun a b => if b = Equiv.swap i p a then 1 else 0
  have hSM : ∀ {n : ℕ} (M : Matrix (Fin K) (Fin n) F) a c, (S * M) a c = M (Equiv.swap i p a) c := by
    intro n M a c
    rw [Matrix.mul_apply]
    simp only [S, ite_mul, one_mul, zero_mul, Finset.sum_ite_eq', Finset.mem_univ, if_true]
  have hS : S * S = 1 := by
    ext a b
    rw [hSM]
    by_cases hab : a = b
    · subst hab; simp [S]
    · simp [S, hab, Ne.symm hab]
  have hSd : IsUnit S.det := Matrix.isUnit_det_of_left_inverse hS
  have hSH : ∀ a c, (S * H) a c = H (Equiv.swap i p a) c := hSM H
  refine ⟨E * S, by rw [Matrix.det_mul]; exact hEd.mul hSd, ?_⟩
  ext a c
  rw [Matrix.mul_assoc, Matrix.mul_apply]
  by_cases ha : a = i
  · subst ha
    have h1 : ∑ x, E a x * (S * H) x c = (H p pc)⁻¹ * (S * H) a c := by
      simp only [E, if_true, ite_mul, zero_mul, Finset.sum_ite_eq', Finset.mem_univ]
    rw [h1, hSH, hi]; simp
  · have h1 : ∑ x, E a x * (S * H) x c = (S * H) a c + - (w a * (H p pc)⁻¹) * (S * H) i c := by
      simp only [E, ha, if_false, add_mul, ite_mul, one_mul, zero_mul, Finset.sum_add_distrib, Finset.sum_ite_eq', Finset.mem_univ, if_true]
    rw [h1, hSH, hSH, ho a ha]
    simp only [Equiv.swap_apply_left, w]
    ring

/-- so is the whole reduction -/
theorem steps (n : ℕ) (M : ℕ → Matrix (Fin K) (Fin N) F)
    (h : ∀ t, t < n → ∃ U : Matrix (Fin K) (Fin K) F, IsUnit U.det ∧ M (t + 1) = U * M t) :
    ∃ U : Matrix (Fin K) (Fin K) F, IsUnit U.det ∧ M n = U * M 0 := by
  induction n with
  | zero => exact ⟨1, by simp, by simp⟩
  | succ n ih =>
    obtain ⟨U, hU, e⟩ := ih (fun t ht => h t (by omega))
    obtain ⟨V, hV, e'⟩ := h n (by omega)
    exact ⟨V * U, by rw [Matrix.det_mul]; exact hV.mul hU, by rw [e', e, Matrix.mul_assoc]⟩

/-- K pivots mean full rank: no nontrivial combination of the rows vanishes -/
theorem full_rank {R : Matrix (Fin K) (Fin N) F} {piv : Fin K → Fin N} (h : IsRREF R piv)
    (v : Fin K → F) (hv : Matrix.vecMul v R = 0) : v = 0 := by
  funext k
  have := congrFun hv (piv k)
  simpa [Matrix.vecMul, dotProduct, h.unit] using this

/-- full rank is invariant under invertible row operations -/
theorem rank_inv {M : Matrix (Fin K) (Fin N) F} {U : Matrix (Fin K) (Fin K) F} (hU : IsUnit U.det) :
    (∀ v : Fin K → F, Matrix.vecMul v M = 0 → v = 0) ↔ (∀ v : Fin K → F, Matrix.vecMul v (U * M) = 0 → v = 0) := by
  constructor
  · intro h v hv
    have h1 : Matrix.vecMul (Matrix.vecMul v U) M = 0 := by rw [Matrix.vecMul_vecMul]; exact hv
    have h2 := h _ h1
    have h3 := congrArg (fun w => Matrix.vecMul w U⁻¹) h2
    simpa [Matrix.vecMul_vecMul, Matrix.mul_nonsing_inv _ hU] using h3
  · intro h v hv
    have h1 : Matrix.vecMul (Matrix.vecMul v U⁻¹) (U * M) = 0 := by
      rw [Matrix.vecMul_vecMul, ← Matrix.mul_assoc, Matrix.nonsing_inv_mul _ hU, Matrix.one_mul, hv]
    have h2 := h _ h1
    have h3 := congrArg (fun w => Matrix.vecMul w U) h2
    simpa [Matrix.vecMul_vecMul, Matrix.nonsing_inv_mul _ hU] using h3

/-- success is reported for matrices of rank K only -/
theorem success_full_rank {M R : Matrix (Fin K) (Fin N) F} {U : Matrix (Fin K) (Fin K) F} (hU : IsUnit U.det)
    (hR : R = U * M) {piv : Fin K → Fin N} (h : IsRREF R piv) : ∀ v : Fin K → F, Matrix.vecMul v M = 0 → v = 0 := by
  rw [rank_inv hU, ← hR]
  exact fun v => full_rank h v

/-- failure is reported for matrices of smaller rank only: a row of the transformed matrix vanishes -/
theorem failure_rank {M R : Matrix (Fin K) (Fin N) F} {U : Matrix (Fin K) (Fin K) F} (hU : IsUnit U.det)
    (hR : R = U * M) (i : Fin K) (hz : ∀ j, R i j = 0) : ¬ ∀ v : Fin K → F, Matrix.vecMul v M = 0 → v = 0 := by
  rw [rank_inv hU, ← hR]
  intro h
  have := h (Pi.single i 1) (by funext j; simp [hz])
  have := congrFun this i
  simp at this

/-- the reduced row-echelon form of a row space is unique, pivots included -/
theorem unique {M R R' : Matrix (Fin K) (Fin N) F} {U U' : Matrix (Fin K) (Fin K) F}
    (hU : IsUnit U.det) (hU' : IsUnit U'.det) (hR : R = U * M) (hR' : R' = U' * M)
    {piv piv' : Fin K → Fin N} (h : IsRREF R piv) (h' : IsRREF R' piv') : piv = piv' ∧ R = R' := by
  -- one is obtained from the other
  have main : ∀ {R R' : Matrix (Fin K) (Fin N) F} {B : Matrix (Fin K) (Fin K) F} {piv piv' : Fin K → Fin N},
      IsRREF R piv → IsRREF R' piv' → IsUnit B.det → R' = B * R → ∀ m, piv m ≤ piv' m := by
    intro R R' B piv piv' h h' hB e
    by_contra hc
    push Not at hc
    obtain ⟨m, hm⟩ := hc
    have hz : ∀ k : Fin K, k ≤ m → ∀ j : Fin K, m ≤ j → R j (piv' k) = 0 := by
      intro k hk j hj
      apply h.lead
      exact lt_of_le_of_lt (h'.mono.monotone hk) (lt_of_lt_of_le hm (h.mono.monotone hj))
    have hinv : ∀ k : Fin K, k ≤ m → ∀ j : Fin K, B⁻¹ j k = R j (piv' k) := by
      intro k hk j
      have h1 : R = B⁻¹ * R' := by
        rw [e, ← Matrix.mul_assoc, Matrix.nonsing_inv_mul _ hB, Matrix.one_mul]
      have h2 := congrFun (congrFun h1 j) (piv' k)
      rw [h2, Matrix.mul_apply]
      simp [h'.unit]
    -- hence the lower left block (rows ≥ m, columns ≤ m) of the invertible B⁻¹ vanishes: singular
    have hblock : ∀ j k : Fin K, m ≤ j → k ≤ m → B⁻¹ j k = 0 := fun j k hj hk => by rw [hinv k hk j, hz k hk j hj]
    have hBi : IsUnit (B⁻¹).det := by
      rw [Matrix.det_nonsing_inv]; exact (isUnit_ringInverse).mpr hB
    have hd : (B⁻¹).det = 0 := by
      rw [Matrix.det_apply]
      apply Finset.sum_eq_zero
      intro s _
      -- some column k ≤ m is mapped to a row j ≥ m
      have : ∃ k : Fin K, k ≤ m ∧ m ≤ s k := by
        by_contra hn
        push Not at hn
        have hcard := Finset.card_le_card_of_injOn (s := Finset.univ.filter (fun k : Fin K => k ≤ m))
          (t := Finset.univ.filter (fun k : Fin K => k < m)) s
          (by intro k hk
              simp only [Finset.coe_filter, Finset.mem_univ, true_and, Set.mem_ofPred_eq] at hk ⊢
              exact hn k hk)
          (s.injective.injOn)
        have hlt : (Finset.univ.filter (fun k : Fin K => k < m)).card < (Finset.univ.filter (fun k : Fin K => k ≤ m)).card := by
          apply Finset.card_lt_card
          rw [Finset.ssubset_iff_of_subset]
          · exact ⟨m, by simp, by simp⟩
          · intro k hk
            simp only [Finset.mem_filter, Finset.mem_univ, true_and] at hk ⊢
            exact le_of_lt hk
        omega
      obtain ⟨k, hk, hs⟩ := this
      have hp : ∏ i, B⁻¹ (s i) i = 0 := Finset.prod_eq_zero (i := k) (Finset.mem_univ k) (hblock (s k) k hs hk)
      rw [hp, smul_zero]
    rw [hd] at hBi
    exact not_isUnit_zero hBi
  have hinvU : IsUnit (U⁻¹).det := by rw [Matrix.det_nonsing_inv]; exact (isUnit_ringInverse).mpr hU
  have hinvU' : IsUnit (U'⁻¹).det := by rw [Matrix.det_nonsing_inv]; exact (isUnit_ringInverse).mpr hU'
  have e1 : R' = (U' * U⁻¹) * R := by
    rw [hR, Matrix.mul_assoc, ← Matrix.mul_assoc U⁻¹, Matrix.nonsing_inv_mul _ hU, Matrix.one_mul, hR']
  have e2 : R = (U * U'⁻¹) * R' := by
    rw [hR', Matrix.mul_assoc, ← Matrix.mul_assoc U'⁻¹, Matrix.nonsing_inv_mul _ hU', Matrix.one_mul, hR]
  have d1 : IsUnit (U' * U⁻¹).det := by rw [Matrix.det_mul]; exact hU'.mul hinvU
  have d2 : IsUnit (U * U'⁻¹).det := by rw [Matrix.det_mul]; exact hU.mul hinvU'
  have hp : piv = piv' := by
    funext m
    exact le_antisymm (main h h' d1 e1 m) (main h' h d2 e2 m)
  refine ⟨hp, ?_⟩
  subst hp
  -- the transformation is the identity on the pivot columns
  have hone : U' * U⁻¹ = 1 := by
    ext i k
    have h1 := congrFun (congrFun e1 i) (piv k)
    rw [h'.unit, Matrix.mul_apply] at h1
    simp only [h.unit] at h1
    simpa [Matrix.one_apply] using h1.symm
  rw [e1, hone, Matrix.one_mul]

/-- permuting and scaling columns keeps the rank: products of the public code and of decoded keys reduce successfully -/
theorem monomial_rank {M A : Matrix (Fin K) (Fin N) F} (p : Fin N → Fin N) (hp : Function.Surjective p) (c : Fin N → F)
    (hc : ∀ j, c j ≠ 0) (hA : ∀ i j, A i j = M i (p j) * c j)
    (h : ∀ v : Fin K → F, Matrix.vecMul v M = 0 → v = 0) : ∀ v : Fin K → F, Matrix.vecMul v A = 0 → v = 0 := by
  intro v hv
  apply h
  funext s
  obtain ⟨j, rfl⟩ := hp s
  have h1 := congrFun hv j
  simp only [Matrix.vecMul, dotProduct, hA, Pi.zero_apply] at h1 ⊢
  have h2 : (∑ x, v x * M x (p j)) * c j = 0 := by
    rw [Finset.sum_mul, ← h1]
    exact Finset.sum_congr rfl (fun x _ => by ring)
  exact (mul_eq_zero.mp h2).resolve_right (hc j)

/-- the public code is systematic, hence of rank K -/
theorem systematic_rank {M : Matrix (Fin K) (Fin N) F} (piv : Fin K → Fin N)
    (h : ∀ i k, M i (piv k) = if i = k then 1 else 0) : ∀ v : Fin K → F, Matrix.vecMul v M = 0 → v = 0 := by
  intro v hv
  funext k
  have := congrFun hv (piv k)
  simpa [Matrix.vecMul, dotProduct, h] using this

end Rref
