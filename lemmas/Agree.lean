import Mathlib.Data.Matrix.Mul
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse

/-!
Agreement of signer and verifier on the commitment object of a hidden round (property C24).
The hypotheses are the postconditions of the functions under contract, read as matrices:
`generator_monomial_mul` (C07), `monomial_mat_inv`, `monomial_compose_action` (C02),
`generator_RREF` (C08), `prepare_digest_input`, `apply_action_to_G` (C13), `lex_minimize` (C11),
`lex_sort_cols` (C12).
-/

namespace Agree

variable {F : Type*} [Field F] {K N : ℕ}

/-- reduced row-echelon form with pivot columns `piv` -/
structure IsRREF (R : Matrix (Fin K) (Fin N) F) (piv : Fin K → Fin N) : Prop where
  mono : StrictMono piv
  unit : ∀ i k, R i (piv k) = if i = k then 1 else 0
  lead : ∀ i j, j < piv i → R i j = 0

/-- column `s` scaled by `c s` moves to column `p s` -/
def app (G : Matrix (Fin K) (Fin N) F) (p : Equiv.Perm (Fin N)) (c : Fin N → F) : Matrix (Fin K) (Fin N) F :=
  fun i j => G i (p.symm j) * c (p.symm j)

def col (M : Matrix (Fin K) (Fin N) F) (j : Fin N) : Fin K → F := fun i => M i j

theorem col_mul (W : Matrix (Fin K) (Fin K) F) (M : Matrix (Fin K) (Fin N) F) (j : Fin N) :
    col (W * M) j = W.mulVec (col M j) := by
  funext i; simp [col, Matrix.mul_apply, Matrix.mulVec, dotProduct]

theorem col_app (G : Matrix (Fin K) (Fin N) F) (p : Equiv.Perm (Fin N)) (c : Fin N → F) (s : Fin N) :
    col (app G p c) (p s) = c s • col G s := by
  funext i; simp [col, app, mul_comm]

/-- a reduced row-echelon form whose first K columns are an invertible matrix times unit vectors has its pivots there -/
theorem pivots_first {R : Matrix (Fin K) (Fin N) F} {piv : Fin K → Fin N} (h : IsRREF R piv) (hKN : K ≤ N)
    (B : Matrix (Fin K) (Fin K) F) (hB : IsUnit B.det)
    (hcol : ∀ m i, R i (Fin.castLE hKN m) = B i m) : ∀ m, piv m = Fin.castLE hKN m := by
  -- every pivot lies at or after its index
  have hge : ∀ m : Fin K, (m : ℕ) ≤ (piv m : ℕ) := by
    intro m
    obtain ⟨m, hm⟩ := m
    induction m with
    | zero => simp
    | succ n ih =>
      have := ih (by omega)
      have h2 : piv ⟨n, by omega⟩ < piv ⟨n + 1, hm⟩ := h.mono (by simp)
      have h3 : (piv ⟨n, by omega⟩ : ℕ) < (piv ⟨n + 1, hm⟩ : ℕ) := h2
      simp only at this ⊢
      omega
  by_contra hne
  push Not at hne
  obtain ⟨m, hm⟩ := hne
  -- row (last) of B vanishes
  have hgt : (m : ℕ) < (piv m : ℕ) := by
    have := hge m
    rcases Nat.lt_or_ge (m : ℕ) (piv m : ℕ) with h1 | h1
    · exact h1
    · exfalso; apply hm; apply Fin.ext; simp; omega
  have hK : 0 < K := Nat.lt_of_le_of_lt (Nat.zero_le _) m.isLt
  let l : Fin K := ⟨K - 1, by omega⟩
  have hl : K ≤ (piv l : ℕ) := by
    -- strictly monotone: piv l ≥ piv m + (l - m)
    have hstep : ∀ d : ℕ, ∀ hd : (m : ℕ) + d < K, (piv m : ℕ) + d ≤ (piv ⟨m + d, hd⟩ : ℕ) := by
      intro d
      induction d with
      | zero => intro hd; simp
      | succ n ih =>
        intro hd
        have h1 := ih (by omega)
        have h2 : piv ⟨m + n, by omega⟩ < piv ⟨m + (n + 1), hd⟩ := h.mono (by simp [Fin.lt_def])
        have h3 : (piv ⟨m + n, by omega⟩ : ℕ) < (piv ⟨m + (n + 1), hd⟩ : ℕ) := h2
        omega
    have hmK := m.isLt
    have := hstep (K - 1 - m) (by omega)
    have e : (⟨(m : ℕ) + (K - 1 - m), by omega⟩ : Fin K) = l := by
      apply Fin.ext; simp [l]; omega
    rw [e] at this
    omega
  have hrow : ∀ m', B l m' = 0 := by
    intro m'
    rw [← hcol]
    apply h.lead
    rw [Fin.lt_def]
    have := m'.isLt
    simp
    omega
  have : B.det = 0 := Matrix.det_eq_zero_of_row_eq_zero l hrow
  rw [this] at hB
  exact not_isUnit_zero hB

/-- signer and verifier obtain the same lines as non-pivot columns -/
theorem agree (hKN : K ≤ N)
    (G0 : Matrix (Fin K) (Fin N) F) (pv pe : Equiv.Perm (Fin N)) (cv ce : Fin N → F)
    (hcv : ∀ i, cv i ≠ 0) (hce : ∀ i, ce i ≠ 0)
    -- key generation: P is the reduced image of the public code under the inverse of the private monomial (pv, cv)
    (P : Matrix (Fin K) (Fin N) F) (U : Matrix (Fin K) (Fin K) F) (hU : IsUnit U.det)
    (hP : P = U * app G0 pv.symm (fun j => (cv (pv.symm j))⁻¹))
    -- signer: R is the reduced product of the public code and the ephemeral monomial (pe, ce)
    (R : Matrix (Fin K) (Fin N) F) (W : Matrix (Fin K) (Fin K) F) (hW : IsUnit W.det)
    (hR : R = W * app G0 pe ce) (piv : Fin K → Fin N) (hRR : IsRREF R piv)
    -- the action of the round: source column and coefficient that land on the m-th pivot
    (q : Fin K → Fin N) (a : Fin K → F) (hq : ∀ m, pe (q m) = piv m) (ha : ∀ m, a m = ce (q m))
    -- the response: preimage column under the private monomial, product of the coefficients
    (t : Fin K → Fin N) (d : Fin K → F) (ht : ∀ m, pv (t m) = q m) (hd : ∀ m, d m = a m * cv (t m))
    -- verifier: scaled picked columns first, then the unused columns in order
    (A : Matrix (Fin K) (Fin N) F) (hA : ∀ m i, A i (Fin.castLE hKN m) = P i (t m) * d m)
    (u : Fin N → Fin N) (huinj : ∀ x y : Fin N, K ≤ (x : ℕ) → K ≤ (y : ℕ) → u x = u y → x = y)
    (hurange : ∀ s, (∃ x : Fin N, K ≤ (x : ℕ) ∧ u x = s) ↔ ∀ m, t m ≠ s)
    (hrest : ∀ (x : Fin N) (i : Fin K), K ≤ (x : ℕ) → A i x = P i (u x))
    (R' : Matrix (Fin K) (Fin N) F) (W' : Matrix (Fin K) (Fin K) F) (hW' : IsUnit W'.det)
    (hR' : R' = W' * A) (piv' : Fin K → Fin N) (hRR' : IsRREF R' piv')
    -- normalisation depends only on the line
    (nrm : (Fin K → F) → (Fin K → F)) (hn : ∀ (c : F) (v : Fin K → F), c ≠ 0 → nrm (c • v) = nrm v) :
    (∀ m, piv' m = Fin.castLE hKN m) ∧
    Multiset.map (fun j => nrm (col R' j)) (Finset.univ.filter (fun j => ∀ m, piv' m ≠ j)).val =
    Multiset.map (fun j => nrm (col R j)) (Finset.univ.filter (fun j => ∀ m, piv m ≠ j)).val := by
  -- a column of the public key
  have hPcol : ∀ s, col P s = U.mulVec ((cv s)⁻¹ • col G0 (pv s)) := by
    intro s
    rw [hP, col_mul]
    have := col_app G0 pv.symm (fun j => (cv (pv.symm j))⁻¹) (pv s)
    simp at this
    rw [this]
  -- a column of the signer's reduced matrix
  have hRcol : ∀ s, col R (pe s) = W.mulVec (ce s • col G0 s) := by
    intro s; rw [hR, col_mul, col_app]
  have hWinv : ∀ v, W⁻¹.mulVec (W.mulVec v) = v := by
    intro v; rw [Matrix.mulVec_mulVec, Matrix.nonsing_inv_mul _ hW, Matrix.one_mulVec]
  have hG : ∀ s, ce s • col G0 s = W⁻¹.mulVec (col R (pe s)) := by
    intro s; rw [hRcol, hWinv]
  -- columns of P in terms of columns of R
  have hPR : ∀ s, col P s = ((cv s)⁻¹ * (ce (pv s))⁻¹) • (U * W⁻¹).mulVec (col R (pe (pv s))) := by
    intro s
    rw [hPcol, ← Matrix.mulVec_mulVec, ← hG, Matrix.mulVec_smul, Matrix.mulVec_smul, smul_smul,
      mul_assoc, inv_mul_cancel₀ (hce _), mul_one]
  set B : Matrix (Fin K) (Fin K) F := W' * (U * W⁻¹) with hBdef
  have hWi : IsUnit (W⁻¹).det := by
    rw [Matrix.det_nonsing_inv]; exact (isUnit_ringInverse).mpr hW
  have hBu : IsUnit B.det := by
    rw [hBdef, Matrix.det_mul, Matrix.det_mul]; exact hW'.mul (hU.mul hWi)
  -- the picked columns become B times unit vectors
  have hunitcol : ∀ m, col R (piv m) = Pi.single m 1 := by
    intro m; funext i
    simp [col, hRR.unit, Pi.single_apply]
  have hfirst : ∀ m i, R' i (Fin.castLE hKN m) = B i m := by
    intro m i
    have h1 : col A (Fin.castLE hKN m) = (U * W⁻¹).mulVec (Pi.single m 1) := by
      have h2 : col A (Fin.castLE hKN m) = d m • col P (t m) := by
        funext i; simp [col, hA, mul_comm]
      rw [h2, hPR, smul_smul, ht, hq, hunitcol, hd, ha]
      have : ce (q m) * cv (t m) * ((cv (t m))⁻¹ * (ce (q m))⁻¹) = 1 := by
        have := hcv (t m); have := hce (q m); field_simp
      rw [this, one_smul]
    have h3 : col R' (Fin.castLE hKN m) = B.mulVec (Pi.single m 1) := by
      rw [hR', col_mul, h1, Matrix.mulVec_mulVec]
    have h4 := congrFun h3 i
    simpa [col] using h4
  have hpiv' := pivots_first hRR' hKN B hBu hfirst
  refine ⟨hpiv', ?_⟩
  -- hence B is the identity
  have hB1 : B = 1 := by
    ext i m
    rw [← hfirst, ← hpiv', hRR'.unit, Matrix.one_apply]
  -- the remaining columns are nonzero multiples of the non-pivot columns of R
  have hline : ∀ x : Fin N, K ≤ (x : ℕ) → nrm (col R' x) = nrm (col R (pe (pv (u x)))) := by
    intro x hx
    have h2 : col A x = col P (u x) := by funext i; simp [col, hrest x i hx]
    rw [hR', col_mul, h2, hPR, Matrix.mulVec_smul, Matrix.mulVec_mulVec, ← hBdef, hB1, Matrix.one_mulVec]
    exact hn _ _ (mul_ne_zero (inv_ne_zero (hcv _)) (inv_ne_zero (hce _)))
  have hmem' : ∀ x : Fin N, (∀ m, piv' m ≠ x) ↔ K ≤ (x : ℕ) := by
    intro x
    constructor
    · intro h
      by_contra hlt
      push Not at hlt
      apply h ⟨x, hlt⟩
      rw [hpiv']; apply Fin.ext; simp
    · intro h m e
      rw [hpiv'] at e
      have := congrArg Fin.val e
      simp at this
      have := m.isLt
      omega
  -- t m is the preimage of the m-th pivot
  have htp : ∀ s, (∀ m, t m ≠ s) ↔ ∀ m, piv m ≠ pe (pv s) := by
    intro s
    constructor
    · intro h m e
      apply h m
      rw [← hq] at e
      have := pe.injective e
      rw [← ht] at this
      exact pv.injective this
    · intro h m e
      apply h m
      rw [← e, ht, hq]
  have himg : Finset.univ.filter (fun j => ∀ m, piv m ≠ j) =
      (Finset.univ.filter (fun j => ∀ m, piv' m ≠ j)).image (fun x => pe (pv (u x))) := by
    ext j
    simp only [Finset.mem_filter, Finset.mem_univ, true_and, Finset.mem_image]
    constructor
    · intro h
      have h1 : ∀ m, t m ≠ pv.symm (pe.symm j) := by
        rw [htp]; simpa using h
      obtain ⟨x, hx, e⟩ := (hurange _).mpr h1
      exact ⟨x, (hmem' x).mpr hx, by rw [e]; simp⟩
    · rintro ⟨x, hx, rfl⟩
      have := (hurange (u x)).mp ⟨x, (hmem' x).mp hx, rfl⟩
      exact (htp _).mp this
  have hinj : Set.InjOn (fun x => pe (pv (u x))) ((Finset.univ.filter (fun j => ∀ m, piv' m ≠ j) : Finset (Fin N)) : Set (Fin N)) := by
    intro x hx y hy e
    simp only [Finset.coe_filter, Finset.mem_univ, true_and, Set.mem_ofPred_eq] at hx hy
    exact huinj x y ((hmem' x).mp hx) ((hmem' y).mp hy) (pv.injective (pe.injective e))
  rw [himg, Finset.image_val_of_injOn hinj, Multiset.map_map]
  apply Multiset.map_congr rfl
  intro x hx
  have hx' : ∀ m, piv' m ≠ x := by simpa using hx
  exact hline x ((hmem' x).mp hx')

/-- two sorted lists of the same multiset of columns are equal, so the sorted commitment objects agree -/
theorem sorted_agree {C : Type*} [LinearOrder C] (l l' : List C) (h : l.Pairwise (· ≤ ·)) (h' : l'.Pairwise (· ≤ ·))
    (e : (l : Multiset C) = (l' : Multiset C)) : l = l' :=
  (Multiset.coe_eq_coe.mp e).eq_of_pairwise (fun _ _ _ _ h1 h2 => le_antisymm h1 h2) h h'

end Agree

