import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Data.Nat.Count
import Mathlib.Tactic.Ring
import Mathlib.Tactic.Linarith

/-!
Room for the published seeds (C15, C22).  In the heap-shaped seed tree of height `D` a node is flagged iff a hidden
round lies below it, and published iff it is not flagged while its parent is.  `bound`: a table that dominates every
split of every subtree bounds the number of published nodes.
-/

namespace Space

/-- sum over the inner nodes of the subtree of height d at i -/
def tsum (g : ℕ → ℕ) : ℕ → ℕ → ℕ
  | 0, _ => 0
  | d + 1, i => g i + tsum g d (2 * i + 1) + tsum g d (2 * i + 2)

/-- sum over its leaves -/
def lsum (h : ℕ → ℕ) : ℕ → ℕ → ℕ
  | 0, i => h i
  | d + 1, i => lsum h d (2 * i + 1) + lsum h d (2 * i + 2)

theorem tsum_two (g : ℕ → ℕ) (d i : ℕ) :
    tsum g d (2 * i + 1) + tsum g d (2 * i + 2) = tsum (fun j => g (2 * j + 1) + g (2 * j + 2)) d i := by
  induction d generalizing i with
  | zero => simp [tsum]
  | succ d ih =>
    have h1 := ih (2 * i + 1)
    have h2 := ih (2 * i + 2)
    simp only [tsum]
    omega

theorem lsum_two (h : ℕ → ℕ) (d i : ℕ) :
    lsum h d (2 * i + 1) + lsum h d (2 * i + 2) = lsum (fun j => h (2 * j + 1) + h (2 * j + 2)) d i := by
  induction d generalizing i with
  | zero => simp [lsum]
  | succ d ih =>
    have h1 := ih (2 * i + 1)
    have h2 := ih (2 * i + 2)
    simp only [lsum]
    omega

theorem sum_odd (g : ℕ → ℕ) (n : ℕ) :
    ∑ j ∈ Finset.range (2 * n + 1), g j = g 0 + ∑ j ∈ Finset.range n, (g (2 * j + 1) + g (2 * j + 2)) := by
  induction n with
  | zero => simp
  | succ n ih =>
    have : 2 * (n + 1) + 1 = (2 * n + 1) + 1 + 1 := by ring
    rw [this, Finset.sum_range_succ, Finset.sum_range_succ, ih, Finset.sum_range_succ]
    ring

theorem sum_even (g : ℕ → ℕ) (n : ℕ) :
    ∑ j ∈ Finset.range (2 * n), g j = ∑ j ∈ Finset.range n, (g (2 * j) + g (2 * j + 1)) := by
  induction n with
  | zero => simp
  | succ n ih =>
    have : 2 * (n + 1) = 2 * n + 1 + 1 := by ring
    rw [this, Finset.sum_range_succ, Finset.sum_range_succ, ih, Finset.sum_range_succ]
    ring

/-- the inner nodes are exactly the first 2^d - 1 indices -/
theorem tsum_range (g : ℕ → ℕ) (d : ℕ) : tsum g d 0 = ∑ j ∈ Finset.range (2 ^ d - 1), g j := by
  induction d generalizing g with
  | zero => simp [tsum]
  | succ d ih =>
    have h := tsum_two g d 0
    have e : 2 ^ (d + 1) - 1 = 2 * (2 ^ d - 1) + 1 := by
      have := Nat.one_le_two_pow (n := d)
      rw [pow_succ]; omega
    rw [e, sum_odd, ← ih (fun j => g (2 * j + 1) + g (2 * j + 2)), ← h]
    simp only [tsum]
    ring

/-- the leaves are the 2^d indices from 2^d - 1 on -/
theorem lsum_range (h : ℕ → ℕ) (d : ℕ) : lsum h d 0 = ∑ l ∈ Finset.range (2 ^ d), h (2 ^ d - 1 + l) := by
  induction d generalizing h with
  | zero => simp [lsum]
  | succ d ih =>
    have t := lsum_two h d 0
    have e : 2 ^ (d + 1) = 2 * 2 ^ d := by rw [pow_succ]; ring
    have p := Nat.one_le_two_pow (n := d)
    rw [e, sum_even]
    simp only [lsum]
    rw [t, ih]
    refine Finset.sum_congr rfl fun l _ => ?_
    have a : 2 * (2 ^ d - 1 + l) + 1 = 2 * 2 ^ d - 1 + 2 * l := by omega
    have b : 2 * (2 ^ d - 1 + l) + 2 = 2 * 2 ^ d - 1 + (2 * l + 1) := by omega
    simp only [a, b]

section
variable (FL : ℕ → Prop) [DecidablePred FL]

/-- published: not flagged below a flagged parent -/
def Pub (j : ℕ) : Prop := j ≠ 0 ∧ ¬ FL j ∧ FL ((j - 1) / 2)

instance : DecidablePred (Pub FL) := fun j => by unfold Pub; infer_instance

def ind (P : ℕ → Prop) [DecidablePred P] (j : ℕ) : ℕ := if P j then 1 else 0

/-- published nodes strictly below i -/
def pubs (d i : ℕ) : ℕ := tsum (fun j => ind (Pub FL) (2 * j + 1) + ind (Pub FL) (2 * j + 2)) d i

/-- hidden leaves below i -/
def hids (d i : ℕ) : ℕ := lsum (ind FL) d i

theorem flag_iff (D : ℕ) (hn : ∀ j, j < 2 ^ D - 1 → (FL j ↔ FL (2 * j + 1) ∨ FL (2 * j + 2)))
    (d i : ℕ) (hi : (i + 2) * 2 ^ d ≤ 2 ^ (D + 1)) : FL i ↔ 0 < hids FL d i := by
  induction d generalizing i with
  | zero => by_cases h : FL i <;> simp [hids, lsum, ind, h]
  | succ d ih =>
    have e : (i + 2) * 2 ^ (d + 1) = 2 * ((i + 2) * 2 ^ d) := by rw [pow_succ]; ring
    have e2 : 2 ^ (D + 1) = 2 * 2 ^ D := by rw [pow_succ]; ring
    have e3 : (2 * i + 1 + 2) * 2 ^ d + 2 ^ d = 2 * ((i + 2) * 2 ^ d) := by ring
    have e4 : (2 * i + 2 + 2) * 2 ^ d = 2 * ((i + 2) * 2 ^ d) := by ring
    have p := Nat.one_le_two_pow (n := d)
    have l1 : i + 2 ≤ (i + 2) * 2 ^ d := Nat.le_mul_of_pos_right _ (by omega)
    have h1 := ih (2 * i + 1) (by omega)
    have h2 := ih (2 * i + 2) (by omega)
    rw [hn i (by omega), h1, h2]
    simp only [hids, lsum]
    omega

theorem pubs_zero (D : ℕ) (hn : ∀ j, j < 2 ^ D - 1 → (FL j ↔ FL (2 * j + 1) ∨ FL (2 * j + 2)))
    (d i : ℕ) (hi : (i + 2) * 2 ^ d ≤ 2 ^ (D + 1)) (h0 : hids FL d i = 0) : pubs FL d i = 0 := by
  induction d generalizing i with
  | zero => simp [pubs, tsum]
  | succ d ih =>
    have hf := flag_iff FL D hn (d + 1) i hi
    have nf : ¬ FL i := by rw [hf]; omega
    have e : (i + 2) * 2 ^ (d + 1) = 2 * ((i + 2) * 2 ^ d) := by rw [pow_succ]; ring
    have e3 : (2 * i + 1 + 2) * 2 ^ d + 2 ^ d = 2 * ((i + 2) * 2 ^ d) := by ring
    have e4 : (2 * i + 2 + 2) * 2 ^ d = 2 * ((i + 2) * 2 ^ d) := by ring
    have z : hids FL (d + 1) i = hids FL d (2 * i + 1) + hids FL d (2 * i + 2) := rfl
    have p := Nat.one_le_two_pow (n := d)
    have h1 := ih (2 * i + 1) (by omega) (by omega)
    have h2 := ih (2 * i + 2) (by omega) (by omega)
    have q1 : (2 * i + 1 - 1) / 2 = i := by omega
    have q2 : (2 * i + 2 - 1) / 2 = i := by omega
    have z2 : pubs FL (d + 1) i = ind (Pub FL) (2 * i + 1) + ind (Pub FL) (2 * i + 2) + pubs FL d (2 * i + 1) + pubs FL d (2 * i + 2) := rfl
    have n1 : ¬ Pub FL (2 * i + 1) := fun h => nf (q1 ▸ h.2.2)
    have n2 : ¬ Pub FL (2 * i + 2) := fun h => nf (q2 ▸ h.2.2)
    rw [z2, h1, h2]
    simp [ind, n1, n2]

theorem below (D W : ℕ) (hn : ∀ j, j < 2 ^ D - 1 → (FL j ↔ FL (2 * j + 1) ∨ FL (2 * j + 2)))
    (tab : ℕ → ℕ → ℕ → Option ℕ) (R : ℕ → ℕ → Prop)
    (hR : ∀ d r, R (d + 1) r → R d (min r (2 ^ d)) ∧ R d (r - 2 ^ d))
    (h0 : ∀ d r, R d r → tab d r 0 = some 0)
    (h1 : ∀ r, R 0 r → 0 < r → tab 0 r 1 = some 0)
    (hs : ∀ d r x y u v, R (d + 1) r → tab d (min r (2 ^ d)) x = some u → tab d (r - 2 ^ d) y = some v →
      0 < x + y → x + y ≤ W →
      ∃ t, tab (d + 1) r (x + y) = some t ∧ u + v + (if x = 0 then 1 else 0) + (if y = 0 then 1 else 0) ≤ t)
    (d i r : ℕ) (hi : (i + 2) * 2 ^ d ≤ 2 ^ (D + 1)) (hr : R d r)
    (hreal : ∀ k, r ≤ k → k < 2 ^ d → ¬ FL ((i + 1) * 2 ^ d - 1 + k)) (hW : hids FL d i ≤ W) :
    ∃ t, tab d r (hids FL d i) = some t ∧ pubs FL d i ≤ t := by
  induction d generalizing i r with
  | zero =>
    by_cases hf : FL i
    · have hid : hids FL 0 i = 1 := by simp [hids, lsum, ind, hf]
      have rp : 0 < r := by
        by_contra hc
        have := hreal 0 (by omega) (by simp)
        simp at this
        exact this hf
      exact ⟨0, by rw [hid]; exact h1 r hr rp, by simp [pubs, tsum]⟩
    · have hid : hids FL 0 i = 0 := by simp [hids, lsum, ind, hf]
      exact ⟨0, by rw [hid]; exact h0 0 r hr, by simp [pubs, tsum]⟩
  | succ d ih =>
    by_cases hz : hids FL (d + 1) i = 0
    · exact ⟨0, by rw [hz]; exact h0 _ r hr, by rw [pubs_zero FL D hn (d + 1) i hi hz]⟩
    have e : (i + 2) * 2 ^ (d + 1) = 2 * ((i + 2) * 2 ^ d) := by rw [pow_succ]; ring
    have e1 : (i + 1) * 2 ^ (d + 1) = 2 * ((i + 1) * 2 ^ d) := by rw [pow_succ]; ring
    have e3 : (2 * i + 1 + 2) * 2 ^ d + 2 ^ d = 2 * ((i + 2) * 2 ^ d) := by ring
    have e4 : (2 * i + 2 + 2) * 2 ^ d = 2 * ((i + 2) * 2 ^ d) := by ring
    have e5 : (2 * i + 1 + 1) * 2 ^ d = 2 * ((i + 1) * 2 ^ d) := by ring
    have e6 : (2 * i + 2 + 1) * 2 ^ d = 2 * ((i + 1) * 2 ^ d) + 2 ^ d := by ring
    have e7 : 2 ^ (d + 1) = 2 * 2 ^ d := by rw [pow_succ]; ring
    have p := Nat.one_le_two_pow (n := d)
    have p2 : 2 ^ d ≤ (i + 1) * 2 ^ d := Nat.le_mul_of_pos_left _ (by omega)
    have z : hids FL (d + 1) i = hids FL d (2 * i + 1) + hids FL d (2 * i + 2) := rfl
    obtain ⟨r1, r2⟩ := hR d r hr
    obtain ⟨u, hu, pu⟩ := ih (2 * i + 1) (min r (2 ^ d)) (by omega) r1 (by
      intro k hk hk2
      have := hreal k (by omega) (by omega)
      rwa [e1, ← e5] at this) (by omega)
    obtain ⟨v, hv, pv⟩ := ih (2 * i + 2) (r - 2 ^ d) (by omega) r2 (by
      intro k hk hk2
      have := hreal (2 ^ d + k) (by omega) (by omega)
      have q : (i + 1) * 2 ^ (d + 1) - 1 + (2 ^ d + k) = (2 * i + 2 + 1) * 2 ^ d - 1 + k := by omega
      rwa [q] at this) (by omega)
    obtain ⟨t, ht, hle⟩ := hs d r _ _ u v hr hu hv (by omega) (by omega)
    refine ⟨t, by rw [z]; exact ht, ?_⟩
    have f1 := flag_iff FL D hn d (2 * i + 1) (by omega)
    have f2 := flag_iff FL D hn d (2 * i + 2) (by omega)
    have z2 : pubs FL (d + 1) i = ind (Pub FL) (2 * i + 1) + ind (Pub FL) (2 * i + 2) + pubs FL d (2 * i + 1) + pubs FL d (2 * i + 2) := rfl
    have b1 : ind (Pub FL) (2 * i + 1) ≤ if hids FL d (2 * i + 1) = 0 then 1 else 0 := by
      unfold ind
      by_cases h : Pub FL (2 * i + 1)
      · have : ¬ FL (2 * i + 1) := h.2.1
        rw [f1] at this
        simp [h, show hids FL d (2 * i + 1) = 0 by omega]
      · simp [h]
    have b2 : ind (Pub FL) (2 * i + 2) ≤ if hids FL d (2 * i + 2) = 0 then 1 else 0 := by
      unfold ind
      by_cases h : Pub FL (2 * i + 2)
      · have : ¬ FL (2 * i + 2) := h.2.1
        rw [f2] at this
        simp [h, show hids FL d (2 * i + 2) = 0 by omega]
      · simp [h]
    rw [z2]
    omega

theorem sum_ind_count (P : ℕ → Prop) [DecidablePred P] (n : ℕ) : ∑ j ∈ Finset.range n, ind P j = Nat.count P n := by
  induction n with
  | zero => simp
  | succ n ih => rw [Finset.sum_range_succ, ih, Nat.count_succ]; rfl

/-- the number of published nodes of the whole tree is at most the entry of the table -/
theorem bound (D T W : ℕ) (hid : ℕ → Prop) [DecidablePred hid]
    (hn : ∀ j, j < 2 ^ D - 1 → (FL j ↔ FL (2 * j + 1) ∨ FL (2 * j + 2)))
    (hl : ∀ l, l < 2 ^ D → (FL (2 ^ D - 1 + l) ↔ hid l)) (hT : ∀ l, T ≤ l → ¬ hid l)
    (hw : Nat.count hid (2 ^ D) = W)
    (tab : ℕ → ℕ → ℕ → Option ℕ) (R : ℕ → ℕ → Prop) (hR0 : R D T)
    (hR : ∀ d r, R (d + 1) r → R d (min r (2 ^ d)) ∧ R d (r - 2 ^ d))
    (h0 : ∀ d r, R d r → tab d r 0 = some 0)
    (h1 : ∀ r, R 0 r → 0 < r → tab 0 r 1 = some 0)
    (hs : ∀ d r x y u v, R (d + 1) r → tab d (min r (2 ^ d)) x = some u → tab d (r - 2 ^ d) y = some v →
      0 < x + y → x + y ≤ W →
      ∃ t, tab (d + 1) r (x + y) = some t ∧ u + v + (if x = 0 then 1 else 0) + (if y = 0 then 1 else 0) ≤ t) :
    ∃ t, tab D T W = some t ∧ Nat.count (Pub FL) (2 ^ (D + 1) - 1) ≤ t := by
  have p := Nat.one_le_two_pow (n := D)
  have e : 2 ^ (D + 1) = 2 * 2 ^ D := by rw [pow_succ]; ring
  have hh : hids FL D 0 = W := by
    unfold hids
    rw [lsum_range, ← hw, ← sum_ind_count]
    refine Finset.sum_congr rfl fun l hl' => ?_
    unfold ind
    have := hl l (Finset.mem_range.mp hl')
    by_cases h : hid l <;> simp [this, h]
  have hp : Nat.count (Pub FL) (2 ^ (D + 1) - 1) = pubs FL D 0 := by
    unfold pubs
    rw [tsum_range, ← sum_ind_count, show 2 ^ (D + 1) - 1 = 2 * (2 ^ D - 1) + 1 by omega, sum_odd]
    simp [ind, Pub]
  obtain ⟨t, ht, hle⟩ := below FL D W hn tab R hR h0 h1 hs D 0 T (by omega) hR0 (by
    intro k hk hk2
    have := hl k hk2
    rw [show (0 + 1) * 2 ^ D - 1 + k = 2 ^ D - 1 + k by omega, this]
    exact hT k hk) (by omega)
  exact ⟨t, by rw [← hh]; exact ht, by omega⟩

end
end Space
