import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Tactic

open Finset

variable {R : Type*} [CommRing R]

/-- A bank: analysis filters dl dh, synthesis filters rl rh, indexed by ℤ and zero outside [0,F). -/
structure Bank (F : ℕ) (dl dh rl rh : ℤ → R) : Prop where
  sdl : ∀ i : ℤ, i < 0 ∨ (F : ℤ) ≤ i → dl i = 0
  sdh : ∀ i : ℤ, i < 0 ∨ (F : ℤ) ≤ i → dh i = 0
  /-- perfect reconstruction, both phases -/
  pr : ∀ (e s : ℤ), ∑ t ∈ (range F).filter (fun t : ℕ => (2 : ℤ) ∣ (e - t)),
        (rl t * dl (s - t) + rh t * dh (s - t)) = if s = F - 1 then 1 else 0

theorem reindex (F : ℕ) (d : ℤ → R) (h : ∀ i : ℤ, i < 0 ∨ (F : ℤ) ≤ i → d i = 0) (x : ℤ → R) (t : ℕ) (ht : t < F) (b : ℤ) :
    ∑ j ∈ range F, d j * x (b - t - j) = ∑ s ∈ range (2 * F), d (s - t) * x (b - s) := by
  symm
  rw [← Finset.sum_subset (s₁ := (range F).image (fun j => j + t))]
  · rw [Finset.sum_image (by intro a _ c _ hh; simpa using hh)]
    refine Finset.sum_congr rfl (fun j _ => ?_)
    congr 1 <;> congr 1 <;> push_cast <;> ring
  · intro s hs
    simp only [mem_image, mem_range] at hs ⊢
    omega
  · intro s _ hs
    have : d (s - t) = 0 := by
      apply h
      simp only [mem_image, mem_range, not_exists, not_and] at hs
      by_contra hc
      push Not at hc
      exact hs (s - t) (by omega) (by omega)
    rw [this, zero_mul]

theorem pr_core (F : ℕ) (dl dh rl rh : ℤ → R) (B : Bank F dl dh rl rh) (x : ℤ → R) (a b p : ℤ) (hab : a + b = F - 1) :
    ∑ t ∈ (range F).filter (fun t : ℕ => (2 : ℤ) ∣ (p + b - t)),
      (rl t * ∑ j ∈ range F, dl j * x (a + 2 * ((p + b - t) / 2) - j)
       + rh t * ∑ j ∈ range F, dh j * x (a + 2 * ((p + b - t) / 2) - j)) = x p := by
  have h1 : ∀ t ∈ (range F).filter (fun t : ℕ => (2 : ℤ) ∣ (p + b - t)),
      (rl t * ∑ j ∈ range F, dl j * x (a + 2 * ((p + b - t) / 2) - j)
       + rh t * ∑ j ∈ range F, dh j * x (a + 2 * ((p + b - t) / 2) - j))
      = ∑ s ∈ range (2 * F), (rl t * dl (s - t) + rh t * dh (s - t)) * x (p + F - 1 - s) := by
    intro t ht
    rw [mem_filter, mem_range] at ht
    have e : a + 2 * ((p + b - t) / 2) = p + F - 1 - t := by
      have := Int.mul_ediv_cancel' ht.2
      omega
    simp only [e]
    rw [reindex F dl B.sdl x t ht.1, reindex F dh B.sdh x t ht.1, Finset.mul_sum, Finset.mul_sum, ← Finset.sum_add_distrib]
    refine Finset.sum_congr rfl (fun s _ => ?_)
    ring
  rw [Finset.sum_congr rfl h1, Finset.sum_comm]
  have h2 : ∀ s ∈ range (2 * F),
      (∑ t ∈ (range F).filter (fun t : ℕ => (2 : ℤ) ∣ (p + b - t)), (rl t * dl ((s:ℤ) - t) + rh t * dh ((s:ℤ) - t)) * x (p + F - 1 - s))
      = if s = F - 1 then x p else 0 := by
    intro s hs
    rw [mem_range] at hs
    rw [← Finset.sum_mul, B.pr]
    by_cases hF : s = F - 1
    · have : (s : ℤ) = F - 1 := by omega
      rw [if_pos this, if_pos hF, one_mul]
      congr 1
      omega
    · have : ¬ (s : ℤ) = F - 1 := by omega
      rw [if_neg this, if_neg hF, zero_mul]
  rw [Finset.sum_congr rfl h2]
  by_cases hF : F = 0
  · subst hF
    have := B.pr 0 (-1)
    simp at this
    have h0 : ∀ y : R, y = 0 := fun y => by rw [← mul_one y, ← this, mul_zero]
    rw [h0 (x p)]; simp
  · rw [Finset.sum_ite_eq' (range (2 * F)) (F - 1) (fun _ => x p), if_pos (mem_range.2 (by omega))]

/-- contract of the reconstruction (valid range): sum over stored coefficients; equals the phase sum of pr_core -/
theorem synth (F N n : ℕ) (c r : ℤ → R) (hr : ∀ i : ℤ, i < 0 ∨ (F : ℤ) ≤ i → r i = 0) (hn : n = (N + F - 1) / 2) (p : ℕ) (hp : p < N) :
    ∑ k ∈ range n, c k * r (p + F - 2 - 2 * k)
      = ∑ t ∈ (range F).filter (fun t : ℕ => (2 : ℤ) ∣ ((p : ℤ) + (F - 2) - t)), r t * c (((p : ℤ) + (F - 2) - t) / 2) := by
  rw [← Finset.sum_subset (s₁ := (range n).filter (fun k : ℕ => 0 ≤ (p : ℤ) + F - 2 - 2 * k ∧ (p : ℤ) + F - 2 - 2 * k < F))]
  · refine Finset.sum_bij' (fun k _ => ((p : ℤ) + F - 2 - 2 * k).toNat) (fun t _ => (((p : ℤ) + (F - 2) - t) / 2).toNat) ?_ ?_ ?_ ?_ ?_
    · intro k hk; rw [mem_filter, mem_range] at hk; rw [mem_filter, mem_range]
      refine ⟨by omega, ?_⟩
      rw [Int.toNat_of_nonneg (by omega)]
      exact ⟨k, by ring⟩
    · intro t ht; rw [mem_filter, mem_range] at ht; rw [mem_filter, mem_range]
      omega
    · intro k hk; rw [mem_filter, mem_range] at hk
      omega
    · intro t ht; rw [mem_filter, mem_range] at ht
      omega
    · intro k hk; rw [mem_filter, mem_range] at hk
      rw [Int.toNat_of_nonneg (by omega)]
      have : ((p : ℤ) + (F - 2) - ((p : ℤ) + F - 2 - 2 * k)) / 2 = k := by omega
      rw [this, mul_comm]
  · exact filter_subset _ _
  · intro k hk hk2
    rw [mem_filter, not_and] at hk2
    have := hk2 hk
    rw [hr, mul_zero]
    omega

/-- C05, all modes except periodization: x is any signal, extended by any rule -/
theorem perfect_reconstruction (F N n : ℕ) (dl dh rl rh : ℤ → R) (B : Bank F dl dh rl rh)
    (hrl : ∀ i : ℤ, i < 0 ∨ (F : ℤ) ≤ i → rl i = 0) (hrh : ∀ i : ℤ, i < 0 ∨ (F : ℤ) ≤ i → rh i = 0)
    (x cA cD : ℤ → R) (hn : n = (N + F - 1) / 2)
    (hA : ∀ k : ℤ, cA k = ∑ j ∈ range F, dl j * x (2 * k + 1 - j))
    (hD : ∀ k : ℤ, cD k = ∑ j ∈ range F, dh j * x (2 * k + 1 - j)) (p : ℕ) (hp : p < N) :
    ∑ k ∈ range n, cA k * rl (p + F - 2 - 2 * k) + ∑ k ∈ range n, cD k * rh (p + F - 2 - 2 * k) = x p := by
  rw [synth F N n cA rl hrl hn p hp, synth F N n cD rh hrh hn p hp, ← Finset.sum_add_distrib,
    ← pr_core F dl dh rl rh B x 1 (F - 2) p (by ring)]
  refine Finset.sum_congr rfl (fun t _ => ?_)
  rw [hA, hD]
  congr 2 <;> refine Finset.sum_congr rfl (fun j _ => ?_) <;> congr 2 <;> ring

/-- C05, periodization: x has period 2n; coefficient k mod n is read -/
theorem perfect_reconstruction_per (F n : ℕ) (hF : Even F) (hn : 0 < n) (dl dh rl rh : ℤ → R) (B : Bank F dl dh rl rh)
    (x cA cD : ℤ → R) (hx : ∀ i q : ℤ, x (i + 2 * n * q) = x i)
    (hA : ∀ k : ℤ, 0 ≤ k → k < n → cA k = ∑ j ∈ range F, dl j * x (F / 2 + 2 * k - j))
    (hD : ∀ k : ℤ, 0 ≤ k → k < n → cD k = ∑ j ∈ range F, dh j * x (F / 2 + 2 * k - j)) (p : ℤ) :
    ∑ t ∈ (range F).filter (fun t : ℕ => (2 : ℤ) ∣ (p + (F / 2 - 1) - t)),
      (rl t * cA (((p + (F / 2 - 1) - t) / 2) % n) + rh t * cD (((p + (F / 2 - 1) - t) / 2) % n)) = x p := by
  obtain ⟨m, hm⟩ := hF
  rw [← pr_core F dl dh rl rh B x (F / 2) (F / 2 - 1) p (by omega)]
  refine Finset.sum_congr rfl (fun t _ => ?_)
  have hpos : (0 : ℤ) < n := by exact_mod_cast hn
  rw [hA _ (Int.emod_nonneg _ hpos.ne') (Int.emod_lt_of_pos _ hpos), hD _ (Int.emod_nonneg _ hpos.ne') (Int.emod_lt_of_pos _ hpos)]
  generalize (p + (F / 2 - 1) - t) / 2 = q
  have key : ∀ j : ℤ, x (F / 2 + 2 * (q % n) - j) = x (F / 2 + 2 * q - j) := by
    intro j
    rw [← hx _ (q / n)]
    congr 1
    have := Int.emod_add_mul_ediv q n
    linear_combination 2 * this
  simp only [key]

#print axioms perfect_reconstruction
#print axioms perfect_reconstruction_per
