-- Unguarded steps between patterns: the laws that contracts/recursion.spec uses.
import Mathlib.Logic.Relation
import Mathlib.Tactic
variable {α : Type*} (step : α → α → Prop)
def reaches : α → α → Prop := Relation.TransGen step
def cyclic (p : α) : Prop := ∃ q, Relation.ReflTransGen step p q ∧ reaches step q q
-- every chain of steps from p ends
def ends (p : α) : Prop := Acc (fun b a => step a b) p
theorem reaches_step (p q : α) (h : step p q) : reaches step p q := Relation.TransGen.single h
theorem reaches_snoc (p q r : α) (h : reaches step p q) (g : step q r) : reaches step p r := Relation.TransGen.tail h g
theorem cyclic_self (p : α) (h : reaches step p p) : cyclic step p := ⟨p, Relation.ReflTransGen.refl, h⟩
theorem cyclic_step (p q : α) (h : step p q) (g : cyclic step q) : cyclic step p := by
  obtain ⟨r, h1, h2⟩ := g
  exact ⟨r, Relation.ReflTransGen.head h h1, h2⟩
theorem ends_iff (p : α) : ends step p ↔ ∀ q, step p q → ends step q :=
  ⟨fun h q g => h.inv g, fun h => Acc.intro p h⟩
theorem ends_none (p : α) (h : ∀ q, ¬ step p q) : ends step p := (ends_iff step p).mpr fun q g => absurd g (h q)
theorem ends_one (p a : α) (h : ∀ q, step p q ↔ q = a) : ends step p ↔ ends step a := by
  rw [ends_iff]; simp [h]
theorem ends_two (p a b : α) (h : ∀ q, step p q ↔ q = a ∨ q = b) : ends step p ↔ ends step a ∧ ends step b := by
  rw [ends_iff]; simp [h]
theorem ends_not_self (p : α) (h : ends step p) : ¬ reaches step p p := by
  induction h with
  | intro p hp ih =>
    intro g
    obtain ⟨q, h1, h2⟩ := Relation.TransGen.head'_iff.mp g
    exact ih q h1 (Relation.TransGen.tail' h2 h1)
theorem ends_reaches (p q : α) (g : Relation.ReflTransGen step p q) (h : ends step p) : ends step q := by
  induction g with
  | refl => exact h
  | tail _ s ih => exact ih.inv s
theorem ends_not_cyclic (p : α) (h : ends step p) : ¬ cyclic step p := by
  rintro ⟨q, h1, h2⟩
  exact ends_not_self step q (ends_reaches step p q h1 h) h2
