-- Folds of an operator over the positions lo..hi of a row: the laws that contracts/fold.spec uses.
import Mathlib.Data.Int.Interval
import Mathlib.Tactic
section
variable {α : Type*} (op : α → α → α) (u : α)
def foldn (row : ℤ → α) (lo : ℤ) : ℕ → α
  | 0 => u
  | n + 1 => op (foldn row lo n) (row (lo + n))
def fold (row : ℤ → α) (lo hi : ℤ) : α := foldn op u row lo (hi - lo).toNat
theorem fold_base (row : ℤ → α) (lo hi : ℤ) (h : hi ≤ lo) : fold op u row lo hi = u := by
  unfold fold
  rw [Int.toNat_eq_zero.mpr (by omega)]; rfl
theorem fold_snoc (row : ℤ → α) (lo hi : ℤ) (h : lo ≤ hi) :
    fold op u row lo (hi + 1) = op (fold op u row lo hi) (row hi) := by
  unfold fold
  have h1 : (hi + 1 - lo).toNat = (hi - lo).toNat + 1 := by omega
  rw [h1]
  show op _ (row (lo + ((hi - lo).toNat : ℤ))) = _
  congr 2; omega
theorem fold_last (hl : ∀ a, op u a = a) (row : ℤ → α) (lo : ℤ) : fold op u row lo (lo + 1) = row lo := by
  rw [fold_snoc op u row lo lo le_rfl, fold_base op u row lo lo le_rfl, hl]
theorem fold_congr (r1 r2 : ℤ → α) (lo1 lo2 : ℤ) (n : ℕ) (h : ∀ w : ℤ, 0 ≤ w → w < n → r1 (lo1 + w) = r2 (lo2 + w)) :
    fold op u r1 lo1 (lo1 + n) = fold op u r2 lo2 (lo2 + n) := by
  induction n with
  | zero => rw [fold_base, fold_base] <;> simp
  | succ n ih =>
    push_cast
    rw [← add_assoc, ← add_assoc, fold_snoc _ _ _ _ _ (by omega), fold_snoc _ _ _ _ _ (by omega)]
    rw [ih (fun w h0 h1 => h w h0 (by push_cast; omega)), h n (by omega) (by push_cast; omega)]
theorem fold_split (ha : ∀ a b c, op (op a b) c = op a (op b c)) (hr : ∀ a, op a u = a)
    (row : ℤ → α) (lo mid : ℤ) (n : ℕ) (h : lo ≤ mid) :
    fold op u row lo (mid + n) = op (fold op u row lo mid) (fold op u row mid (mid + n)) := by
  induction n with
  | zero => rw [fold_base op u row mid _ (by simp), hr]; simp
  | succ n ih =>
    push_cast
    rw [← add_assoc, fold_snoc _ _ _ _ _ (by omega), fold_snoc _ _ _ _ _ (by omega), ih, ha]
theorem fold_head (ha : ∀ a b c, op (op a b) c = op a (op b c)) (hr : ∀ a, op a u = a) (hl : ∀ a, op u a = a)
    (row : ℤ → α) (lo : ℤ) (n : ℕ) :
    fold op u row lo (lo + 1 + n) = op (row lo) (fold op u row (lo + 1) (lo + 1 + n)) := by
  rw [fold_split op u ha hr row lo (lo + 1) n (by omega), fold_last op u hl]
-- a row made of two others
theorem fold_concat (ha : ∀ a b c, op (op a b) c = op a (op b c)) (hr : ∀ a, op a u = a)
    (a b c : ℤ → α) (o p q : ℤ) (l n : ℕ) (h1 : ∀ w : ℤ, 0 ≤ w → w < l → a (o + w) = b (p + w))
    (h2 : ∀ w : ℤ, 0 ≤ w → w < n → a (o + l + w) = c (q + w)) :
    fold op u a o (o + l + n) = op (fold op u b p (p + l)) (fold op u c q (q + n)) := by
  rw [fold_split op u ha hr a o (o + l) n (by omega), fold_congr op u a b o p l h1,
    fold_congr op u a c (o + l) q n h2]
-- rows with one element replaced
theorem fold_store_out (row : ℤ → α) (p : ℤ) (v : α) (lo : ℤ) (n : ℕ) (h : p < lo ∨ lo + n ≤ p) :
    fold op u (Function.update row p v) lo (lo + n) = fold op u row lo (lo + n) := by
  apply fold_congr
  intro w h0 h1
  apply Function.update_of_ne
  omega
theorem fold_store_last (row : ℤ → α) (v : α) (lo : ℤ) (n : ℕ) :
    fold op u (Function.update row (lo + n) v) lo (lo + n + 1) = op (fold op u row lo (lo + n)) v := by
  rw [fold_snoc op u _ lo (lo + n) (by omega), fold_store_out op u row (lo + n) v lo n (by omega)]
  simp
-- an element that is already there changes nothing, when the operator is idempotent
theorem fold_absorb (ha : ∀ a b c, op (op a b) c = op a (op b c)) (hc : ∀ a b, op a b = op b a) (hi_ : ∀ a, op a a = a)
    (row : ℤ → α) (lo p : ℤ) (n : ℕ) (h1 : lo ≤ p) (h2 : p < lo + n) :
    op (fold op u row lo (lo + n)) (row p) = fold op u row lo (lo + n) := by
  induction n with
  | zero => simp at h2; omega
  | succ n ih =>
    push_cast
    rw [← add_assoc, fold_snoc _ _ _ _ _ (by omega)]
    by_cases e : p = lo + n
    · rw [e, ha, hi_]
    · rw [ha, hc (row (lo + n)), ← ha, ih (by push_cast at h2; omega)]
-- the order does not matter, when the operator is commutative
theorem fold_list (row : ℤ → α) (lo : ℤ) (n : ℕ) :
    fold op u row lo (lo + n) = ((List.range n).map (fun i : ℕ => row (lo + i))).foldl op u := by
  induction n with
  | zero => rw [fold_base _ _ _ _ _ (by simp)]; rfl
  | succ n ih =>
    push_cast
    rw [← add_assoc, fold_snoc _ _ _ _ _ (by omega), ih, List.range_succ, List.map_append, List.foldl_append]
    rfl
theorem fold_perm (ha : ∀ a b c, op (op a b) c = op a (op b c)) (hc : ∀ a b, op a b = op b a)
    (r1 r2 : ℤ → α) (lo : ℤ) (n : ℕ)
    (h : ((List.range n).map (fun i : ℕ => r1 (lo + i))).Perm ((List.range n).map (fun i : ℕ => r2 (lo + i)))) :
    fold op u r1 lo (lo + n) = fold op u r2 lo (lo + n) := by
  rw [fold_list, fold_list]
  apply h.foldl_eq'
  intro x _ y _ z
  rw [ha, ha, hc x y]
end
