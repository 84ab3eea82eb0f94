/-
The laws of languages of forests that contracts/lang.spec states as axioms of the sort Lang.
A language is a set of forests (lists of trees); E is the type of the labels (the valuations of a node).
-/
inductive Tree (E : Type) where
  | mk : E → List (Tree E) → Tree E

def Tree.ev {E : Type} : Tree E → E | .mk e _ => e
def Tree.kids {E : Type} : Tree E → List (Tree E) | .mk _ k => k

section
variable {E : Type}

abbrev Forest (E : Type) := List (Tree E)
abbrev Lang (E : Type) := Forest E → Prop

def lnone : Lang E := fun _ => False
def lany : Lang E := fun _ => True
def lempty : Lang E := fun f => f = []
def lnode (P : E → Prop) (L : Lang E) : Lang E := fun f => ∃ t, f = [t] ∧ P t.ev ∧ L t.kids
def lor (a b : Lang E) : Lang E := fun f => a f ∨ b f
def land (a b : Lang E) : Lang E := fun f => a f ∧ b f
def lnot (a : Lang E) : Lang E := fun f => ¬ a f
def lcat (a b : Lang E) : Lang E := fun f => ∃ x y, f = x ++ y ∧ a x ∧ b y
inductive Shuffle : Forest E → Forest E → Forest E → Prop where
  | nil : Shuffle [] [] []
  | left (t : Tree E) {x y f} : Shuffle x y f → Shuffle (t :: x) y (t :: f)
  | right (t : Tree E) {x y f} : Shuffle x y f → Shuffle x (t :: y) (t :: f)
def lilv (a b : Lang E) : Lang E := fun f => ∃ x y, Shuffle x y f ∧ a x ∧ b y
inductive Star (a : Lang E) : Forest E → Prop where
  | nil : Star a []
  | app {x y : Forest E} : a x → Star a y → Star a (x ++ y)
def lstar (a : Lang E) : Lang E := Star a
def lcontains (a : Lang E) : Lang E := lcat lany (lcat a lany)
def lopt (a : Lang E) : Lang E := lor a lempty
def null (a : Lang E) : Prop := a []
def dl (a : Lang E) (t : Tree E) : Lang E := fun f => a (t :: f)

theorem ext_ {a b : Lang E} (h : ∀ f, a f ↔ b f) : a = b := by
  funext f; exact propext (h f)

-- null
theorem null_cat (a b : Lang E) : null (lcat a b) ↔ null a ∧ null b := by
  constructor
  · rintro ⟨x, y, h, ha, hb⟩
    have h' := h.symm
    rw [List.append_eq_nil_iff] at h'
    obtain ⟨rfl, rfl⟩ := h'
    exact ⟨ha, hb⟩
  · rintro ⟨ha, hb⟩; exact ⟨[], [], rfl, ha, hb⟩

theorem shuffle_nil {x y : Forest E} (h : Shuffle x y []) : x = [] ∧ y = [] := by
  cases h; exact ⟨rfl, rfl⟩

theorem null_ilv (a b : Lang E) : null (lilv a b) ↔ null a ∧ null b := by
  constructor
  · rintro ⟨x, y, h, ha, hb⟩
    obtain ⟨rfl, rfl⟩ := shuffle_nil h
    exact ⟨ha, hb⟩
  · rintro ⟨ha, hb⟩; exact ⟨[], [], .nil, ha, hb⟩

theorem null_star (a : Lang E) : null (lstar a) := Star.nil

-- membership
theorem mem_nil (a : Lang E) : a [] ↔ null a := Iff.rfl
theorem mem_cons (a : Lang E) (t : Tree E) (f : Forest E) : a (t :: f) ↔ dl a t f := Iff.rfl
theorem mem_node (P : E → Prop) (L : Lang E) (f : Forest E) :
    lnode P L f ↔ ∃ t, f = [t] ∧ P t.ev ∧ L t.kids := Iff.rfl

-- derivatives
theorem dl_none (t : Tree E) : dl lnone t = (lnone : Lang E) := rfl
theorem dl_any (t : Tree E) : dl lany t = (lany : Lang E) := rfl
theorem dl_empty (t : Tree E) : dl lempty t = (lnone : Lang E) := by
  apply ext_; intro f; simp [dl, lempty, lnone]
theorem dl_node_yes (P : E → Prop) (L : Lang E) (t : Tree E) (h : P t.ev ∧ L t.kids) :
    dl (lnode P L) t = lempty := by
  apply ext_; intro f
  constructor
  · rintro ⟨u, h1, _⟩; injection h1
  · intro h1; exact ⟨t, by rw [h1], h.1, h.2⟩
theorem dl_node_no (P : E → Prop) (L : Lang E) (t : Tree E) (h : ¬ (P t.ev ∧ L t.kids)) :
    dl (lnode P L) t = lnone := by
  apply ext_; intro f
  constructor
  · rintro ⟨u, h1, h2⟩; injection h1 with h3 h4; subst h3; exact h h2
  · intro h1; exact h1.elim
theorem dl_or (a b : Lang E) (t : Tree E) : dl (lor a b) t = lor (dl a t) (dl b t) := rfl
theorem dl_and (a b : Lang E) (t : Tree E) : dl (land a b) t = land (dl a t) (dl b t) := rfl
theorem dl_not (a : Lang E) (t : Tree E) : dl (lnot a) t = lnot (dl a t) := rfl
theorem dl_cat_null (a b : Lang E) (t : Tree E) (h : null a) :
    dl (lcat a b) t = lor (lcat (dl a t) b) (dl b t) := by
  apply ext_; intro f
  constructor
  · rintro ⟨x, y, h1, ha, hb⟩
    cases x with
    | nil => right; simp at h1; subst h1; exact hb
    | cons u x =>
      simp at h1; obtain ⟨rfl, rfl⟩ := h1
      left; exact ⟨x, y, rfl, ha, hb⟩
  · rintro (⟨x, y, rfl, ha, hb⟩ | hb)
    · exact ⟨t :: x, y, rfl, ha, hb⟩
    · exact ⟨[], t :: f, rfl, h, hb⟩
theorem dl_cat_not_null (a b : Lang E) (t : Tree E) (h : ¬ null a) :
    dl (lcat a b) t = lcat (dl a t) b := by
  apply ext_; intro f
  constructor
  · rintro ⟨x, y, h1, ha, hb⟩
    cases x with
    | nil => exact (h ha).elim
    | cons u x =>
      simp at h1; obtain ⟨rfl, rfl⟩ := h1
      exact ⟨x, y, rfl, ha, hb⟩
  · rintro ⟨x, y, rfl, ha, hb⟩
    exact ⟨t :: x, y, rfl, ha, hb⟩
theorem dl_ilv (a b : Lang E) (t : Tree E) :
    dl (lilv a b) t = lor (lilv (dl a t) b) (lilv a (dl b t)) := by
  apply ext_; intro f
  constructor
  · rintro ⟨x, y, h1, ha, hb⟩
    cases h1 with
    | left _ h2 => left; exact ⟨_, _, h2, ha, hb⟩
    | right _ h2 => right; exact ⟨_, _, h2, ha, hb⟩
  · rintro (⟨x, y, h2, ha, hb⟩ | ⟨x, y, h2, ha, hb⟩)
    · exact ⟨t :: x, y, .left t h2, ha, hb⟩
    · exact ⟨x, t :: y, .right t h2, ha, hb⟩
theorem star_cons {a : Lang E} : ∀ {g : Forest E}, Star a g → ∀ t f, g = t :: f →
    ∃ x y, f = x ++ y ∧ a (t :: x) ∧ Star a y := by
  intro g h
  induction h with
  | nil => intro t f h; cases h
  | @app x y hx hy ih =>
    intro t f h
    cases x with
    | nil => exact ih t f h
    | cons u x =>
      simp at h; obtain ⟨rfl, rfl⟩ := h
      exact ⟨x, y, rfl, hx, hy⟩
theorem dl_star (a : Lang E) (t : Tree E) : dl (lstar a) t = lcat (dl a t) (lstar a) := by
  apply ext_; intro f
  constructor
  · intro h; exact star_cons h t f rfl
  · rintro ⟨x, y, rfl, ha, hb⟩
    exact Star.app (x := t :: x) ha hb

-- algebra
theorem cat_empty_left (a : Lang E) : lcat lempty a = a := by
  apply ext_; intro f
  constructor
  · rintro ⟨x, y, rfl, hx, hy⟩; rw [show x = [] from hx]; exact hy
  · intro h; exact ⟨[], f, rfl, rfl, h⟩
theorem cat_empty_right (a : Lang E) : lcat a lempty = a := by
  apply ext_; intro f
  constructor
  · rintro ⟨x, y, rfl, hx, hy⟩; rw [show y = [] from hy, List.append_nil]; exact hx
  · intro h; exact ⟨f, [], by simp, h, rfl⟩
theorem cat_none_left (a : Lang E) : lcat lnone a = lnone := by
  apply ext_; intro f
  exact ⟨fun ⟨_, _, _, h, _⟩ => h, fun h => h.elim⟩
theorem cat_none_right (a : Lang E) : lcat a lnone = lnone := by
  apply ext_; intro f
  exact ⟨fun ⟨_, _, _, _, h⟩ => h, fun h => h.elim⟩
theorem cat_any_any : lcat lany lany = (lany : Lang E) := by
  apply ext_; intro f
  exact ⟨fun _ => trivial, fun _ => ⟨[], f, rfl, trivial, trivial⟩⟩
theorem cat_assoc (a b c : Lang E) : lcat (lcat a b) c = lcat a (lcat b c) := by
  apply ext_; intro f
  constructor
  · rintro ⟨_, z, rfl, ⟨x, y, rfl, hx, hy⟩, hz⟩
    exact ⟨x, y ++ z, by simp, hx, y, z, rfl, hy, hz⟩
  · rintro ⟨x, _, rfl, hx, ⟨y, z, rfl, hy, hz⟩⟩
    exact ⟨x ++ y, z, by simp, ⟨x, y, rfl, hx, hy⟩, hz⟩
theorem contains_def (a : Lang E) : lcontains a = lcat lany (lcat a lany) := rfl
theorem opt_def (a : Lang E) : lopt a = lor a lempty := rfl
theorem not_not (a : Lang E) : lnot (lnot a) = a := by
  apply ext_; intro f; exact Classical.not_not
theorem not_any : lnot lany = (lnone : Lang E) := by
  apply ext_; intro f; simp [lnot, lany, lnone]
theorem not_none : lnot lnone = (lany : Lang E) := by
  apply ext_; intro f; simp [lnot, lany, lnone]
theorem star_append {a : Lang E} {x y : Forest E} (hx : Star a x) (hy : Star a y) : Star a (x ++ y) := by
  induction hx with
  | nil => exact hy
  | app h _ ih => rw [List.append_assoc]; exact Star.app h ih
theorem star_star (a : Lang E) : lstar (lstar a) = lstar a := by
  apply ext_; intro f
  constructor
  · intro h
    induction h with
    | nil => exact Star.nil
    | app hx _ ih => exact star_append hx ih
  · intro h
    have := Star.app (a := lstar a) h Star.nil
    rwa [List.append_nil] at this
theorem star_any : lstar lany = (lany : Lang E) := by
  apply ext_; intro f
  constructor
  · intro _; trivial
  · intro _
    have := Star.app (a := (lany : Lang E)) (x := f) trivial Star.nil
    rwa [List.append_nil] at this
theorem star_none : lstar lnone = (lempty : Lang E) := by
  apply ext_; intro f
  constructor
  · intro h; cases h with
    | nil => rfl
    | app hx _ => exact hx.elim
  · intro h; rw [show f = [] from h]; exact Star.nil
theorem star_empty : lstar lempty = (lempty : Lang E) := by
  apply ext_; intro f
  constructor
  · intro h
    induction h with
    | nil => rfl
    | app hx _ ih => rw [show _ = [] from hx, show _ = [] from ih]; rfl
  · intro h; rw [show f = [] from h]; exact Star.nil
theorem shuffle_comm {x y f : Forest E} (h : Shuffle x y f) : Shuffle y x f := by
  induction h with
  | nil => exact .nil
  | left t _ ih => exact .right t ih
  | right t _ ih => exact .left t ih
theorem ilv_comm (a b : Lang E) : lilv a b = lilv b a := by
  apply ext_; intro f
  exact ⟨fun ⟨x, y, h, ha, hb⟩ => ⟨y, x, shuffle_comm h, hb, ha⟩,
         fun ⟨x, y, h, ha, hb⟩ => ⟨y, x, shuffle_comm h, hb, ha⟩⟩
theorem shuffle_nil_left (f : Forest E) : Shuffle [] f f := by
  induction f with
  | nil => exact .nil
  | cons t f ih => exact .right t ih
theorem shuffle_nil_left_eq {x y f : Forest E} (h : Shuffle x y f) : x = [] → y = f := by
  induction h with
  | nil => intro _; rfl
  | left t _ _ => intro h; cases h
  | right t _ ih => intro h; rw [ih h]
theorem ilv_empty_left (a : Lang E) : lilv lempty a = a := by
  apply ext_; intro f
  constructor
  · rintro ⟨x, y, h, hx, hy⟩; rw [← shuffle_nil_left_eq h hx]; exact hy
  · intro h; exact ⟨[], f, shuffle_nil_left f, rfl, h⟩
theorem ilv_empty_right (a : Lang E) : lilv a lempty = a := by
  rw [ilv_comm]; exact ilv_empty_left a
theorem ilv_none_left (a : Lang E) : lilv lnone a = lnone := by
  apply ext_; intro f
  exact ⟨fun ⟨_, _, _, h, _⟩ => h, fun h => h.elim⟩
theorem ilv_none_right (a : Lang E) : lilv a lnone = lnone := by
  rw [ilv_comm]; exact ilv_none_left a
theorem ilv_any_any : lilv lany lany = (lany : Lang E) := by
  apply ext_; intro f
  exact ⟨fun _ => trivial, fun _ => ⟨[], f, shuffle_nil_left f, trivial, trivial⟩⟩
theorem shuffle_assoc {p z f : Forest E} (h : Shuffle p z f) :
    ∀ {x y}, Shuffle x y p → ∃ q, Shuffle y z q ∧ Shuffle x q f := by
  induction h with
  | nil => intro x y h; cases h; exact ⟨[], .nil, .nil⟩
  | left t _ ih =>
    intro x y h
    cases h with
    | left _ h =>
      obtain ⟨q, h1, h2⟩ := ih h
      exact ⟨q, h1, .left t h2⟩
    | right _ h =>
      obtain ⟨q, h1, h2⟩ := ih h
      exact ⟨t :: q, .left t h1, .right t h2⟩
  | right t _ ih =>
    intro x y h
    obtain ⟨q, h1, h2⟩ := ih h
    exact ⟨t :: q, .right t h1, .right t h2⟩
theorem ilv_assoc_le (a b c : Lang E) (f : Forest E) (h : lilv (lilv a b) c f) : lilv a (lilv b c) f := by
  obtain ⟨p, z, h1, ⟨x, y, h2, hx, hy⟩, hz⟩ := h
  obtain ⟨q, h3, h4⟩ := shuffle_assoc h1 h2
  exact ⟨x, q, h4, hx, y, z, h3, hy, hz⟩
theorem ilv_assoc (a b c : Lang E) : lilv (lilv a b) c = lilv a (lilv b c) := by
  apply ext_; intro f
  constructor
  · exact ilv_assoc_le a b c f
  · intro h
    rw [ilv_comm a, ilv_comm b] at h
    have := ilv_assoc_le c b a f h
    rwa [ilv_comm c, ilv_comm b] at this

-- an interleaving of a list of languages does not depend on their order
def ilvall : List (Lang E) → Lang E := fun ls => ls.foldl lilv lempty
theorem ilvall_perm {ls ms : List (Lang E)} (h : ls.Perm ms) : ilvall ls = ilvall ms := by
  unfold ilvall
  apply h.foldl_eq'
  intro x _ y _ z
  rw [ilv_assoc, ilv_comm x y, ← ilv_assoc]
theorem ilvall_snoc (ls : List (Lang E)) (l : Lang E) : ilvall (ls ++ [l]) = lilv (ilvall ls) l := by
  simp [ilvall]
theorem ilvall_append (ls ms : List (Lang E)) : ilvall (ls ++ ms) = lilv (ilvall ls) (ilvall ms) := by
  have key : ∀ (ms : List (Lang E)) (a b : Lang E), ms.foldl lilv (lilv a b) = lilv a (ms.foldl lilv b) := by
    intro ms
    induction ms with
    | nil => intro a b; rfl
    | cons m ms ih => intro a b; simp only [List.foldl_cons]; rw [ilv_assoc, ih]
  unfold ilvall
  rw [List.foldl_append, ← key, ilv_empty_right]
def catall : List (Lang E) → Lang E := fun ls => ls.foldl lcat lempty
theorem catall_snoc (ls : List (Lang E)) (l : Lang E) : catall (ls ++ [l]) = lcat (catall ls) l := by
  simp [catall]
theorem catall_append (ls ms : List (Lang E)) : catall (ls ++ ms) = lcat (catall ls) (catall ms) := by
  have key : ∀ (ms : List (Lang E)) (a b : Lang E), ms.foldl lcat (lcat a b) = lcat a (ms.foldl lcat b) := by
    intro ms
    induction ms with
    | nil => intro a b; rfl
    | cons m ms ih => intro a b; simp only [List.foldl_cons]; rw [cat_assoc, ih]
  unfold catall
  rw [List.foldl_append, ← key, cat_empty_right]
end
