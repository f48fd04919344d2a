/-
From one call of the scan to whole texts and streams: the inductions that
carry the contracts' clauses, which are about one call, to the properties,
which are about everything a text is divided into. `f d eof` is the advance
the scan returns; the hypotheses are the clauses gover proves for the source.
-/
namespace Textseg

variable {α : Type}

/-- The clusters a buffer that holds everything to come is divided into. -/
inductive Tokens (f : List α → Bool → Nat) : List α → List (List α) → Prop
  | done : Tokens f [] []
  | next {d ts} : d ≠ [] → Tokens f (d.drop (f d true)) ts →
      Tokens f d (d.take (f d true) :: ts)

/-- Clauses [C01] and [C02] of ScanGraphemeClusters. -/
def Progress (f : List α → Bool → Nat) : Prop :=
  ∀ d, d ≠ [] → 0 < f d true ∧ f d true ≤ d.length

theorem tokens_unique {f : List α → Bool → Nat} {d ts us}
    (h : Tokens f d ts) (k : Tokens f d us) : ts = us := by
  induction h generalizing us with
  | done => cases k with
    | done => rfl
    | next n _ => exact absurd rfl n
  | next n _ ih => cases k with
    | done => exact absurd rfl n
    | next _ k => rw [ih k]

/-- C02: there is one division, into non-empty clusters, whose concatenation is
the text. -/
theorem concatenation {f : List α → Bool → Nat} (p : Progress f) (d : List α) :
    ∃ ts, Tokens f d ts ∧ (∀ t, t ∈ ts → t ≠ []) ∧ ts.flatten = d := by
  match e : d with
  | [] => exact ⟨[], .done, by simp, rfl⟩
  | a :: r =>
    have n : a :: r ≠ [] := by simp
    have q := p _ n
    have lt : ((a :: r).drop (f (a :: r) true)).length < d.length := by
      rw [List.length_drop, e]; omega
    obtain ⟨ts, h, ne, fl⟩ := concatenation p ((a :: r).drop (f (a :: r) true))
    refine ⟨_, .next n h, ?_, ?_⟩
    · intro t m
      cases m with
      | head => intro z; have := congrArg List.length z; rw [List.length_take] at this; simp at this; simp at q; omega
      | tail _ m => exact ne t m
    · rw [List.flatten_cons, fl, List.take_append_drop]
  termination_by d.length
  decreasing_by simp_all

/-- What a reader of a stream does: `b` is unread, `cs` the reads to come. It may
take a token the scan gives for what is there, read more at any time, and finish
with the end-of-input flag once nothing is left to read. -/
inductive Stream (f : List α → Bool → Nat) : List α → List (List α) → List (List α) → Prop
  | token {b cs ts} : 0 < f b false → Stream f (b.drop (f b false)) cs ts →
      Stream f b cs (b.take (f b false) :: ts)
  | read {b c cs ts} : Stream f (b ++ c) cs ts → Stream f b (c :: cs) ts
  | finish {b ts} : Tokens f b ts → Stream f b [] ts

/-- The [C03] pair of ScanGraphemeClusters, with the flag set in the second run,
and 0 ≤ advance ≤ len(data). -/
def Stable (f : List α → Bool → Nat) : Prop :=
  ∀ b c, 0 < f b false → f (b ++ c) true = f b false

def Bounded (f : List α → Bool → Nat) : Prop := ∀ b e, f b e ≤ b.length

/-- C03: however the bytes are divided into reads, the clusters delivered are
those of the whole. -/
theorem stream {f : List α → Bool → Nat} (s : Stable f) (l : Bounded f) {b cs ts}
    (h : Stream f b cs ts) : Tokens f (b ++ cs.flatten) ts := by
  induction h with
  | @token b cs ts z _ ih =>
    have e := s b cs.flatten z
    have len := l b false
    have ne : b ++ cs.flatten ≠ [] := by
      intro n
      have := congrArg List.length n
      simp only [List.length_append, List.length_nil] at this
      omega
    have k : Tokens f ((b ++ cs.flatten).drop (f (b ++ cs.flatten) true)) ts := by
      rw [e, List.drop_append_of_le_length len]; exact ih
    have t := Tokens.next ne k
    rw [e, List.take_append_of_le_length len] at t
    exact t
  | @read b c cs ts _ ih =>
    rw [List.flatten_cons, ← List.append_assoc]; exact ih
  | @finish b ts h => rw [List.flatten_nil, List.append_nil]; exact h

theorem division_of_reads_is_irrelevant {f : List α → Bool → Nat} (s : Stable f) (l : Bounded f)
    {cs ds ts us} (same : cs.flatten = ds.flatten)
    (h : Stream f [] cs ts) (k : Stream f [] ds us) : ts = us := by
  have a := stream s l h
  have b := stream s l k
  rw [same] at a
  exact tokens_unique a b

/-- The ends of the clusters, counted from the beginning of the text. -/
inductive Ends : Nat → List (List α) → Nat → Prop
  | here {n t ts} : Ends n (t :: ts) (n + t.length)
  | later {n t ts k} : Ends (n + t.length) ts k → Ends n (t :: ts) k

theorem Ends.le {m : Nat} {us : List (List α)} {e} (x : Ends m us e) : m ≤ e := by
  induction x with
  | here => omega
  | later _ ih => omega

/-- C07 to C09: the same for one rule, which says where there always is a boundary
and where there never is one. -/
theorem one_rule {f : List α → Bool → Nat} {Always Never : List α → Nat → Prop}
    (p : Progress f)
    (restart : ∀ d i j, 0 < i → ¬ Never d i → 0 < j →
      (Always (d.drop i) j ↔ Always d (i + j)) ∧ (Never (d.drop i) j ↔ Never d (i + j)))
    (first : ∀ d, d ≠ [] → ¬ Never d (f d true) ∧ ∀ k, 0 < k → k < f d true → ¬ Always d k)
    (inside : ∀ d k, Always d k → k ≤ d.length)
    {d ts} (h : Tokens f d ts) : ∀ n k, 0 < k →
      (Ends n ts (n + k) → ¬ Never d k) ∧ (Always d k → Ends n ts (n + k)) := by
  induction h with
  | done =>
    intro n k z
    constructor
    · intro h; cases h
    · intro h; have := inside _ _ h; simp at this; omega
  | @next d ts ne _ ih =>
    intro n k z
    have q := p d ne
    have w := first d ne
    have len : (d.take (f d true)).length = f d true := by rw [List.length_take]; omega
    by_cases c : k < f d true
    · constructor
      · intro h
        exfalso
        generalize ee : n + k = e at h
        cases h with
        | here => omega
        | later h => have := h.le; omega
      · intro h; exact absurd h (w.2 k z c)
    · by_cases c2 : k = f d true
      · constructor
        · intro _; rw [c2]; exact w.1
        · intro _; rw [c2]; have := @Ends.here α n (d.take (f d true)) ts; rw [len] at this; exact this
      · have r := restart d (f d true) (k - f d true) q.1 w.1 (by omega)
        have s := ih (n + f d true) (k - f d true) (by omega)
        rw [show n + f d true + (k - f d true) = n + k by omega] at s
        rw [show f d true + (k - f d true) = k by omega] at r
        rw [← r.1, ← r.2]
        constructor
        · intro h
          refine s.1 ?_
          generalize ee : n + k = e at h
          cases h with
          | here => omega
          | later h => rw [len] at h; exact h
        · intro h; exact .later (by rw [len]; exact s.2 h)

/-- C06: `B d k` says that the rules put a boundary after the first k units of
the text d. `restart`: after a boundary they may begin afresh (the lemma over
the specification's automaton). `first`: the scan's advance is the first
boundary of what it is given (the walk). Then the clusters end where the rules
put a boundary and nowhere else. -/
theorem boundaries {f : List α → Bool → Nat} {B : List α → Nat → Prop}
    (p : Progress f)
    (restart : ∀ d i j, 0 < i → B d i → 0 < j → (B (d.drop i) j ↔ B d (i + j)))
    (first : ∀ d, d ≠ [] → B d (f d true) ∧ ∀ k, 0 < k → k < f d true → ¬ B d k)
    (inside : ∀ d k, B d k → k ≤ d.length)
    {d ts} (h : Tokens f d ts) (n k : Nat) (z : 0 < k) : Ends n ts (n + k) ↔ B d k := by
  have r := one_rule (Always := B) (Never := fun d k => ¬ B d k) p
    (fun d i j a b c => by
      have := restart d i j a (Classical.not_not.mp b) c
      exact ⟨this, not_congr this⟩)
    (fun d ne => ⟨Classical.not_not.mpr (first d ne).1, (first d ne).2⟩) inside h n k z
  exact ⟨fun e => Classical.not_not.mp (r.1 e), r.2⟩

/-- `seq d` is the length of the complete sequence d begins with, or 0. Byte q of
d is part of none (a sequence has at most four bytes). -/
def Loose (seq : List α → Nat) (d : List α) (q : Nat) : Prop :=
  ∀ k, k < 4 → k ≤ q → seq (d.drop (q - k)) ≤ k

theorem loose_later {seq : List α → Nat} (d : List α) (q n : Nat) (h : Loose seq d q) (le : n ≤ q) :
    Loose seq (d.drop n) (q - n) := by
  intro k a b
  rw [List.drop_drop, show n + (q - n - k) = q - k by omega]
  exact h k a (by omega)

/-- C11: byte q of d is malformed: part of no sequence there.
What comes before it is divided as if the text ended there, it is a cluster of
its own, and what comes after is divided as if the text began there. -/
theorem malformed {f : List α → Bool → Nat} {seq : List α → Nat}
    (p : Progress f)
    (own : ∀ d q, Loose seq d q → q < f d true → q = 0 ∧ f d true = 1)
    (before : ∀ d q, Loose seq d q → 0 < q → f d true ≤ q → f (d.take q) true = f d true)
    {d ts} (h : Tokens f d ts) : ∀ q, Loose seq d q → q < d.length →
      ∃ us x vs, ts = us ++ [x] ++ vs ∧ x.length = 1 ∧
        Tokens f (d.take q) us ∧ Tokens f (d.drop (q + 1)) vs := by
  induction h with
  | done => intro q _ l; simp at l
  | @next d ts ne t ih =>
    intro q m l
    have z := p d ne
    by_cases c : q < f d true
    · have o := own d q m c
      refine ⟨[], d.take (f d true), ts, by simp, ?_, ?_, ?_⟩
      · rw [List.length_take, o.2]; omega
      · rw [o.1, List.take_zero]; exact .done
      · rw [o.1]; rw [o.2] at t; exact t
    · have b := before d q m (by omega) (by omega)
      obtain ⟨us, x, vs, e, one, tu, tv⟩ := ih (q - f d true) (loose_later d q _ m (by omega))
        (by rw [List.length_drop]; omega)
      refine ⟨d.take (f d true) :: us, x, vs, by simp [e], one, ?_, ?_⟩
      · have nn : d.take q ≠ [] := by
          intro n
          have := congrArg List.length n
          rw [List.length_take, List.length_nil] at this
          omega
        have k : Tokens f ((d.take q).drop (f (d.take q) true)) us := by
          rw [b, List.drop_take]; exact tu
        have r := Tokens.next nn k
        have mi : min (f d true) q = f d true := by omega
        rw [b, List.take_take, mi] at r
        exact r
      · rw [List.drop_drop] at tv
        rw [show f d true + (q - f d true + 1) = q + 1 by omega] at tv
        exact tv

end Textseg
