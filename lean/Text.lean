import Mathlib.Data.List.Basic
import Mathlib.Tactic
/-! What the contract of `Amount::parse` means for the ways an amount can be written (C14).

The contract (mirv/contracts.py: amount_text) says of every text that the number is read from the characters that
are digits, the decimal sign or a minus (`num`), with a point for the decimal sign, and that the currency is what is
left without points and commas (`cur`), trimmed.  The characters of a text are a list here; the engine follows the
same lists as folds over the characters of a string (core.py: TextFold). -/

set_option linter.unusedSimpArgs false
namespace Text
variable (d : Char)

def isNum (c : Char) : Prop := c.isDigit = true ∨ c = d ∨ c = '-'
instance : DecidablePred (isNum d) := fun c => by unfold isNum; infer_instance
def isCur (c : Char) : Prop := ¬ isNum d c ∧ c ≠ '.' ∧ c ≠ ','
instance : DecidablePred (isCur d) := fun c => by unfold isCur; infer_instance

def num (l : List Char) : List Char := l.filter (isNum d)
def cur (l : List Char) : List Char := l.filter (isCur d)
def dot (c : Char) : Char := if c = d then '.' else c
/-- the text of the number: `dottext` in the contracts -/
def dotted (l : List Char) : List Char := (num d l).map (dot d)
def sp (c : Char) : Prop := c = ' '
instance : DecidablePred sp := fun c => by unfold sp; infer_instance
/-- trimming, of spaces: the only white space left once the words are joined by one space -/
def trim (l : List Char) : List Char := ((l.dropWhile sp).reverse.dropWhile sp).reverse

/-- TextFold: nothing is kept of nothing -/
theorem num_nil : num d [] = [] := rfl
/-- TextFold: one more character -/
theorem num_snoc (l : List Char) (c : Char) : num d (l ++ [c]) = if isNum d c then num d l ++ [c] else num d l := by
  unfold num; by_cases h : isNum d c <;> simp [h]
theorem cur_snoc (l : List Char) (c : Char) : cur d (l ++ [c]) = if isCur d c then cur d l ++ [c] else cur d l := by
  unfold cur; by_cases h : isCur d c <;> simp [h]
theorem dotted_snoc (l : List Char) (c : Char) :
    dotted d (l ++ [c]) = if isNum d c then dotted d l ++ [dot d c] else dotted d l := by
  unfold dotted; rw [num_snoc]; split <;> simp

/-- the fact assumed by `amount_text`: with a point for the decimal sign there is nothing to replace -/
theorem dotted_point (l : List Char) : dotted '.' l = num '.' l := by
  unfold dotted
  conv_rhs => rw [← List.map_id (num '.' l)]
  apply List.map_congr_left
  intro c _
  unfold dot; split <;> simp_all

/-! ### the ways an amount can be written -/

/-- the text of a number: digits, one sort of separator or another, the decimal sign, minus signs -/
def Number (n : List Char) : Prop := ∀ c ∈ n, isNum d c ∨ c = '.' ∨ c = ','
/-- the text of a currency: nothing a number is made of, and no spaces -/
def Currency (s : List Char) : Prop := ∀ c ∈ s, isCur d c ∧ c ≠ ' '

variable {d}
theorem num_append (a b : List Char) : num d (a ++ b) = num d a ++ num d b := by simp [num]
theorem cur_append (a b : List Char) : cur d (a ++ b) = cur d a ++ cur d b := by simp [cur]

theorem num_currency {s : List Char} (h : Currency d s) : num d s = [] := by
  unfold num; rw [List.filter_eq_nil_iff]; intro c hc hn
  exact (h c hc).1.1 (by simpa using hn)
theorem cur_currency {s : List Char} (h : Currency d s) : cur d s = s := by
  unfold cur; rw [List.filter_eq_self]; intro c hc; simpa using (h c hc).1
theorem cur_number {n : List Char} (h : Number d n) : cur d n = [] := by
  unfold cur; rw [List.filter_eq_nil_iff]; intro c hc hn
  have hn : isCur d c := by simpa using hn
  rcases h c hc with h1 | h1 | h1
  · exact hn.1 h1
  · exact hn.2.1 h1
  · exact hn.2.2 h1

/-- only the separators are lost of a number: every digit, the decimal sign and the minus are kept, in order -/
theorem num_number {n : List Char} (h : Number d n) :
    num d n = n.filter (fun c => ¬ ((c = '.' ∨ c = ',') ∧ ¬ isNum d c)) := by
  unfold num
  apply List.filter_congr
  intro c hc
  rcases h c hc with h1 | h1
  · simp [h1]
  · by_cases h2 : isNum d c <;> simp [h1, h2]

theorem dropWhile_currency {s : List Char} (h : Currency d s) : s.dropWhile sp = s := by
  cases s with
  | nil => rfl
  | cons a t => simp [List.dropWhile, sp, (h a (by simp)).2]

theorem currency_reverse {s : List Char} (h : Currency d s) : Currency d s.reverse :=
  fun c hc => h c (by simpa using hc)

theorem trim_currency {s : List Char} (h : Currency d s) : trim s = s := by
  unfold trim
  rw [dropWhile_currency h, dropWhile_currency (currency_reverse h), List.reverse_reverse]
theorem trim_space_currency {s : List Char} (h : Currency d s) : trim (' ' :: s) = s := by
  unfold trim
  have : (' ' :: s).dropWhile sp = s.dropWhile sp := by simp [List.dropWhile, sp]
  rw [this]; exact trim_currency h
theorem trim_currency_space {s : List Char} (h : Currency d s) (hs : s ≠ []) : trim (s ++ [' ']) = s := by
  unfold trim
  have h1 : (s ++ [' ']).dropWhile sp = s ++ [' '] := by
    cases s with
    | nil => exact absurd rfl hs
    | cons a t => simp [List.dropWhile, sp, (h a (by simp)).2]
  rw [h1, List.reverse_append]
  have h2 : ([' '].reverse ++ s.reverse).dropWhile sp = s.reverse := by
    have : ([' '].reverse ++ s.reverse).dropWhile sp = s.reverse.dropWhile sp := by simp [List.dropWhile, sp]
    rw [this]; exact dropWhile_currency (currency_reverse h)
  rw [h2, List.reverse_reverse]

theorem space_cur (hd : d ≠ ' ') : cur d [' '] = [' '] := by
  have h : isCur d ' ' := by
    refine ⟨?_, by decide, by decide⟩
    rintro (h | h | h)
    · exact absurd h (by decide)
    · exact hd h.symm
    · exact absurd h (by decide)
  simp [cur, h]
theorem space_num (hd : d ≠ ' ') : num d [' '] = [] := by
  have h : ¬ isNum d ' ' := by
    rintro (h | h | h)
    · exact absurd h (by decide)
    · exact hd h.symm
    · exact absurd h (by decide)
  simp [num, h]

/-- an amount is read as the number and the currency written: the number alone, -/
theorem plain {n : List Char} (hn : Number d n) : trim (cur d n) = [] := by rw [cur_number hn]; rfl
/-- the currency before it, -/
theorem before {s n : List Char} (hs : Currency d s) (hn : Number d n) :
    num d (s ++ n) = num d n ∧ trim (cur d (s ++ n)) = s := by
  rw [num_append, cur_append, num_currency hs, cur_currency hs, cur_number hn]
  simpa using trim_currency hs
/-- after it, -/
theorem behind {s n : List Char} (hs : Currency d s) (hn : Number d n) :
    num d (n ++ s) = num d n ∧ trim (cur d (n ++ s)) = s := by
  rw [num_append, cur_append, num_currency hs, cur_currency hs, cur_number hn]
  simpa using trim_currency hs
/-- before or after it with a space between, -/
theorem before_space {s n : List Char} (hd : d ≠ ' ') (hs : Currency d s) (h0 : s ≠ []) (hn : Number d n) :
    num d (s ++ [' '] ++ n) = num d n ∧ trim (cur d (s ++ [' '] ++ n)) = s := by
  simp only [num_append, cur_append, num_currency hs, cur_currency hs, cur_number hn, space_num hd, space_cur hd]
  simpa using trim_currency_space hs h0
theorem behind_space {s n : List Char} (hd : d ≠ ' ') (hs : Currency d s) (hn : Number d n) :
    num d (n ++ [' '] ++ s) = num d n ∧ trim (cur d (n ++ [' '] ++ s)) = s := by
  simp only [num_append, cur_append, num_currency hs, cur_currency hs, cur_number hn, space_num hd, space_cur hd]
  simpa using trim_space_currency hs
/-- and with the minus before the currency. -/
theorem minus_before {s n : List Char} (hs : Currency d s) (hn : Number d n) :
    num d (['-'] ++ s ++ n) = '-' :: num d n ∧ trim (cur d (['-'] ++ s ++ n)) = s := by
  have hm : Number d ['-'] := by intro c hc; left; right; right; simpa using hc
  have : num d ['-'] = ['-'] := by
    have h : isNum d '-' := Or.inr (Or.inr rfl)
    simp [num, h]
  simp only [num_append, cur_append, num_currency hs, cur_currency hs, cur_number hn, cur_number hm, this]
  exact ⟨by simp, by simpa using trim_currency hs⟩

/-- a text without a digit leaves no digit to be read as a number -/
theorem no_digit {l : List Char} (h : ∀ c ∈ l, c.isDigit = false) : ∀ c ∈ num d l, c.isDigit = false :=
  fun c hc => h c (List.mem_of_mem_filter hc)
end Text
