import Mathlib.Data.Set.Card

/-! Facts on finite sets used by the contracts of the list operators (vf/c_list.py). -/

theorem fin_empty {α : Type*} : (∅ : Set α).Finite ∧ (∅ : Set α).ncard = 0 := ⟨Set.finite_empty, Set.ncard_empty α⟩

theorem card_insert {α : Type*} (s : Set α) (x : α) [Decidable (x ∈ s)] (h : s.Finite) :
    (insert x s).Finite ∧ (insert x s).ncard = s.ncard + (if x ∈ s then 0 else 1) := by
  refine ⟨h.insert x, ?_⟩
  split_ifs with m
  · simp [Set.insert_eq_of_mem m]
  · exact Set.ncard_insert_of_notMem m h

theorem subset_card_eq {α : Type*} (s t : Set α) (_hs : s.Finite) (ht : t.Finite) (hc : s.ncard = t.ncard) (sub : ∀ x, x ∈ s → x ∈ t) : s = t :=
  Set.eq_of_subset_of_ncard_le sub (le_of_eq hc.symm) ht
