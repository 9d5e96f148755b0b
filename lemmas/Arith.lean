/-! The arithmetic facts the verification conditions use (vf/c_util.py, LEMMAS
and instances), stated over Lean's integers with Euclidean division, which is
the division of SMT-LIB. -/
namespace Ethos

def pow2 (n : Int) : Int := 2 ^ n.toNat

theorem pow2_pos (n : Int) (_ : n ≥ 0) : pow2 n ≥ 1 := by
  have : (0 : Int) < 2 ^ n.toNat := Int.pow_pos (by decide)
  unfold pow2; omega

theorem pow2_zero : pow2 0 = 1 := by decide
theorem pow2_one : pow2 1 = 2 := by decide

theorem pow2_succ (n : Int) (h : n ≥ 0) : pow2 (n + 1) = 2 * pow2 n := by
  unfold pow2
  have : (n + 1).toNat = n.toNat + 1 := by omega
  rw [this, Int.pow_succ, Int.mul_comm]

theorem pow2_add (a b : Int) (ha : a ≥ 0) (hb : b ≥ 0) : pow2 (a + b) = pow2 a * pow2 b := by
  unfold pow2
  have : (a + b).toNat = a.toNat + b.toNat := by omega
  rw [this, Int.pow_add]

theorem mod_range (x m : Int) (h : m ≥ 1) : 0 ≤ x % m ∧ x % m < m :=
  ⟨Int.emod_nonneg x (by omega), Int.emod_lt_of_pos x (by omega)⟩

theorem mod_small (x m : Int) (h0 : 0 ≤ x) (h1 : x < m) : x % m = x := Int.emod_eq_of_lt h0 h1

theorem mod_add_left (x y m : Int) (_ : m ≥ 1) : (x % m + y) % m = (x + y) % m := Int.emod_add_emod ..
theorem mod_add_right (x y m : Int) (_ : m ≥ 1) : (x + y % m) % m = (x + y) % m := Int.add_emod_emod ..

theorem div_le (x y : Int) (hx : x ≥ 0) (hy : y ≥ 1) : 0 ≤ x / y ∧ x / y ≤ x :=
  ⟨Int.ediv_nonneg hx (by omega), Int.ediv_le_self y hx⟩

theorem mod_le (x y : Int) (hx : x ≥ 0) (hy : y ≥ 1) : 0 ≤ x % y ∧ x % y ≤ x := by
  refine ⟨Int.emod_nonneg x (by omega), ?_⟩
  have h1 := Int.mul_ediv_add_emod x y
  have h2 : 0 ≤ y * (x / y) := Int.mul_nonneg (by omega) (Int.ediv_nonneg hx (by omega))
  omega

theorem div_mul_mod (x y : Int) (_ : y ≠ 0) : x - (x / y) * y = x % y := by
  have := Int.mul_ediv_add_emod x y
  rw [Int.mul_comm] at this
  omega

theorem euclid_unique (x y q r : Int) (hy : y ≠ 0) (h : x = q * y + r) (h0 : 0 ≤ r)
    (h1 : r < if y ≥ 0 then y else -y) : q = x / y ∧ r = x % y := by
  have e : x % y = r := by
    rw [h, Int.add_comm, Int.add_mul_emod_self_right]
    split at h1
    · exact Int.emod_eq_of_lt h0 h1
    · rw [← Int.emod_neg]; exact Int.emod_eq_of_lt h0 h1
  refine ⟨?_, e.symm⟩
  have h3 := Int.mul_ediv_add_emod x y
  rw [e, h] at h3
  have h4 : y * ((q * y + r) / y) = y * q := by rw [Int.mul_comm y q]; omega
  have h5 := Int.eq_of_mul_eq_mul_left hy h4
  rw [h]; exact h5.symm

theorem neg_inst (v m : Int) (_ : m ≥ 1) : ((-v - 1) % m + 1 % m) % m = (-v) % m := by
  rw [← Int.add_emod]; congr 1; omega

theorem extract_mod (v a b : Int) (ha : a ≥ 1) (_ : b ≥ 1) : (v % (a * b) / a) % b = (v / a) % b := by
  have h := Int.mul_ediv_add_emod v (a * b)
  have e : v / a = v % (a * b) / a + b * (v / (a * b)) := by
    have : v = v % (a * b) + a * (b * (v / (a * b))) := by rw [← Int.mul_assoc]; omega
    conv => lhs; rw [this]
    exact Int.add_mul_ediv_left _ _ (by omega)
  rw [e, Int.add_mul_emod_self_left]

theorem extract_inst (v h l : Int) (hl : 0 ≤ l) (hh : l ≤ h) :
    ((v % pow2 (h + 1)) / pow2 l) % pow2 (h - l + 1) = (v / pow2 l) % pow2 (h - l + 1) := by
  have e : pow2 (h + 1) = pow2 l * pow2 (h - l + 1) := by
    rw [← pow2_add l _ hl (by omega)]; congr 1; omega
  rw [e]
  exact extract_mod v _ _ (pow2_pos l hl) (pow2_pos _ (by omega))

end Ethos
