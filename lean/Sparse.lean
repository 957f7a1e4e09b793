import Mathlib.Data.Matrix.Block
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Mathlib.LinearAlgebra.Matrix.Determinant.Basic
import Mathlib.Analysis.SpecialFunctions.Log.Basic
import Mathlib.Logic.Equiv.Fin.Basic

/-! The dense matrix of a sparse one `S`: element `p` of block `(i, j)` at row `i n + p`,
column `j n + p`, zero elsewhere.  `slice S p` is the matrix of the elements at `p`. -/

open Matrix

namespace JaxCosmo

variable {a n : ℕ}

/-- elements at position `p` of all the blocks -/
def slice (S : Fin a → Fin a → Fin n → ℝ) (p : Fin n) : Matrix (Fin a) (Fin a) ℝ :=
  fun i j => S i j p

/-- rows and columns numbered `i n + p` -/
def dense (S : Fin a → Fin a → Fin n → ℝ) : Matrix (Fin (a * n)) (Fin (a * n)) ℝ :=
  Matrix.reindex finProdFinEquiv finProdFinEquiv (blockDiagonal (slice S))

theorem dense_apply (S : Fin a → Fin a → Fin n → ℝ) (i j : Fin a) (p q : Fin n) :
    dense S (finProdFinEquiv (i, p)) (finProdFinEquiv (j, q)) = if p = q then S i j p else 0 := by
  simp [dense, blockDiagonal_apply, slice]

theorem number (i : Fin a) (p : Fin n) : (finProdFinEquiv (i, p) : ℕ) = i * n + p := by
  simp [finProdFinEquiv]; ring

/-- the determinant is the product over the positions -/
theorem det_dense (S : Fin a → Fin a → Fin n → ℝ) : (dense S).det = ∏ p, (slice S p).det := by
  rw [dense, Matrix.det_reindex_self, det_blockDiagonal]

theorem sign_dense (S : Fin a → Fin a → Fin n → ℝ) :
    SignType.sign (dense S).det = ∏ p, SignType.sign (slice S p).det := by
  rw [det_dense]
  exact map_prod signHom _ _

theorem logabs_dense (S : Fin a → Fin a → Fin n → ℝ) (h : (dense S).det ≠ 0) :
    Real.log |(dense S).det| = ∑ p, Real.log |(slice S p).det| := by
  rw [det_dense] at h
  rw [det_dense, Finset.abs_prod, Real.log_prod]
  intro p _
  exact abs_ne_zero.mpr (Finset.prod_ne_zero_iff.mp h p (Finset.mem_univ p))

/-- inverses at each position make the inverse -/
theorem inv_dense (S T : Fin a → Fin a → Fin n → ℝ) (h : (dense S).det ≠ 0)
    (hT : ∀ p, slice T p = (slice S p)⁻¹) :
    dense T * dense S = 1 ∧ dense S * dense T = 1 ∧ dense T = (dense S)⁻¹ := by
  rw [det_dense] at h
  have hu : ∀ p, IsUnit (slice S p).det := fun p =>
    isUnit_iff_ne_zero.mpr (Finset.prod_ne_zero_iff.mp h p (Finset.mem_univ p))
  have e : dense T * dense S = 1 := by
    simp only [dense, Matrix.reindex_apply, Matrix.submatrix_mul_equiv]
    rw [← blockDiagonal_mul]
    have : (fun p => slice T p * slice S p) = fun _ => 1 := by
      funext p
      rw [hT p, Matrix.nonsing_inv_mul _ (hu p)]
    rw [this]
    simp [← Pi.one_def]
  exact ⟨e, mul_eq_one_comm.mp e, (Matrix.inv_eq_left_inv e).symm⟩

end JaxCosmo
