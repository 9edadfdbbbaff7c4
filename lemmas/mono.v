(* IEEE multiplication by 32767 is monotone: rounding to the nearest single precision number, ties to even, is. *)
From Coq Require Import Reals Lra.
From Flocq Require Import Core.
Open Scope R_scope.
Definition single := FLT_exp (-149) 24.
Lemma mult_monotone : forall x y : R, x <= y ->
  round radix2 single ZnearestE (x * 32767) <= round radix2 single ZnearestE (y * 32767).
Proof.
  intros x y H. apply round_le; try typeclasses eauto.
  - apply FLT_exp_valid. reflexivity.
  - apply Rmult_le_compat_r; lra.
Qed.
Print Assumptions mult_monotone.
