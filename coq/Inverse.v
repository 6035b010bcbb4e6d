(* The facts about the inverse trigonometric functions and pi that tools/vc.py uses
   (fun_axioms, t_pi). *)
Require Import Reals Lra Psatz Machin.
Open Scope R_scope.

(* asin, acos: defined on [-1, 1] *)
Theorem cos_of_acos : forall u, -1 <= u <= 1 -> cos (acos u) = u.
Proof. exact cos_acos. Qed.
Theorem sin_of_asin : forall u, -1 <= u <= 1 -> sin (asin u) = u.
Proof. exact sin_asin. Qed.

Theorem sin_of_acos : forall u, -1 <= u <= 1 ->
  0 <= sin (acos u) /\ sin (acos u) * sin (acos u) + u * u = 1.
Proof.
  intros u H. rewrite sin_acos; auto. split. { apply sqrt_pos. }
  rewrite sqrt_sqrt; unfold Rsqr; nra.
Qed.
Theorem cos_of_asin : forall u, -1 <= u <= 1 ->
  0 <= cos (asin u) /\ cos (asin u) * cos (asin u) + u * u = 1.
Proof.
  intros u H. rewrite cos_asin; auto. split. { apply sqrt_pos. }
  rewrite sqrt_sqrt; unfold Rsqr; nra.
Qed.

Theorem acos_range : forall u, 0 <= acos u <= PI.
Proof. exact acos_bound. Qed.
Theorem asin_range : forall u, - PI <= 2 * asin u <= PI.
Proof. intros. assert (H := asin_bound u). lra. Qed.

Theorem asin_increasing : forall u v, -1 <= u <= 1 -> -1 <= v <= 1 -> (u < v <-> asin u < asin v).
Proof.
  intros u v Hu Hv. assert (A := asin_bound u). assert (B := asin_bound v). split; intros H.
  - apply sin_increasing_0; try lra. rewrite !sin_asin; auto.
  - rewrite <- (sin_asin u), <- (sin_asin v); auto. apply sin_increasing_1; lra.
Qed.
Theorem acos_decreasing : forall u v, -1 <= u <= 1 -> -1 <= v <= 1 -> (u < v <-> acos v < acos u).
Proof.
  intros u v Hu Hv. rewrite !acos_asin; auto.
  assert (H := asin_increasing u v Hu Hv). split; intros; [apply H in H0 | apply H]; lra.
Qed.

(* atan *)
Theorem atan_range : forall u, - PI < 2 * atan u < PI.
Proof. intros. assert (H := atan_bound u). lra. Qed.
Theorem atan_mono : forall u v, u < v <-> atan u < atan v.
Proof.
  intros. split; intros H. { apply atan_increasing; auto. }
  destruct (Rtotal_order u v) as [L | [E | G]]; auto; exfalso.
  - subst. lra.
  - assert (Q := atan_increasing v u G). lra.
Qed.
Theorem atan_sign : forall u, (0 < u <-> 0 < atan u) /\ (u < 0 <-> atan u < 0).
Proof.
  intros. split.
  - assert (H := atan_mono 0 u). rewrite atan_0 in H. exact H.
  - assert (H := atan_mono u 0). rewrite atan_0 in H. exact H.
Qed.

(* the two-argument arc tangent, as IEEE-754 defines it for finite arguments with +0 *)
Definition atan2 (y x : R) : R :=
  if Rlt_dec 0 x then atan (y / x)
  else if Rlt_dec x 0 then (if Rle_dec 0 y then atan (y / x) + PI else atan (y / x) - PI)
  else if Rlt_dec 0 y then PI / 2 else if Rlt_dec y 0 then - (PI / 2) else 0.

Lemma sqrt_scale : forall x y, x <> 0 -> sqrt (x * x + y * y) = Rabs x * sqrt (1 + (y / x)²).
Proof.
  intros. rewrite <- sqrt_Rsqr_abs. rewrite <- sqrt_mult_alt by apply Rle_0_sqr.
  f_equal. unfold Rsqr. field. auto.
Qed.
Lemma one_plus : forall u, 0 < sqrt (1 + u²).
Proof. intros. apply sqrt_lt_R0. assert (H := Rle_0_sqr u). lra. Qed.
Lemma sin_pi_m : forall t, sin (t - PI) = - sin t.
Proof. intros. rewrite sin_minus, cos_PI, sin_PI. lra. Qed.
Lemma cos_pi_m : forall t, cos (t - PI) = - cos t.
Proof. intros. rewrite cos_minus, cos_PI, sin_PI. lra. Qed.

Theorem atan2_polar : forall y x,
  cos (atan2 y x) * sqrt (x * x + y * y) = x /\ sin (atan2 y x) * sqrt (x * x + y * y) = y.
Proof.
  intros. unfold atan2.
  destruct (Rlt_dec 0 x).
  { rewrite (sqrt_scale x y) by lra. rewrite Rabs_right by lra.
    rewrite cos_atan, sin_atan. assert (H := one_plus (y / x)). split; field; lra. }
  destruct (Rlt_dec x 0).
  { rewrite (sqrt_scale x y) by lra. rewrite Rabs_left by lra. assert (H := one_plus (y / x)).
    destruct (Rle_dec 0 y); [rewrite neg_cos, neg_sin | rewrite cos_pi_m, sin_pi_m];
      rewrite cos_atan, sin_atan; split; field; lra. }
  assert (x = 0) by lra. subst x. replace (0 * 0 + y * y) with (y²) by (unfold Rsqr; ring).
  rewrite sqrt_Rsqr_abs.
  destruct (Rlt_dec 0 y). { rewrite cos_PI2, sin_PI2, Rabs_right; lra. }
  destruct (Rlt_dec y 0). { rewrite cos_neg, sin_neg, cos_PI2, sin_PI2, Rabs_left; lra. }
  assert (y = 0) by lra. subst. rewrite Rabs_R0. lra.
Qed.

Lemma div_sign : forall y x, x < 0 -> 0 < y -> y / x < 0.
Proof. intros. unfold Rdiv. assert (/ x < 0) by (apply Rinv_lt_0_compat; auto). nra. Qed.
Lemma div_sign2 : forall y x, x < 0 -> y < 0 -> 0 < y / x.
Proof. intros. unfold Rdiv. assert (/ x < 0) by (apply Rinv_lt_0_compat; auto). nra. Qed.

Theorem atan2_range : forall y x, - PI < atan2 y x <= PI
  /\ (0 < y -> 0 < atan2 y x < PI) /\ (y < 0 -> atan2 y x < 0)
  /\ (y = 0 -> 0 <= x -> atan2 y x = 0) /\ (y = 0 -> x < 0 -> atan2 y x = PI).
Proof.
  intros. assert (Q := PI_RGT_0). assert (B := atan_bound (y / x)).
  assert (S := atan_sign (y / x)). destruct S as [S1 S2].
  unfold atan2. destruct (Rlt_dec 0 x).
  { assert (0 < y -> 0 < y / x) by (intros; apply Rdiv_lt_0_compat; auto).
    assert (y < 0 -> y / x < 0).
    { intros. assert (0 < (- y) / x) by (apply Rdiv_lt_0_compat; lra).
      replace (y / x) with (- (- y / x)) by (field; lra). lra. }
    assert (y = 0 -> atan (y / x) = 0).
    { intros. subst. replace (0 / x) with 0 by (field; lra). apply atan_0. }
    repeat split; intros; try lra; try (apply S1; auto); try (apply S2; auto); auto. }
  destruct (Rlt_dec x 0).
  { destruct (Rle_dec 0 y).
    - assert (atan (y / x) <= 0).
      { destruct (Req_dec y 0). { subst. replace (0 / x) with 0 by (field; lra). rewrite atan_0. lra. }
        apply Rlt_le, S2, div_sign; lra. }
      assert (0 < y -> atan (y / x) < 0) by (intros; apply S2, div_sign; auto).
      assert (y = 0 -> atan (y / x) = 0).
      { intros. subst. replace (0 / x) with 0 by (field; lra). apply atan_0. }
      repeat split; intros; try lra;
        try (assert (atan (y / x) < 0) by auto; lra); try (assert (atan (y / x) = 0) by auto; lra).
    - assert (0 < atan (y / x)) by (apply S1, div_sign2; lra).
      repeat split; lra. }
  destruct (Rlt_dec 0 y); [repeat split; lra|].
  destruct (Rlt_dec y 0); repeat split; lra.
Qed.

(* pi *)
Theorem pi_bounds : 3.14159265358 < PI < 3.14159265359.
Proof.
  assert (H := PI_2_3_7_ineq 8). destruct H as [L U].
  unfold sum_f_R0, tg_alt, PI_2_3_7_tg, Ratan_seq in *. simpl in L, U.
  split; lra.
Qed.

Print Assumptions atan2_range.
