(* The facts about IEEE-754 round-to-nearest-even that the rounded contracts
   (C01-C04, C23) use: tools/vc.py, round_axioms.  A binary format with gradual
   underflow, precision prec and least exponent emin; overflow is not modelled. *)
Require Import Reals ZArith Lra Lia.
From Flocq Require Import Core.
Open Scope R_scope.

Section Fmt.
Variable emin prec : Z.
Context {Hp : Prec_gt_0 prec}.
Notation fexp := (FLT_exp emin prec).
Notation F := (generic_format radix2 fexp).
Notation rnd := (round radix2 fexp ZnearestE).
Notation up := (succ radix2 fexp).
Notation down := (pred radix2 fexp).

Lemma rnd_F : forall x, F (rnd x).
Proof. intros. apply generic_format_round; auto with typeclass_instances. Qed.

Theorem rnd_exact : forall f, F f -> rnd f = f.
Proof. intros. apply round_generic; auto with typeclass_instances. Qed.

Theorem rnd_below : forall e f, F f -> e <= f -> rnd e <= f.
Proof. intros. apply round_le_generic; auto with typeclass_instances. Qed.

Theorem rnd_above : forall e f, F f -> f <= e -> f <= rnd e.
Proof. intros. apply round_ge_generic; auto with typeclass_instances. Qed.

Theorem rnd_mono : forall a b, a <= b -> rnd a <= rnd b.
Proof. intros. apply round_le; auto with typeclass_instances. Qed.

Theorem F_neg : forall f, F f -> F (- f).
Proof. intros. apply generic_format_opp; assumption. Qed.

Theorem rnd_neg : forall x, rnd (- x) = - rnd x.
Proof. intros. apply round_NE_opp. Qed.

Theorem rnd_mono_neg : forall a b, a <= - b -> rnd a <= - rnd b.
Proof. intros. rewrite <- rnd_neg. apply rnd_mono. assumption. Qed.

Theorem F_double : forall f, F f -> F (2 * f).
Proof.
  intros f H. 
  destruct (Req_dec f 0) as [E|E]. { subst. rewrite Rmult_0_r. apply generic_format_0. }
  apply generic_format_FLT. apply FLT_format_generic in H; auto.
  destruct H as [[m e] H1 H2 H3].
  exists (Float radix2 m (e + 1)).
  - rewrite H1. unfold F2R. simpl. rewrite bpow_plus. simpl. lra.
  - exact H2.
  - simpl in *. lia.
Qed.

Theorem up_gt : forall f, F f -> f <> 0 -> f < up f.
Proof. intros. apply succ_gt_id. assumption. Qed.

Theorem up_gt_all : forall f, F f -> f < up f.
Proof.
  intros f H. destruct (Req_dec f 0) as [Z|Z]; [|apply up_gt; auto].
  subst. rewrite succ_0. rewrite ulp_FLT_0; auto. apply bpow_gt_0.
Qed.

Theorem down_lt_all : forall f, F f -> down f < f.
Proof.
  intros f H. assert (G := up_gt_all (- f) (F_neg f H)). rewrite succ_opp in G. lra.
Qed.

Theorem up_ge : forall f, f <= up f.
Proof. intros. apply succ_ge_id. Qed.

Theorem up_least : forall f g, F f -> F g -> f < g -> up f <= g.
Proof. intros. apply succ_le_lt; auto with typeclass_instances. Qed.

Theorem down_greatest : forall f g, F f -> F g -> g < f -> g <= down f.
Proof. intros. apply pred_ge_gt; auto with typeclass_instances. Qed.

Theorem up_mono : forall f g, F f -> F g -> f <= g -> up f <= up g.
Proof. intros. apply succ_le; auto with typeclass_instances. Qed.

Theorem down_mono : forall f g, F f -> F g -> f <= g -> down f <= down g.
Proof. intros. apply pred_le; auto with typeclass_instances. Qed.

(* rounding up to the next float and rounding down: the exact value is enclosed *)
Theorem enclosed_above : forall e, e <= up (rnd e).
Proof.
  intros e. destruct (Rle_lt_dec e (up (rnd e))) as [H|H]; auto. exfalso.
  assert (F (up (rnd e))) by (apply generic_format_succ; auto with typeclass_instances; apply rnd_F).
  assert (L : up (rnd e) <= rnd e) by (apply rnd_above; [assumption | lra]).
  destruct (Req_dec (rnd e) 0) as [Z|Z].
  - rewrite Z in *. rewrite succ_0 in *.
    assert (0 < ulp radix2 fexp 0).
    { assert (Q := ulp_ge_0 radix2 fexp 0).
      destruct Q as [Q|Q]; auto. exfalso. revert Q.
      rewrite ulp_FLT_0; auto. assert (B := bpow_gt_0 radix2 emin). lra. }
    lra.
  - assert (G := up_gt (rnd e) (rnd_F e) Z). lra.
Qed.

Theorem enclosed_below : forall e, down (rnd e) <= e.
Proof.
  intros e. assert (H := enclosed_above (- e)).
  rewrite rnd_neg in H. rewrite succ_opp in H.  lra.
Qed.

(* spacing of the floats around pi: eps = 2^(1-prec) *)
Hypothesis Hemin : (emin <= - prec)%Z.
Notation eps := (bpow radix2 (1 - prec)).

Lemma ulp_mag : forall x, x <> 0 -> ulp radix2 fexp x = bpow radix2 (Z.max (mag radix2 x - prec) emin).
Proof. intros. rewrite ulp_neq_0; auto. Qed.

Theorem near_pi_error : forall e, -4 <= e <= 4 -> rnd e - e <= eps /\ e - rnd e <= eps.
Proof.
  intros e He.
  assert (Q : Rabs (rnd e - e) <= eps).
  { destruct (Req_dec e 0) as [Z|Z].
    { subst. rewrite round_0; auto with typeclass_instances. rewrite Rminus_0_r, Rabs_R0. apply bpow_ge_0. }
    destruct (Req_dec (Rabs e) 4) as [F4|N4].
    { assert (F e).
      { assert (G4 : F 4). { replace 4 with (bpow radix2 2) by (simpl; lra). apply generic_format_FLT_bpow; auto. unfold Prec_gt_0 in Hp. lia. }
        destruct (Rcase_abs e). - rewrite Rabs_left in F4; auto. replace e with (- (4)) by lra. apply generic_format_opp; auto.
        - rewrite Rabs_right in F4; auto. rewrite F4. auto. }
      rewrite rnd_exact; auto. replace (e - e) with 0 by ring. rewrite Rabs_R0. apply bpow_ge_0. }
    assert (A : Rabs e < 4). { assert (Rabs e <= 4) by (apply Rabs_le; lra). lra. }
    eapply Rle_trans. { apply error_le_half_ulp; auto with typeclass_instances. }
    rewrite ulp_mag; auto.
    assert (M : (mag radix2 e <= 2)%Z). { apply mag_le_bpow; auto. }
    replace eps with (/2 * bpow radix2 (2 - prec)).
    - apply Rmult_le_compat_l; [lra|]. apply bpow_le. lia.
    - replace (2 - prec)%Z with (1 + (1 - prec))%Z by ring. rewrite bpow_plus. simpl. lra. }
  apply Rabs_le_inv in Q. lra.
Qed.

Lemma ulp_big : forall k x, bpow radix2 k <= x -> bpow radix2 (k + 1 - prec) <= ulp radix2 fexp x.
Proof.
  intros k x H. assert (B := bpow_gt_0 radix2 k).
  rewrite ulp_mag by lra. apply bpow_le.
  assert (k < mag radix2 x)%Z by (apply mag_gt_bpow; rewrite Rabs_right; lra). lia.
Qed.
Lemma F_bpow : forall k, (emin <= k)%Z -> F (bpow radix2 k).
Proof. intros. apply generic_format_FLT_bpow; auto. Qed.

Lemma gap_pos : forall k e, (emin < k)%Z -> bpow radix2 k <= e -> bpow radix2 (k - prec) <= up (rnd e) - e.
Proof.
  intros k e K H. assert (B := bpow_gt_0 radix2 k).
  assert (G : bpow radix2 k <= rnd e) by (apply rnd_above; [apply F_bpow; lia | auto]).
  rewrite succ_eq_pos by lra.
  assert (U := ulp_big k (rnd e) G).
  assert (E := error_le_half_ulp_round radix2 fexp (fun x => negb (Z.even x)) e).
  apply Rabs_le_inv in E.
  replace (k + 1 - prec)%Z with (1 + (k - prec))%Z in U by ring. rewrite bpow_plus in U. simpl bpow in U at 1.
  fold ZnearestE in E. lra.
Qed.

Lemma gap_neg : forall k x, (emin < k)%Z -> bpow radix2 k <= x -> bpow radix2 (k - prec) <= x - down (rnd x).
Proof.
  intros k x K H. assert (B := bpow_gt_0 radix2 k). assert (B1 := bpow_gt_0 radix2 (k - 1)).
  assert (G : bpow radix2 k <= rnd x) by (apply rnd_above; [apply F_bpow; lia | auto]).
  set (h := down (rnd x)).
  assert (Fh : F h) by (apply generic_format_pred; auto with typeclass_instances; apply rnd_F).
  assert (S : succ radix2 fexp h = rnd x) by (apply succ_pred; auto with typeclass_instances; apply rnd_F).
  assert (K1 : bpow radix2 (k - 1) < bpow radix2 k) by (apply bpow_lt; lia).
  assert (L : bpow radix2 (k - 1) <= h) by (apply down_greatest; [apply rnd_F | apply F_bpow; lia | lra]).
  rewrite succ_eq_pos in S by lra.
  destruct (Rle_lt_dec (rnd x) x) as [C|C].
  - assert (U := ulp_big (k - 1) h L). replace (k - 1 + 1 - prec)%Z with (k - prec)%Z in U by ring. lra.
  - assert (P := round_N_pt radix2 fexp (fun x => negb (Z.even x)) x).
    destruct P as [_ P]. specialize (P h Fh).
    assert (L2 : bpow radix2 k <= h). { apply down_greatest; [apply rnd_F | apply F_bpow; lia | lra]. }
    assert (U := ulp_big k h L2).
    replace (k + 1 - prec)%Z with (1 + (k - prec))%Z in U by ring. rewrite bpow_plus in U. simpl bpow in U at 1.
    rewrite Rabs_right in P by (fold ZnearestE; lra).
    assert (h < x). { destruct (Rlt_le_dec h x); auto. exfalso.
      assert (rnd x <= h) by (apply rnd_below; auto). assert (Q := bpow_gt_0 radix2 (k - prec)). lra. }
    rewrite Rabs_left in P by lra. lra.
Qed.

Lemma neg_up : forall x, up (rnd (- x)) = - down (rnd x).
Proof. intros. rewrite rnd_neg. apply succ_opp. Qed.
Lemma neg_down : forall x, down (rnd (- x)) = - up (rnd x).
Proof. intros. rewrite rnd_neg. apply pred_opp. Qed.

Theorem gap : forall k e, (emin < k)%Z -> bpow radix2 k <= Rabs e ->
  bpow radix2 (k - prec) <= up (rnd e) - e /\ bpow radix2 (k - prec) <= e - down (rnd e).
Proof.
  intros k e K H. destruct (Rcase_abs e) as [N|P].
  - rewrite Rabs_left in H; auto.
    assert (A := gap_pos k (- e) K H). assert (C := gap_neg k (- e) K H).
    rewrite neg_up in A. rewrite neg_down in C. lra.
  - rewrite Rabs_right in H; auto. split; [apply gap_pos | apply gap_neg]; auto.
Qed.

Theorem gap_one : forall e, 1 <= e \/ e <= -1 -> eps / 2 <= up (rnd e) - e /\ eps / 2 <= e - down (rnd e).
Proof.
  intros e H. replace (eps / 2) with (bpow radix2 (0 - prec)).
  - apply gap. { unfold Prec_gt_0 in Hp. lia. } simpl. destruct H; [rewrite Rabs_right | rewrite Rabs_left]; lra.
  - replace (1 - prec)%Z with (1 + (0 - prec))%Z by ring. rewrite bpow_plus. simpl bpow at 2. lra.
Qed.
Theorem gap_two : forall e, 2 <= e \/ e <= -2 -> eps <= up (rnd e) - e /\ eps <= e - down (rnd e).
Proof.
  intros e H. apply gap. { unfold Prec_gt_0 in Hp. lia. } simpl. destruct H; [rewrite Rabs_right | rewrite Rabs_left]; lra.
Qed.
End Fmt.

Print Assumptions gap_two.
