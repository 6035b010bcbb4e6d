(* The facts about sine and cosine that the interval contracts (C03) use:
   harness/src/contracts/interval.rs, trig_facts. *)
Require Import Reals Lra.
Open Scope R_scope.

Lemma interp : forall a b t, cos t * sin (b - a) = cos a * sin (b - t) + cos b * sin (t - a).
Proof.
  intros. rewrite !sin_minus.
  replace (cos t * (sin b * cos a - cos b * sin a)) with (cos t * sin b * cos a - cos t * cos b * sin a) by ring.
  ring.
Qed.

Lemma cos_nonneg_between : forall a b t, a <= t <= b -> b - a < PI -> 0 <= cos a -> 0 <= cos b -> 0 <= cos t.
Proof.
  intros a b t [H1 H2] Hw Ha Hb.
  destruct (Req_dec a b) as [E|E].
  - assert (t = a) by lra. subst. exact Ha.
  - assert (S : 0 < sin (b - a)) by (apply sin_gt_0; lra).
    assert (S1 : 0 <= sin (b - t)) by (apply sin_ge_0; lra).
    assert (S2 : 0 <= sin (t - a)) by (apply sin_ge_0; lra).
    assert (I := interp a b t).
    apply Rmult_le_reg_r with (sin (b - a)). exact S.
    rewrite Rmult_0_l, I.
    apply Rplus_le_le_0_compat; apply Rmult_le_pos; assumption.
Qed.

Lemma sin_incr : forall a b, a <= b -> (forall t, a <= t <= b -> 0 <= cos t) -> sin a <= sin b.
Proof.
  intros a b H P.
  destruct (Req_dec a b) as [E|E]. subst; lra.
  destruct (MVT_cor2 sin cos a b) as [c [E1 E2]]. lra.
  intros; apply derivable_pt_lim_sin.
  assert (0 <= cos c * (b - a)). apply Rmult_le_pos. apply P; lra. lra. lra.
Qed.

Theorem sin_mono_pos : forall a b x, a <= x <= b -> b - a < PI -> 0 <= cos a -> 0 <= cos b -> sin a <= sin x <= sin b.
Proof.
  intros a b x H Hw Ha Hb.
  assert (P : forall t, a <= t <= b -> 0 <= cos t) by (intros; apply (cos_nonneg_between a b); assumption).
  split; apply sin_incr; try lra; intros; apply P; lra.
Qed.

Theorem sin_mono_neg : forall a b x, a <= x <= b -> b - a < PI -> cos a <= 0 -> cos b <= 0 -> sin b <= sin x <= sin a.
Proof.
  intros a b x H Hw Ha Hb.
  destruct (sin_mono_pos (a + PI) (b + PI) (x + PI)) as [H1 H2]; try lra.
  rewrite neg_cos; lra. rewrite neg_cos; lra.
  rewrite !neg_sin in *. lra.
Qed.

Lemma sin_neg_far : forall u, 0 < u -> sin u <= 0 -> PI <= u.
Proof.
  intros u H S. destruct (Rle_lt_dec PI u); auto.
  assert (0 < sin u) by (apply sin_gt_0; lra). lra.
Qed.

(* a < p < q < b, cos a <= 0 < cos p, cos q < 0 <= cos b needs a full turn *)
Lemma crossing : forall a p q b, a <= p -> p < q -> q <= b -> q - p < PI ->
  cos a <= 0 -> 0 < cos p -> cos q < 0 -> 0 <= cos b -> 2 * PI <= b - a.
Proof.
  intros a p q b H1 H2 H3 Hw Ha Hp Hq Hb.
  destruct (IVT (fun t => - cos t) p q) as [d [D1 D2]].
  - intros t. apply continuity_pt_opp. apply continuity_cos.
  - exact H2.
  - simpl. lra.
  - simpl. lra.
  - assert (C0 : cos d = 0) by lra.
    assert (NP : d <> p) by (intro; subst; lra).
    assert (NQ : d <> q) by (intro; subst; lra).
    (* sin d = 1 *)
    assert (SD : 0 < sin d).
    { assert (E : cos p = sin d * sin (d - p)).
      { rewrite sin_minus, C0.
        assert (Q := sin2_cos2 d). unfold Rsqr in Q. rewrite C0 in Q.
        replace (sin d * (sin d * cos p - 0 * sin p)) with ((sin d * sin d) * cos p) by ring.
        replace (sin d * sin d) with 1 by lra. ring. }
      assert (0 < sin (d - p)) by (apply sin_gt_0; lra).
      destruct (Rle_lt_dec (sin d) 0); auto.
      assert (sin d * sin (d - p) <= 0).
      { rewrite <- (Rmult_0_l (sin (d - p))). apply Rmult_le_compat_r; lra. }
      lra. }
    assert (S1 : sin d = 1).
    { assert (Q := sin2_cos2 d). unfold Rsqr in Q. rewrite C0 in Q.
      assert ((sin d - 1) * (sin d + 1) = 0) by (ring_simplify; lra).
      apply Rmult_integral in H. destruct H; lra. }
    assert (EA : sin (d - a) = cos a) by (rewrite sin_minus, C0, S1; ring).
    assert (EB : sin (b - d) = - cos b) by (rewrite sin_minus, C0, S1; ring).
    assert (PI <= d - a) by (apply sin_neg_far; lra).
    assert (PI <= b - d) by (apply sin_neg_far; lra).
    lra.
Qed.

Lemma sin_diff : forall u v, sin u - sin v = 2 * cos ((u + v) / 2) * sin ((u - v) / 2).
Proof.
  intros. replace u with ((u + v) / 2 + (u - v) / 2) at 1 by field.
  replace v with ((u + v) / 2 - (u - v) / 2) at 3 by field.
  rewrite sin_plus, sin_minus. ring.
Qed.

Theorem sin_valley : forall a b x, a <= x <= b -> b - a < 2 * PI -> cos a <= 0 -> 0 <= cos b -> sin x <= sin a \/ sin x <= sin b.
Proof.
  intros a b x [H1 H2] Hw Ha Hb.
  destruct (Rle_lt_dec (sin x) (sin a)) as [L|L]; auto.
  destruct (Rle_lt_dec (sin x) (sin b)) as [M|M]; auto.
  exfalso.
  assert (Da := sin_diff x a). assert (Db := sin_diff x b).
  assert (A0 : 0 <= sin ((x - a) / 2)) by (apply sin_ge_0; lra).
  assert (B0 : 0 <= sin ((b - x) / 2)) by (apply sin_ge_0; lra).
  assert (B1 : sin ((x - b) / 2) = - sin ((b - x) / 2)).
  { rewrite <- sin_neg. f_equal. field. }
  rewrite B1 in Db.
  assert (P : 0 < cos ((x + a) / 2)).
  { destruct (Rle_lt_dec (cos ((x + a) / 2)) 0); auto.
    assert (0 <= (- cos ((x + a) / 2)) * sin ((x - a) / 2)) by (apply Rmult_le_pos; lra). lra. }
  assert (Q : cos ((x + b) / 2) < 0).
  { destruct (Rle_lt_dec 0 (cos ((x + b) / 2))); auto.
    assert (0 <= cos ((x + b) / 2) * sin ((b - x) / 2)) by (apply Rmult_le_pos; lra). lra. }
  assert (N : a <> b). { intro E. subst. assert (x = b) by lra. subst. lra. }
  assert (2 * PI <= b - a).
  { apply (crossing a ((x + a) / 2) ((x + b) / 2) b); lra. }
  lra.
Qed.

Theorem sin_hill : forall a b x, a <= x <= b -> b - a < 2 * PI -> 0 <= cos a -> cos b <= 0 -> sin a <= sin x \/ sin b <= sin x.
Proof.
  intros a b x H Hw Ha Hb.
  destruct (sin_valley (a + PI) (b + PI) (x + PI)) as [L|L]; try lra.
  rewrite neg_cos; lra. rewrite neg_cos; lra.
  rewrite !neg_sin in L; lra. rewrite !neg_sin in L; lra.
Qed.

Lemma cs : forall t, sin (t + PI / 2) = cos t.
Proof. intros. rewrite sin_plus, cos_PI2, sin_PI2. ring. Qed.
Lemma cc : forall t, cos (t + PI / 2) = - sin t.
Proof. intros. rewrite cos_plus, cos_PI2, sin_PI2. ring. Qed.

Theorem cos_mono_pos : forall a b x, a <= x <= b -> b - a < PI -> 0 <= sin a -> 0 <= sin b -> cos b <= cos x <= cos a.
Proof.
  intros a b x H Hw Ha Hb. rewrite <- !cs.
  apply sin_mono_neg; rewrite ?cc; lra.
Qed.
Theorem cos_mono_neg : forall a b x, a <= x <= b -> b - a < PI -> sin a <= 0 -> sin b <= 0 -> cos a <= cos x <= cos b.
Proof.
  intros a b x H Hw Ha Hb. rewrite <- !cs.
  apply sin_mono_pos; rewrite ?cc; lra.
Qed.
Theorem cos_valley : forall a b x, a <= x <= b -> b - a < 2 * PI -> 0 <= sin a -> sin b <= 0 -> cos x <= cos a \/ cos x <= cos b.
Proof.
  intros a b x H Hw Ha Hb. rewrite <- !cs.
  apply sin_valley; rewrite ?cc; lra.
Qed.
Theorem cos_hill : forall a b x, a <= x <= b -> b - a < 2 * PI -> sin a <= 0 -> 0 <= sin b -> cos a <= cos x \/ cos b <= cos x.
Proof.
  intros a b x H Hw Ha Hb. rewrite <- !cs.
  apply sin_hill; rewrite ?cc; lra.
Qed.

(* used by the perspective contract (C12) *)
Theorem tan_pos : forall x, 0 < x -> x < PI / 2 -> 0 < tan x.
Proof. intros. apply tan_gt_0; assumption. Qed.

Print Assumptions sin_valley.
