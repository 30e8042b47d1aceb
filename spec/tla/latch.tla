--------------------------------- MODULE latch ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: Bool;
  *)
  bad

VARIABLE
  (*
    @type: Seq(Int);
  *)
  out

(*
  @type: (() => Int);
*)
DEPTH == 6

VARIABLE
  (*
    @type: Seq(Int);
  *)
  script

VARIABLE
  (*
    @type: Seq(Int);
  *)
  acts

(*
  @type: ((Seq(Int)) => Seq(Int));
*)
good(l_163) ==
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA0(a_161, x_161) ==
    IF x_161 = -1 THEN a_161 ELSE Append(a_161, x_161)
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA0, <<>>, l_163)

(*
  @type: ((Seq(Int), Seq(Int)) => Seq(Int));
*)
nexts(a_231, o_231) ==
  LET (*
    @type: (({ i: Int, l: Seq(Int) }, Int) => { i: Int, l: Seq(Int) });
  *)
  __QUINT_LAMBDA1(z_227, c_227) ==
    IF c_227 = 0
    THEN [i |-> z_227["i"] + 1,
      l |->
        IF o_231[(z_227["i"] + 1)] = -1
        THEN z_227["l"]
        ELSE Append(z_227["l"], o_231[(z_227["i"] + 1)])]
    ELSE IF c_227 = 2 THEN [ z_227 EXCEPT !["i"] = z_227["i"] + 1 ] ELSE z_227
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA1, [i |-> 0, l |-> <<>>], a_231)[
    "l"
  ]

(*
  @type: ((Bool) => Int);
*)
R_b2i(R_b_2639) == IF R_b_2639 THEN 1 ELSE 0

(*
  @type: (() => Bool);
*)
step ==
  Len(acts) < DEPTH
    /\ (\E x \in { (-1), 0, 7 }:
      (~bad
          /\ script' := (Append(script, x))
          /\ bad' := (x = -1)
          /\ out' := (Append(out, x))
          /\ acts' := (Append(acts, 0)))
        \/ (bad
          /\ script' := script
          /\ bad' := bad
          /\ out' := (Append(out, (-1)))
          /\ acts' := (Append(acts, 0)))
        \/ (script' := script
          /\ bad' := FALSE
          /\ out' := out
          /\ acts' := (Append(acts, 1)))
        \/ (script' := script
          /\ bad' := bad
          /\ out' := (Append(out, (IF bad THEN 1 ELSE 0)))
          /\ acts' := (Append(acts, 2)))
        \/ (script' := script
          /\ bad' := FALSE
          /\ out' := out
          /\ acts' := (Append(acts, 3))))

(*
  @type: (() => Bool);
*)
sticky == bad => Len(script) > 0 /\ script[(Len(script) - 1 + 1)] = -1

(*
  @type: (() => Bool);
*)
init == script = <<>>/\ acts = <<>>/\ bad = FALSE/\ out = <<>>

(*
  @type: ((Seq(Int), Seq(Int)) => Seq(Int));
*)
R_latch(R_script_1348, R_acts_1348) ==
  LET (*
    @type: (({ bad: Bool, i: Int, r: Seq(Int) }, Int) => { bad: Bool, i: Int, r: Seq(Int) });
  *)
  __QUINT_LAMBDA2(R_z_1344, R_a_1344) ==
    IF R_a_1344 = 0
    THEN IF R_z_1344["bad"]
    THEN [ R_z_1344 EXCEPT !["r"] = Append(R_z_1344["r"], (-1)) ]
    ELSE LET (*
      @type: (() => Int);
    *)
    R_x ==
      IF R_z_1344["i"] < Len(R_script_1348)
      THEN R_script_1348[(R_z_1344["i"] + 1)]
      ELSE -1
    IN
    [i |-> R_z_1344["i"] + 1,
      bad |-> R_x = -1,
      r |-> Append(R_z_1344["r"], (R_x))]
    ELSE IF R_a_1344 = 2
    THEN [
      R_z_1344 EXCEPT
        !["r"] = Append(R_z_1344["r"], (R_b2i(R_z_1344["bad"])))
    ]
    ELSE [ R_z_1344 EXCEPT !["bad"] = FALSE ]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA2, [i |-> 0, bad |-> FALSE, r |-> <<>>], R_acts_1348)[
    "r"
  ]

(*
  @type: (() => Bool);
*)
inOrder == nexts(acts, out) = good(script)

(*
  @type: (() => Bool);
*)
functional == out = R_latch(script, acts)

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
q_step == step

(*
  @type: (() => Bool);
*)
latchOk == (functional /\ inOrder) /\ sticky

(*
  @type: (() => Bool);
*)
q_inv == latchOk

================================================================================
