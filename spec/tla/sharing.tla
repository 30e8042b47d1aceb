-------------------------------- MODULE sharing --------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: Seq(Int);
  *)
  old

VARIABLE
  (*
    @type: Seq(Int);
  *)
  oldEnv

VARIABLE
  (*
    @type: Str;
  *)
  op

VARIABLE
  (*
    @type: Int;
  *)
  dst

(*
  @type: (() => Set(Int));
*)
H == { 0, 1, 2 }

VARIABLE
  (*
    @type: { env: Seq(Int), heap: Seq(Int) };
  *)
  sto

(*
  @type: (({ env: Seq(Int), heap: Seq(a) }, Int) => a);
*)
look(s_37, h_37) == s_37["heap"][(s_37["env"][(h_37 + 1)] + 1)]

(*
  @type: (({ env: Seq(Int), heap: Seq(c) }) => Int);
*)
freeCell(s_96) ==
  LET (*
    @type: (({ c: Int, free: Int }, c) => { c: Int, free: Int });
  *)
  __QUINT_LAMBDA1(acc_92, id__92) ==
    [c |-> acc_92["c"] + 1,
      free |->
        IF acc_92["free"] /= -1
          \/ LET (*
            @type: ((Bool, Int) => Bool);
          *)
          __QUINT_LAMBDA0(b_80, e_80) == b_80 \/ e_80 = acc_92["c"]
          IN
          ApaFoldSeqLeft(__QUINT_LAMBDA0, FALSE, s_96["env"])
        THEN acc_92["free"]
        ELSE acc_92["c"]]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA1, [c |-> 0, free |-> -1], s_96["heap"])[
    "free"
  ]

(*
  @type: (({ env: Seq(Int), heap: Seq(e) }, Int, Int) => { env: Seq(Int), heap: Seq(e) });
*)
share(s_186, d_186, a_186) ==
  [env |-> [ s_186["env"] EXCEPT ![d_186 + 1] = s_186["env"][(a_186 + 1)] ],
    heap |-> s_186["heap"]]

(*
  @type: (({ env: Seq(Int), heap: Seq(g) }, Int, g) => { env: Seq(Int), heap: Seq(g) });
*)
putShared(s_157, d_157, x_157) ==
  [env |-> s_157["env"],
    heap |-> [ s_157["heap"] EXCEPT ![s_157["env"][(d_157 + 1)] + 1] = x_157 ]]

(*
  @type: (({ env: Seq(Int), heap: Seq(Int) }) => Seq(Int));
*)
view(s_225) == <<(look(s_225, 0)), (look(s_225, 1)), (look(s_225, 2))>>

(*
  @type: (() => Bool);
*)
init ==
  sto = [env |-> <<0, 1, 2>>, heap |-> <<0, 1, 2, 0>>]
    /\ old = <<0, 1, 2>>
    /\ oldEnv = <<0, 1, 2>>
    /\ op = "init"
    /\ dst = 0

(*
  @type: (() => Bool);
*)
freshIsPrivate ==
  op = "deep" \/ op = "out"
    => (\A h_375 \in H:
      h_375 /= dst => sto["env"][(h_375 + 1)] /= sto["env"][(dst + 1)])

(*
  @type: (() => Bool);
*)
isolation ==
  \A h_404 \in H:
    h_404 /= dst
      => look(sto, h_404) = old[(h_404 + 1)]
        \/ (op = "assign" /\ oldEnv[(h_404 + 1)] = oldEnv[(dst + 1)])

(*
  @type: (() => Bool);
*)
visibility ==
  \A h_432 \in H:
    \A g_430 \in H:
      sto["env"][(h_432 + 1)] = sto["env"][(g_430 + 1)]
        => look(sto, h_432) = look(sto, g_430)

(*
  @type: (() => Bool);
*)
onlyCloneShares ==
  \A h_468 \in H:
    \A g_466 \in H:
      (h_468 /= g_466 /\ sto["env"][(h_468 + 1)] = sto["env"][(g_466 + 1)])
        /\ oldEnv[(h_468 + 1)] /= oldEnv[(g_466 + 1)]
        => op = "clone"

(*
  @type: (() => Bool);
*)
freeExists == freeCell(sto) >= 0

(*
  @type: (({ env: Seq(Int), heap: Seq(f) }, Int, f) => { env: Seq(Int), heap: Seq(f) });
*)
putFresh(s_128, d_128, x_128) ==
  LET (*@type: (() => Int); *) c == freeCell(s_128) IN
  [env |-> [ s_128["env"] EXCEPT ![d_128 + 1] = c ],
    heap |-> [ s_128["heap"] EXCEPT ![c + 1] = x_128 ]]

(*
  @type: ((Str, Int, { env: Seq(Int), heap: Seq(Int) }) => Bool);
*)
call(o_287, d_287, s_287) ==
  sto' := s_287
    /\ old' := (view(sto))
    /\ oldEnv' := sto["env"]
    /\ op' := o_287
    /\ dst' := d_287

(*
  @type: (() => Bool);
*)
discipline ==
  (((freshIsPrivate /\ isolation) /\ visibility) /\ onlyCloneShares)
    /\ freeExists

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
step ==
  \E d \in H:
    \E a \in H:
      \E b \in H:
        call("clone", d, (share(sto, d, a)))
          \/ call("deep", d, (putFresh(sto, d, (look(sto, a)))))
          \/ call("out", d, (putFresh(sto, d, ((look(sto, a) + look(sto, b)) % 3))))
          \/ call("assign", d, (putShared(sto, d, (((look(sto, d) + look(sto, b))
            + 1)
            % 3))))

(*
  @type: (() => Bool);
*)
q_inv == discipline

(*
  @type: (() => Bool);
*)
q_step == step

================================================================================
