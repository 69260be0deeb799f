------------------------------- MODULE LogMC -------------------------------
(* Two loggers, one stream that can be redirected, two targets, explored completely up to MaxOps steps.                     *)
EXTENDS LogSpec, FiniteSets
CONSTANTS MaxOps, Bufs
VARIABLES ops, made, sent                                         \* ghosts: steps, buffers used, every letter written and where
mv == <<lv, ops, made, sent>>
L == {1, 2}
Levels == [k \in 0..1 |-> <<70 + k>>]
Init == /\ sp = [b \in 1..Bufs |-> [buf |-> <<>>, att |-> <<>>]] /\ lg = <<Nobody, Nobody>> /\ st = <<[at |-> 0, own |-> <<>>]>> /\ tg = <<<<>>, <<>>>>
        /\ ops = 0 /\ made = 0 /\ sent = 0
Letter == <<100 + ops>>                                           \* every write has a letter of its own
Count1 == ops' = ops + 1
Next == /\ ops < MaxOps /\ Count1
        /\ \/ \E i \in L : lg[i].sp = 0 /\ made < Bufs /\ Create(i, made + 1, Levels, <<123, 51, 125>>, <<>>) /\ made' = made + 1 /\ UNCHANGED sent
           \/ \E i \in L : lg[i].sp # 0 /\ UNCHANGED made /\
                \/ \E t \in 1..2 : Len(sp[lg[i].sp].att) < 2 /\ (AddTarget(lg[i].sp, t)) /\ UNCHANGED sent
                \/ ClearTargets(lg[i].sp) /\ UNCHANGED sent
                \/ Write(lg[i].sp, Letter) /\ sent' = sent + 1
                \/ (\E v \in -1..1 : Entry(i, NoText, <<47, 102>>, 3, v, Letter)) /\ sent' = sent + 1
                \/ Set(i, [lg[i] EXCEPT !.max = 1]) /\ UNCHANGED sent
                \/ (st[1].at = 0 \/ st[1].at = lg[i].sp) /\ Len(lg[i].back) < 2 /\ Assimilate(i, 1) /\ UNCHANGED sent
                \/ Destroy(i) /\ UNCHANGED sent
                \/ (\E j \in L : lg[j].sp # 0 /\ MoveAssign(i, j)) /\ UNCHANGED sent
           \/ \E i \in L : lg[i].sp = 0 /\ UNCHANGED <<made, sent>> /\ \E j \in L \ {i} : lg[j].sp # 0 /\ MoveNew(i, j)
           \/ \E f \in BOOLEAN : StreamWrite(1, Letter, f) /\ sent' = sent + 1 /\ UNCHANGED made
Spec == Init /\ [][Next]_mv
Owned == {lg[i].sp : i \in L} \ {0}
(* a stream is never left connected to a buffer that is gone; no two loggers own the same buffer *)
Connected == st[1].at = 0 \/ st[1].at \in Owned
OneOwner == lg[1].sp = 0 \/ lg[1].sp # lg[2].sp
Restorable == \A i \in L : \A k \in 1..Len(lg[i].back) : lg[i].back[k].was \in {0, lg[i].sp}
Gone == \A b \in 1..Bufs : b \notin Owned => sp[b].att = <<>> /\ sp[b].buf = <<>>
(* nothing reaches a target twice unless it is attached twice *)
Letters(s) == SelectSeq(s, LAMBDA c : c >= 100)
AtMost == \A t \in 1..2 : Len(Letters(tg[t])) <= 2 * sent
OwnOnce == Cardinality({k \in 1..Len(st[1].own) : TRUE}) <= sent
(* what a target has received stays *)
Stays == [][\A t \in 1..2 : Len(tg'[t]) >= Len(tg[t]) /\ SubSeq(tg'[t], 1, Len(tg[t])) = tg[t]]_mv
=============================================================================
