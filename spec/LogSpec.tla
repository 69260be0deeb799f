------------------------------ MODULE LogSpec ------------------------------
(* Loggers and the streams they redirect.  Text is a sequence of character codes.                                          *)
(*   sp    buffers: what was written and not yet flushed, and the targets that a flush sends it to, in order               *)
(*   lg    loggers: the buffer they own (0: none), names of levels, limit, formats, the streams they redirected, in order, *)
(*         each with what it was connected to before                                                                       *)
(*   st    streams that can be redirected: the buffer each writes to (0: its own) and what its own received                *)
(*   tg    targets: what each has received                                                                                 *)
EXTENDS Integers, Sequences
VARIABLES sp, lg, st, tg
lv == <<sp, lg, st, tg>>
NoText == <<-1>>                                                    \* a null pointer where text is expected
RECURSIVE Digits(_), Sends(_, _, _), Undo(_, _), Fmt(_, _, _, _)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Dec(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)
Digit(c) == c \in 48..57
(* {n} and {nn} in a format stand for the n-th argument, everything else for itself *)
Bad(n) == <<123, 73, 78, 86, 65, 76, 73, 68, 32, 80, 65, 82, 65, 77, 69, 84, 69, 82, 32>> \o Dec(n) \o <<125>>     \* {INVALID PARAMETER n}
Arg(args, n, silent) == IF n < Len(args) THEN args[n + 1] ELSE IF silent THEN <<>> ELSE Bad(n)
Fmt(f, k, args, silent) ==
  IF k > Len(f) THEN <<>>
  ELSE IF f[k] = 123 /\ k + 2 <= Len(f) /\ Digit(f[k + 1]) /\ f[k + 2] = 125
       THEN Arg(args, f[k + 1] - 48, silent) \o Fmt(f, k + 3, args, silent)
  ELSE IF f[k] = 123 /\ k + 3 <= Len(f) /\ Digit(f[k + 1]) /\ Digit(f[k + 2]) /\ f[k + 3] = 125
       THEN Arg(args, 10 * (f[k + 1] - 48) + f[k + 2] - 48, silent) \o Fmt(f, k + 4, args, silent)
  ELSE <<f[k]>> \o Fmt(f, k + 1, args, silent)
Base(path) == LET K == {k \in 1..Len(path) : path[k] \in {47, 92}} IN
              IF K = {} THEN path ELSE SubSeq(path, (CHOOSE k \in K : \A j \in K : j <= k) + 1, Len(path))
(* the header of an entry: source, file without its path, line, level, time of day (T), date and time (D) *)
Header(g, source, file, line, level) ==
  Fmt(IF source = NoText /\ g.nfmt # NoText THEN g.nfmt ELSE g.fmt, 1,
      <<IF source = NoText THEN <<>> ELSE source, Base(file), Dec(line), IF level < 0 THEN <<>> ELSE g.lvl[level], <<84>>, <<68>>>>, TRUE)
(* ---- buffers ---- *)
Sends(t, att, s) == IF att = <<>> THEN t ELSE Sends([t EXCEPT ![Head(att)] = @ \o s], Tail(att), s)
Write(b, s) == sp' = [sp EXCEPT ![b].buf = @ \o s] /\ UNCHANGED <<lg, st, tg>>
WriteFlush(b, s) == sp' = [sp EXCEPT ![b].buf = <<>>] /\ tg' = Sends(tg, sp[b].att, sp[b].buf \o s) /\ UNCHANGED <<lg, st>>
(* a target receives what is written from then on: what came before goes to the targets there were *)
AddTarget(b, t) == sp' = [sp EXCEPT ![b] = [buf |-> <<>>, att |-> Append(sp[b].att, t)]] /\ tg' = Sends(tg, sp[b].att, sp[b].buf) /\ UNCHANGED <<lg, st>>
(* a target whose stream has already failed takes nothing and disturbs nobody *)
AddDead(b) == sp' = [sp EXCEPT ![b].buf = <<>>] /\ tg' = Sends(tg, sp[b].att, sp[b].buf) /\ UNCHANGED <<lg, st>>
AddFile(b, t) == sp' = [sp EXCEPT ![b] = [buf |-> <<>>, att |-> Append(sp[b].att, t)]] /\ tg' = [Sends(tg, sp[b].att, sp[b].buf) EXCEPT ![t] = <<>>] /\ UNCHANGED <<lg, st>>
ClearTargets(b) == sp' = [sp EXCEPT ![b] = [buf |-> <<>>, att |-> <<>>]] /\ tg' = Sends(tg, sp[b].att, sp[b].buf) /\ UNCHANGED <<lg, st>>
(* ---- loggers ---- *)
Nobody == [sp |-> 0, lvl |-> [k \in {} |-> <<>>], max |-> 0, fmt |-> <<>>, nfmt |-> <<>>, back |-> <<>>]
Set(i, g) == lg' = [lg EXCEPT ![i] = g] /\ UNCHANGED <<sp, st, tg>>
Create(i, b, levels, f, nf) == lg' = [lg EXCEPT ![i] = [Nobody EXCEPT !.sp = b, !.lvl = levels, !.max = 127, !.fmt = f, !.nfmt = nf]]
                               /\ sp' = [sp EXCEPT ![b] = [buf |-> <<>>, att |-> <<>>]] /\ UNCHANGED <<st, tg>>
SetLevel(i, k, s) == LET v == lg[i].lvl IN Set(i, [lg[i] EXCEPT !.lvl = [j \in (DOMAIN v) \cup {k} |-> IF j = k THEN s ELSE v[j]]])
(* an entry is its header and its text on a line of its own, and reaches the targets at once; entries from the limit on are left out *)
Entry(i, source, file, line, level, text) ==
  IF level >= lg[i].max THEN UNCHANGED lv ELSE WriteFlush(lg[i].sp, Header(lg[i], source, file, line, level) \o text \o <<10>>)
Assimilate(i, s) == lg' = [lg EXCEPT ![i].back = Append(@, [s |-> s, was |-> st[s].at])] /\ st' = [st EXCEPT ![s].at = lg[i].sp] /\ UNCHANGED <<sp, tg>>
Undo(x, back) == IF back = <<>> THEN x ELSE LET b == back[Len(back)] IN Undo([x EXCEPT ![b.s].at = b.was], SubSeq(back, 1, Len(back) - 1))
(* letting go: what is buffered reaches the targets, and redirected streams are connected to what they were before *)
Free(b) == IF b = 0 THEN sp' = sp /\ tg' = tg ELSE sp' = [sp EXCEPT ![b] = [buf |-> <<>>, att |-> <<>>]] /\ tg' = Sends(tg, sp[b].att, sp[b].buf)
Destroy(i) == Free(lg[i].sp) /\ st' = Undo(st, lg[i].back) /\ lg' = [lg EXCEPT ![i] = Nobody]
(* the whole of a logger changes hands; what the target of an assignment had is let go *)
MoveNew(i, j) == lg' = [lg EXCEPT ![i] = lg[j], ![j] = Nobody] /\ UNCHANGED <<sp, st, tg>>
MoveAssign(i, j) == IF i = j THEN UNCHANGED lv
                    ELSE Free(lg[i].sp) /\ st' = Undo(st, lg[i].back) /\ lg' = [lg EXCEPT ![i] = lg[j], ![j] = Nobody]
(* ---- writing to a stream that may be redirected ---- *)
StreamWrite(s, t, flush) == IF st[s].at = 0 THEN st' = [st EXCEPT ![s].own = @ \o t] /\ UNCHANGED <<sp, lg, tg>>
                            ELSE IF flush THEN WriteFlush(st[s].at, t) ELSE Write(st[s].at, t)
=============================================================================
