----------------------------- MODULE RectSpec -------------------------------
(* A spatial tree is a set of items with rectangles; a region query reports exactly the items whose     *)
(* closed rectangle meets the closed query rectangle, each once.  The bounded model also has the tree:   *)
(* a k-d split of the items where an item sits at the first node whose divider cuts it, and pruning by   *)
(* dividers; it checks that pruned search equals the definition, for every divider position.             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Ids, Coords
VARIABLES items, div   \* items: function id -> <<x0,y0,x1,y1>>;  div: divider of each node of a depth-2 tree
Meets(r, q) == r[1] <= q[3] /\ r[2] <= q[4] /\ r[3] >= q[1] /\ r[4] >= q[2]
Hits(q) == {i \in DOMAIN items : Meets(items[i], q)}
Insert(i, r) == i \notin DOMAIN items /\ items' = [j \in DOMAIN items \cup {i} |-> IF j = i THEN r ELSE items[j]]
Remove(i) == i \in DOMAIN items /\ items' = [j \in DOMAIN items \ {i} |-> items[j]]
Clear == items' = << >>
\* --- bounded model: node "" splits on x at div[1]; its left and right children split on y at div[2], div[3]
Place(r) == LET d == IF r[3] < div[1] THEN 2 ELSE IF r[1] > div[1] THEN 3 ELSE 1 IN d
Search(q) == {i \in DOMAIN items : /\ Meets(items[i], q)
                                   /\ \/ Place(items[i]) = 1
                                      \/ Place(items[i]) = 2 /\ div[1] >= q[1]
                                      \/ Place(items[i]) = 3 /\ div[1] <= q[3]}
Rects == {r \in Coords \X Coords \X Coords \X Coords : r[1] <= r[3] /\ r[2] <= r[4]}
Init == items = << >> /\ div \in [1..1 -> Coords]
Next == (\E i \in Ids, r \in Rects : Insert(i, r) /\ UNCHANGED div) \/ (\E i \in Ids : Remove(i) /\ UNCHANGED div) \/ (\E d \in Coords : div' = [div EXCEPT ![1] = d] /\ UNCHANGED items)
SearchIsDefinition == \A q \in Rects : Search(q) = Hits(q)
=============================================================================
