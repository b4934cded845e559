------------------------------- MODULE VecEdit -------------------------------
(* Editing vector individuals: a vector is a sequence, every editing call is  *)
(* one of the operations below on it, and nothing else changes (C29).        *)
EXTENDS Integers, Sequences, FiniteSets

Put(v, i, x) == [v EXCEPT ![i] = x]
Part(v, i, n) == SubSeq(v, i, i + n - 1)
\* part w written over the cells from i on (it must fit)
FitsAt(v, w, i) == i >= 1 /\ i + Len(w) - 1 <= Len(v)
Over(v, w, i) == [j \in DOMAIN v |-> IF j >= i /\ j < i + Len(w) THEN w[j - i + 1] ELSE v[j]]
\* all contiguous, non-empty parts
AllParts(v) == {SubSeq(v, i, j) : i \in DOMAIN v, j \in DOMAIN v} \ {<<>>}

(***************************************************************************)
(* The model: individuals hold references to lists; an editing call either   *)
(* changes the list in place or gives the individual a new one.              *)
CONSTANTS Vals, MaxLen, MaxOps, Bug
VARIABLES heap, ref, len, ret, ghost, ops
vars == <<heap, ref, len, ret, ghost, ops>>
\* ghost: what each individual's vector should be;  heap: lists;  ref: individual -> list;  ret: list a call returned (0: none)
Is == {1, 2}
Init == /\ \E v \in [1..2 -> Vals] : heap = <<v, v>> /\ ghost = [i \in Is |-> v]
        /\ ref = [i \in Is |-> i] /\ len = [i \in Is |-> 2] /\ ret = 0 /\ ops = 0
List(i) == heap[ref[i]]
InPlace(i, v) == heap' = [heap EXCEPT ![ref[i]] = v] /\ UNCHANGED ref
NewList(i, v) == heap' = Append(heap, v) /\ ref' = [ref EXCEPT ![i] = Len(heap) + 1]
Set(i) == \E k \in DOMAIN List(i), x \in Vals :
            InPlace(i, Put(List(i), k, x)) /\ ghost' = [ghost EXCEPT ![i] = Put(@, k, x)] /\ ret' = 0 /\ UNCHANGED len
\* there is no such cell: an error, nothing changes
NoCell(i) == UNCHANGED <<heap, ref, len, ret, ghost>>
Add(i) == \E x \in Vals : Len(List(i)) < MaxLen /\
            InPlace(i, Append(List(i), x)) /\ ghost' = [ghost EXCEPT ![i] = Append(@, x)] /\ ret' = 0
            /\ len' = [len EXCEPT ![i] = IF Bug = "length" THEN @ ELSE @ + 1]
Empty(i) == NewList(i, <<>>) /\ ghost' = [ghost EXCEPT ![i] = <<>>] /\ ret' = 0 /\ len' = [len EXCEPT ![i] = 0]
\* the slices of the implementation, joined
Replace(i) == \E k \in DOMAIN List(i), w \in UNION {[1..n -> Vals] : n \in 1..2} :
                /\ FitsAt(List(i), w, k)
                /\ LET v == List(i)  e == k + Len(w) - (IF Bug = "off" THEN 1 ELSE 0)
                       u == SubSeq(v, 1, k - 1) \o w \o SubSeq(v, e, Len(v)) IN
                   heap' = heap \o <<u, SubSeq(v, k, k + Len(w) - 1)>>
                /\ ref' = [ref EXCEPT ![i] = Len(heap) + 1] /\ ret' = Len(heap) + 2
                /\ ghost' = [ghost EXCEPT ![i] = Over(@, w, k)] /\ UNCHANGED len
GetPart(i) == \E a \in DOMAIN List(i) : \E b \in a..Len(List(i)) :
                /\ heap' = Append(heap, SubSeq(List(i), a, b)) /\ ret' = (IF Bug = "view" THEN ref[i] ELSE Len(heap) + 1)
                /\ UNCHANGED <<ref, ghost, len>>
\* the caller changes what it was given
Spoil == ret # 0 /\ \E x \in Vals : heap' = [heap EXCEPT ![ret] = IF @ = <<>> THEN @ ELSE Put(@, 1, x)]
         /\ UNCHANGED <<ref, ghost, len, ret>>
Clone(i, j) == i # j /\ (IF Bug = "alias" THEN ref' = [ref EXCEPT ![j] = ref[i]] /\ UNCHANGED heap ELSE NewList(j, List(i)))
               /\ ghost' = [ghost EXCEPT ![j] = ghost[i]] /\ len' = [len EXCEPT ![j] = len[i]] /\ ret' = 0
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E i \in Is : Set(i) \/ NoCell(i) \/ Add(i) \/ Empty(i) \/ Replace(i) \/ GetPart(i)
           \/ Spoil
           \/ \E i, j \in Is : Clone(i, j)
Spec == Init /\ [][Next]_vars
AsEdited == \A i \in Is : List(i) = ghost[i]
Lengths == \A i \in Is : len[i] = Len(ghost[i])
\* writing the replaced part back undoes a replacement; the two definitions of parts agree
Undo == \A i \in Is : \A k \in DOMAIN ghost[i], w \in [1..2 -> Vals] :
          FitsAt(ghost[i], w, k) => Over(Over(ghost[i], w, k), Part(ghost[i], k, 2), k) = ghost[i]
SameParts == \A i \in Is : AllParts(ghost[i]) = {Part(ghost[i], a[1], a[2]) : a \in {b \in (1..MaxLen) \X (1..MaxLen) : b[1] + b[2] - 1 <= Len(ghost[i])}}
=============================================================================
