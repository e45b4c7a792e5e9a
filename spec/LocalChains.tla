----------------------------- MODULE LocalChains -----------------------------
(***************************************************************************)
(* Histories of local chain collections: a few registers, every operation  *)
(* of the class, and client code that edits one collection in place (as    *)
(* the extension problem does with its copies).  Only the register an      *)
(* operation is applied to (or its result is stored in) changes.  Every    *)
(* history up to Depth operations is explored; finished histories are      *)
(* exported and replayed into the class.                                   *)
(***************************************************************************)
EXTENDS ChainSpec, Export
CONSTANTS p, NReg, NR, Depth
VARIABLES reg, hist
vars == <<reg, hist>>
Wd == <<1, 1>>                       \* two regions of width one
R == 1 .. NReg

Rows == {<<v>> : v \in {1, p - 1}}
Entries == {[ref |-> <<>>, row |-> <<>>]}
           \cup {[ref |-> <<r>>, row |-> <<x>>] : r \in 0 .. (NR - 1), x \in Rows}
           \cup {[ref |-> <<0, 1>>, row |-> <<x, y>>] : x, y \in Rows}
Coefs == {<<<<1, p - 1>>>>, <<<<0, 1>>, <<1, 0>>>>}
Start == {<<[ref |-> <<0>>, row |-> <<<<1>>>>], [ref |-> <<>>, row |-> <<>>]>>,
          <<[ref |-> <<0, 1>>, row |-> <<<<1>>, <<p - 1>>>>],
            [ref |-> <<1>>, row |-> <<<<1>>>>]>>}

Init == \E c \in Start :
    /\ reg = [o \in R |-> IF o = 1 THEN Den(c, Wd, NR, p) ELSE ZeroDen(Wd, NR)]
    /\ hist = <<[op |-> "new", o |-> 1, c |-> c]>>
Do(op, o, val) == /\ reg' = [reg EXCEPT ![o] = val]
                  /\ hist' = Append(hist, op)
New(o) == \E c \in Start :
    Do([op |-> "new", o |-> o, c |-> c], o, Den(c, Wd, NR, p))
Entry(o) == \E k \in 1 .. 2 : \E e \in Entries :
    /\ (e.ref = <<>> => \A r \in 0 .. (NR - 1) : IsZero(reg[o][k][r], p))
    /\ Do([op |-> "entry", o |-> o, k |-> k, ref |-> e.ref, row |-> e.row],
          o, DSet(reg[o], k, e.ref, e.row, p))
Plus(o) == \E a, b \in R :
    Do([op |-> "plus", o |-> o, a |-> a, b |-> b], o, DAdd(reg[a], reg[b], p))
Minus(o) == Do([op |-> "minus", o |-> o], o, DNeg(reg[o], p))
Sums(o) == \E a \in R : \E co \in Coefs :
    Do([op |-> "sums", o |-> o, a |-> a, co |-> co], o, DSums(reg[a], co, p))
Copy(o) == \E a \in R \ {o} : Do([op |-> "copy", o |-> o, a |-> a], o, reg[a])
Poke(o) == \E k \in 1 .. 2 : \E r \in 0 .. (NR - 1) :
    /\ ~ IsZero(reg[o][k][r], p)
    /\ Do([op |-> "poke", o |-> o, k |-> k, r |-> r, row |-> <<0>>],
          o, DPoke(reg[o], k, r, <<0>>, p))

More == Len(hist) < Depth /\ \E o \in R :
    New(o) \/ Entry(o) \/ Plus(o) \/ Minus(o) \/ Sums(o) \/ Copy(o) \/ Poke(o)
Done == Len(hist) = Depth
        /\ Out([p |-> p, nreg |-> NReg, nr |-> NR, wd |-> Wd, ops |-> hist])
        /\ UNCHANGED vars
Next == More \/ Done
Spec == Init /\ [][Next]_vars

Typed == \A o \in R : \A k \in 1 .. 2 : \A r \in 0 .. (NR - 1) :
             reg[o][k][r][1] \in 0 .. (p - 1)
\* laws of the operations
Laws == \A a, b \in R :
    /\ DAdd(reg[a], reg[b], p) = DAdd(reg[b], reg[a], p)
    /\ DNeg(DNeg(reg[a], p), p) = reg[a]
    /\ DAdd(reg[a], DNeg(reg[a], p), p) = ZeroDen(Wd, NR)
    /\ \A co \in Coefs : DSums(DAdd(reg[a], reg[b], p), co, p)
                         = DAdd(DSums(reg[a], co, p), DSums(reg[b], co, p), p)
=============================================================================
