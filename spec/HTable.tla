------------------------------- MODULE HTable -------------------------------
(* Abstract specification of data/htable: the nodes stored under each key,    *)
(* plus the life of the nodes (in the table or handed back).  A key has one   *)
(* node unless the application added more with htable_insert_unsafe(); which  *)
(* of several a lookup or removal finds is left open.                         *)
EXTENDS Naturals, FiniteSets

VARIABLES tab,     \* function: keys present -> non-empty set of ids of the nodes stored
          mem      \* does the table hold memory of its own?

Keys == DOMAIN tab
Nodes == UNION {tab[k] : k \in Keys}
At(k) == IF k \in Keys THEN tab[k] ELSE {}
Put(k, S) == IF S = {} THEN [x \in Keys \ {k} |-> tab[x]] ELSE [x \in Keys \union {k} |-> IF x = k THEN S ELSE tab[x]]

HTInit == tab = << >> /\ mem = FALSE

(* no key without a node, no node under two keys *)
TypeOK == /\ \A k \in Keys : tab[k] # {}
          /\ \A k \in Keys : \A j \in Keys \ {k} : tab[j] \cap tab[k] = {}

(* An insertion succeeds exactly when the key is absent and memory is found.  *)
InsertOk(k, id) == k \notin Keys /\ tab' = Put(k, {id}) /\ mem' = TRUE
InsertDup(k)    == k \in Keys /\ UNCHANGED <<tab, mem>>
(* The unchecked insertion succeeds whenever memory is found.                 *)
InsertUnsafe(k, id) == tab' = Put(k, At(k) \union {id}) /\ mem' = TRUE
(* Out of memory: nothing changes but the table may now hold the pointer array*)
InsertOom       == UNCHANGED tab /\ mem' \in {mem, TRUE}
(* what a lookup may answer *)
Answers(k)      == IF k \in Keys THEN tab[k] ELSE {0}
RemoveHit(k, id) == /\ k \in Keys /\ id \in tab[k]
                    /\ tab' = Put(k, tab[k] \ {id})
                    /\ mem' = (DOMAIN tab' # {})
RemoveMiss(k)   == k \notin Keys /\ UNCHANGED <<tab, mem>>
Fini            == tab' = << >> /\ mem' = FALSE
=============================================================================
