---- MODULE MCHashTable ----
EXTENDS HashTable
HashDef == [k \in Keys |-> IF k <= 2 THEN 3 ELSE IF k <= 4 THEN 7 ELSE k * 5]
====
