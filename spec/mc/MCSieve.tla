---- MODULE MCSieve ----
EXTENDS SieveImpl
Sieving0 == <<7, 11, 13, 17, 19>>
Start0 == { 2 * i + 1 : i \in 0..120 }
====
