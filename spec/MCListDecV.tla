---- MODULE MCListDecV ----
EXTENDS MCListDec
V3 == {<<1, 2>>, <<5, 2>>, <<3, 4>>}
V2 == {<<2, 5>>, <<4, 3>>}
====
