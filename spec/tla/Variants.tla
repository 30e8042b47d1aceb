---- MODULE Variants ----
Variant(t, v) == [tag |-> t, value |-> v]
UNIT == "U_OF_UNIT"
====
