---- MODULE WrapMC ----
EXTENDS Wrap
StartsSome == {-25, -24, -10, -1, 0, 7, 23, 24, 25, 40, 47}
StartsAll == -26..49
====
