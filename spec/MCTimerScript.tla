---- MODULE MCTimerScript ----
EXTENDS TimerScript
A1 == {1}
A12 == {1, 2}
A02 == {0, 2}
I1 == {1}
I2 == {2}
Empty == {}
====
