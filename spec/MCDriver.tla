---- MODULE MCDriver ----
EXTENDS DriverDesign
call(p, o) == [th |-> p, outer |-> o]
One == <<call(1, 0)>>
Two == <<call(1, 0), call(2, 0)>>
Seq2 == <<call(1, 0), call(1, 0)>>
Nest == <<call(1, 0), call(1, 1)>>
NestTwo == <<call(1, 0), call(1, 1), call(2, 0)>>
I0 == <<>>
I1 == <<1>>
I2 == <<2>>
IP == <<0>>
IPP == <<0, 0>>
I10 == <<1, 0>>
NoBusy == {}
Busy1 == {1}
Busy2 == {2}
====
