---- MODULE MCIo ----
EXTENDS IoDesign
w(h, d, f) == [h |-> h, d |-> d, f |-> f]
SlotsA == <<w(1, 1, 1), w(1, 2, 1)>>
SlotsB == <<w(1, 1, 1), w(1, 1, 1)>>
SlotsC == <<w(1, 1, 0), w(1, 1, 0)>>
SlotsD == <<w(1, 1, 0), w(1, 2, 1)>>
SlotsE == <<w(1, 1, 1), w(2, 1, 1)>>
SlotsF == <<w(1, 1, 1), w(1, 1, 1), w(1, 2, 1)>>
SlotsG == <<w(1, 1, 0), w(1, 1, 0), w(1, 2, 1)>>
On == TRUE
Three == 3
Four == 4
====
