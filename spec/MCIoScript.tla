---- MODULE MCIoScript ----
EXTENDS IoScript
F(h, d) == [h |-> h, d |-> d, f |-> 1]
P(h, d) == [h |-> h, d |-> d, f |-> 0]
FrFw == <<F(1, 1), F(1, 2)>>
FrFr == <<F(1, 1), F(1, 1)>>
FrFrFr == <<F(1, 1), F(1, 1), F(1, 1)>>
PrPr == <<P(1, 1), P(1, 1)>>
PrPw == <<P(1, 1), P(1, 2)>>
PrFr == <<P(1, 1), F(1, 1)>>
PrFw == <<P(1, 1), F(1, 2)>>
P1P2 == <<P(1, 1), P(2, 1)>>
F1F2 == <<F(1, 1), F(2, 1)>>
P1F2 == <<P(1, 1), F(2, 1)>>
PrPwFrFw == <<P(1, 1), P(1, 2), F(1, 1), F(1, 2)>>
PrPrFrFr == <<P(1, 1), P(1, 1), F(1, 1), F(1, 1)>>
FFPFPF == <<F(1, 1), F(1, 1), P(1, 2), F(2, 1), P(2, 1), F(2, 2)>>
P1 == <<P(1, 1)>>
F1 == <<F(1, 1)>>
R == {1}
RW == {1, 2}
====
