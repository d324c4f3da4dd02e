----------------------------- MODULE MC_Theory -----------------------------
EXTENDS Theory
P(du, dl, l, e, h) == [du |-> FInt(du), dl |-> FInt(dl), lambda0 |-> FRat(l, 100), a |-> F0,
                       efficacy |-> FRat(e, 100), eta |-> FRat(h, 100)]
mcPars == {P(du, dl, l, e, h) : du \in {50, 120}, dl \in {150, 1200, 4000}, l \in {70, 125, 300},
                                e \in {60, 100, 130}, h \in {30, 80}}
mcParsQ == {P(du, dl, l, e, h) : du \in {50}, dl \in {150, 1200}, l \in {70, 246}, e \in {100, 130}, h \in {80}}
mcDts == {FInt(31557600), FInt(2629800)}
mcForcings == {FInt(-2), F0, FRat(374, 100)}
\* fast worlds, to reach equilibrium in few steps
mcParsC == {P(50, dl, l, e, h) : dl \in {60, 150}, l \in {125, 246}, e \in {60, 130}, h \in {80, 200}}
mcDtsC == {FInt(15778800), FInt(31557600)}
mcForcingsC == {FInt(-2), FRat(374, 100)}
=============================================================================
