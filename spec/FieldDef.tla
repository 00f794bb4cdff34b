------------------------------ MODULE FieldDef ------------------------------
(***************************************************************************)
(* The six prime fields in full: besides the modulus, the factorisation of *)
(* p-1 (which decides whether a generator is primitive) and the two-adic   *)
(* subgroup.  cof = (p-1)/q.                                               *)
(***************************************************************************)
EXTENDS Field, Instances, SequencesExt, TLC

FactBLS == <<
    [q |-> <<2>>, m |-> 32,
     cof |-> <<0, 16777088, 16744447, 8388397, 14602753, 15467177, 263376, 1678572, 13549220, 13871508, 14838>>],
    [q |-> <<3>>, m |-> 1,
     cof |-> <<0, 5592320, 11162965, 11184670, 4142763, 15903857, 5767989, 6711453, 9032813, 9247672, 9892>>],
    [q |-> <<11>>, m |-> 1,
     cof |-> <<0, 7625984, 7620049, 12201573, 14856657, 11963422, 47886, 14032008, 10089501, 16248905, 2697>>],
    [q |-> <<19>>, m |-> 1,
     cof |-> <<0, 3532032, 3528596, 7947080, 14782302, 15756305, 9740848, 11655839, 1426233, 16471352, 1561>>],
    [q |-> <<10177>>, m |-> 1,
     cof |-> <<0, 1556224, 1478736, 666011, 3921455, 6694473, 783109, 11632445, 5017528, 15370438, 2>>],
    [q |-> <<125527>>, m |-> 1,
     cof |-> <<0, 6199552, 8800329, 4064024, 3665700, 9296567, 8035163, 10709607, 4857745, 3966544>>],
    [q |-> <<859267>>, m |-> 1,
     cof |-> <<0, 15586560, 15318246, 12594836, 10332778, 13153503, 10308104, 7963483, 2479964, 579457>>],
    [q |-> <<906349>>, m |-> 2,
     cof |-> <<0, 11180800, 16773328, 2880293, 11829690, 4296105, 16369239, 3307951, 2661656, 549356>>],
    [q |-> <<2508409>>, m |-> 1,
     cof |-> <<0, 12334848, 6967990, 5368656, 6260424, 9698230, 14087112, 3873628, 11775435, 198495>>],
    [q |-> <<2529403>>, m |-> 1,
     cof |-> <<0, 7949568, 1337174, 5664058, 7485782, 3792856, 2293277, 52056, 3205600, 196848>>],
    [q |-> <<2106251, 3>>, m |-> 1,
     cof |-> <<0, 1301760, 16759706, 14823659, 16183918, 1406544, 472062, 2201306, 3376703, 9495>>],
    [q |-> <<3102053, 15>>, m |-> 2,
     cof |-> <<0, 2855680, 16777202, 10993301, 15579963, 16345352, 14814349, 2869757, 7032811, 1954>>]>>
FactBN == <<
    [q |-> <<2>>, m |-> 28,
     cof |-> <<0, 16435704, 4760048, 3988664, 1700900, 11284116, 14368960, 14428194, 10014740, 2570608, 6194>>],
    [q |-> <<3>>, m |-> 2,
     cof |-> <<0, 10957136, 14358176, 8251514, 1133933, 7522744, 15171712, 15211201, 6676493, 7306144, 4129>>],
    [q |-> <<13>>, m |-> 1,
     cof |-> <<0, 5109680, 2022870, 8356971, 9295562, 13351013, 9953939, 7381942, 2831284, 15882139, 952>>],
    [q |-> <<29>>, m |-> 1,
     cof |-> <<0, 13861040, 6692050, 11267049, 5324025, 11191659, 14297030, 16036689, 13418214, 3069906, 427>>],
    [q |-> <<983>>, m |-> 1,
     cof |-> <<0, 1740176, 2484452, 15880761, 5925834, 12396795, 11174221, 7129377, 15500472, 10109107, 12>>],
    [q |-> <<11003>>, m |-> 1,
     cof |-> <<0, 7829712, 11499273, 8487681, 9179518, 6627244, 1022693, 15247429, 5324846, 2112295, 1>>],
    [q |-> <<237073>>, m |-> 1,
     cof |-> <<0, 15148272, 15852811, 12909062, 12780811, 5168575, 10560214, 6062191, 7440859, 876697>>],
    [q |-> <<3275615, 24>>, m |-> 1,
     cof |-> <<0, 9757200, 3347092, 16219634, 6775052, 10638341, 15828026, 13004623, 237564, 512>>],
    [q |-> <<3378869, 15703530, 5>>, m |-> 1,
     cof |-> <<0, 15780400, 5005184, 16669612, 11428696, 1413769, 4122624, 16402643, 2086>>],
    [q |-> <<9775073, 9824370, 8191191, 2926152>>, m |-> 1,
     cof |-> <<0, 12734960, 10240140, 3952190, 2430203, 14529315, 71028>>]>>
FactPALLAS == <<
    [q |-> <<2>>, m |-> 32,
     cof |-> <<0, 9991808, 9292950, 304764, 2313342, 17, 0, 0, 0, 0, 8192>>],
    [q |-> <<3>>, m |-> 1,
     cof |-> <<0, 1068800, 602895, 11387987, 12727038, 5592416, 5592405, 5592405, 5592405, 5592405, 5461>>],
    [q |-> <<463>>, m |-> 1,
     cof |-> <<0, 8160000, 12251636, 12502697, 6170093, 1195784, 11269361, 6558695, 15037893, 6486223, 35>>],
    [q |-> <<1897845, 9785366, 1915637>>, m |-> 1,
     cof |-> <<0, 13015296, 4668718, 7520120, 486616, 9539851, 10111020, 143491>>],
    [q |-> <<13977181, 2421400, 445043, 10436456, 11150677, 6770241>>, m |-> 1,
     cof |-> <<0, 13357312, 8911647, 15104803, 40600>>]>>
FactVESTA == <<
    [q |-> <<2>>, m |-> 32,
     cof |-> <<0, 7704704, 7259683, 313940, 2313342, 17, 0, 0, 0, 0, 8192>>],
    [q |-> <<3>>, m |-> 2,
     cof |-> <<0, 16321280, 4839788, 11394104, 12727038, 5592416, 5592405, 5592405, 5592405, 5592405, 5461>>],
    [q |-> <<1709>>, m |-> 1,
     cof |-> <<0, 15254784, 6772393, 3171251, 10457789, 13783037, 1894676, 7657243, 4780868, 9846429, 9>>],
    [q |-> <<24859>>, m |-> 1,
     cof |-> <<0, 10777344, 331282, 1081882, 14494907, 1299847, 13863694, 650598, 7844980, 11057480>>],
    [q |-> <<1722115, 809521, 16405589, 357>>, m |-> 1,
     cof |-> <<0, 4852480, 11340853, 6474724, 8956498, 14189476, 12888172, 45>>],
    [q |-> <<5171661, 11797461, 9600603, 16248646, 131611>>, m |-> 1,
     cof |-> <<0, 2270464, 10062289, 8931092, 15931816, 2088547>>]>>
FactGOLDILOCKS == <<
    [q |-> <<2>>, m |-> 32,
     cof |-> <<0, 16777088, 32767>>],
    [q |-> <<3>>, m |-> 1,
     cof |-> <<0, 5592320, 21845>>],
    [q |-> <<5>>, m |-> 1,
     cof |-> <<0, 3355392, 13107>>],
    [q |-> <<17>>, m |-> 1,
     cof |-> <<0, 986880, 3855>>],
    [q |-> <<257>>, m |-> 1,
     cof |-> <<0, 65280, 255>>],
    [q |-> <<65537>>, m |-> 1,
     cof |-> <<0, 16776960>>]>>
FactBABYBEAR == <<
    [q |-> <<2>>, m |-> 27,
     cof |-> <<0, 60>>],
    [q |-> <<3>>, m |-> 1,
     cof |-> <<0, 40>>],
    [q |-> <<5>>, m |-> 1,
     cof |-> <<0, 24>>]>>
Factors(f) == CASE f = "BLS" -> FactBLS [] f = "BN" -> FactBN [] f = "PALLAS" -> FactPALLAS
                [] f = "VESTA" -> FactVESTA [] f = "GOLDILOCKS" -> FactGOLDILOCKS [] f = "BABYBEAR" -> FactBABYBEAR

(* ---- exact products, in base 2^12 so that nothing exceeds 32 bits ------- *)
Digits12(a) == TLCEval([i \in 1..(2 * Len(a)) |-> IF i % 2 = 1 THEN a[(i + 1) \div 2] % 4096 ELSE a[i \div 2] \div 4096])
RECURSIVE Column(_, _, _, _, _)
\* sum of x[i]*y[k+1-i]
Column(x, y, k, i, acc) == IF i > Len(x) \/ i > k THEN acc
                           ELSE Column(x, y, k, i + 1, IF k + 1 - i <= Len(y) THEN acc + x[i] * y[k + 1 - i] ELSE acc)
RECURSIVE Carry(_, _, _, _, _)
Carry(x, y, k, n, c) == IF k > n THEN <<>>
                        ELSE LET v == Column(x, y, k, 1, 0) + c IN <<v % 4096>> \o Carry(x, y, k + 1, n, v \div 4096)
Mul12(x, y) == TLCEval(Carry(x, y, 1, Len(x) + Len(y), 0))
RECURSIVE Strip(_)
Strip(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN Strip(SubSeq(x, 1, Len(x) - 1)) ELSE x
RECURSIVE Pow12(_, _)
Pow12(x, m) == IF m = 0 THEN <<1>> ELSE Strip(Mul12(x, Pow12(x, m - 1)))

PMinus1(f) == [Modulus(f) EXCEPT ![1] = @ - 1]
\* the listed factors are exactly those of p-1
FactorsExact(f) ==
  /\ Strip(FoldLeft(LAMBDA acc, x : Strip(Mul12(acc, Pow12(Digits12(x.q), x.m))), <<1>>, Factors(f))) = Strip(Digits12(PMinus1(f)))
  /\ \A i \in 1..Len(Factors(f)) :
        Strip(Mul12(Digits12(Factors(f)[i].q), Digits12(Factors(f)[i].cof))) = Strip(Digits12(PMinus1(f)))
TwoAdicity(f) == Factors(f)[1].m       \* the first factor listed is 2

\* g generates the multiplicative group: g^((p-1)/q) # 1 for every prime q dividing p-1
Primitive(f, g) == \A i \in 1..Len(Factors(f)) : BPow(g, Factors(f)[i].cof, Modulus(f)) # BOneOf(Modulus(f))
RECURSIVE TwoPow(_, _, _)
TwoPow(x, k, p) == IF k = 0 THEN x ELSE TwoPow(BMul(x, x, p), k - 1, p)
\* x has order exactly 2^k
HasOrder2(x, k, p) == TwoPow(x, k, p) = BOneOf(p) /\ TwoPow(x, k - 1, p) # BOneOf(p)
BitLen(p) == LET top == p[Len(p)]
                 RECURSIVE W(_)
                 W(v) == IF v = 0 THEN 0 ELSE 1 + W(v \div 2)
             IN 24 * (Len(p) - 1) + W(top)
=============================================================================
