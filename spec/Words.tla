------------------------------- MODULE Words --------------------------------
(* 32-bit words as bit sequences, least significant bit first; SHA-256         *)
(* (FIPS 180-4) and BLAKE2s (RFC 7693) over them, written from the standards.  *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Bit(x, i) == (x \div 2 ^ i) % 2
\* a word given as its low and high sixteen bits
Word(p) == TLCEval([i \in 1..32 |-> IF i <= 16 THEN Bit(p[1], i - 1) ELSE Bit(p[2], i - 17)])
Flip(w) == [i \in 1..Len(w) |-> w[Len(w) + 1 - i]]
RotR(w, b) == [i \in 1..32 |-> w[((i - 1 + b) % 32) + 1]]
ShR(w, b) == [i \in 1..32 |-> IF i + b <= 32 THEN w[i + b] ELSE 0]
XorW(a, b) == [i \in 1..32 |-> IF a[i] = b[i] THEN 0 ELSE 1]
Xor3(a, b, c) == [i \in 1..32 |-> (a[i] + b[i] + c[i]) % 2]
Ch(a, b, c) == [i \in 1..32 |-> IF a[i] = 1 THEN b[i] ELSE c[i]]
Maj(a, b, c) == [i \in 1..32 |-> (a[i] + b[i] + c[i]) \div 2]
\* sum modulo 2^32, column by column
Add(ws) == FoldLeft(LAMBDA rc, i : LET s == FoldLeft(LAMBDA x, w : x + w[i], rc[2], ws) IN TLCEval(<<Append(rc[1], s % 2), s \div 2>>), <<<<>>, 0>>, [i \in 1..32 |-> i])[1]
RECURSIVE ConcatFrom(_, _)
ConcatFrom(ws, i) == IF i > Len(ws) THEN <<>> ELSE ws[i] \o ConcatFrom(ws, i + 1)
Concat(ws) == ConcatFrom(ws, 1)
(* ------------------------------- SHA-256 ---------------------------------- *)
K256 == TLCEval(LET k == <<<<12184,17034>>, <<17553,28983>>, <<64463,46528>>, <<56229,59829>>, <<49755,14678>>, <<4593,23025>>, <<33444,37439>>, <<24277,43804>>, <<43672,55303>>, <<23297,4739>>, <<34238,9265>>, <<32195,21772>>, <<23924,29374>>, <<45566,32990>>, <<1703,39900>>, <<61812,49563>>, <<27073,58523>>, <<18310,61374>>, <<40390,4033>>, <<41420,9228>>, <<11375,11753>>, <<33962,19060>>, <<43484,23728>>, <<35034,30457>>, <<20818,38974>>, <<50797,43057>>, <<10184,45059>>, <<32711,48985>>, <<3059,50912>>, <<37191,54695>>, <<25425,1738>>, <<10599,5161>>, <<2693,10167>>, <<8504,11803>>, <<28156,19756>>, <<3347,21304>>, <<29524,25866>>, <<2747,30314>>, <<51502,33218>>, <<11397,37490>>, <<59553,41663>>, <<26187,43034>>, <<35696,49739>>, <<20899,51052>>, <<59417,53650>>, <<1572,54937>>, <<13701,62478>>, <<41072,4202>>, <<49430,6564>>, <<27656,7735>>, <<30540,10056>>, <<48309,13488>>, <<3251,14620>>, <<43594,20184>>, <<51791,23452>>, <<28659,26670>>, <<33518,29839>>, <<25455,30885>>, <<30740,33992>>, <<520,36039>>, <<65530,37054>>, <<27883,42064>>, <<41975,48889>>, <<30962,50801>>>> IN [i \in 1..64 |-> Word(k[i])])
H256 == TLCEval(LET h == <<<<58983,27145>>, <<44677,47975>>, <<62322,15470>>, <<62778,42319>>, <<21119,20750>>, <<26764,39685>>, <<55723,8067>>, <<52505,23520>>>> IN [i \in 1..8 |-> Word(h[i])])
\* folds are evaluated step by step, recursion would nest the terms
Steps(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
Expand(w16) == FoldLeft(LAMBDA w, t :
  LET x == w[t - 15]  y == w[t - 2]
      s0 == Xor3(RotR(x, 7), RotR(x, 18), ShR(x, 3))
      s1 == Xor3(RotR(y, 17), RotR(y, 19), ShR(y, 10))
  IN Append(w, Add(<<w[t - 16], s0, w[t - 7], s1>>)), w16, Steps(17, 64))
Rounds(h, w) == FoldLeft(LAMBDA s, t :
  LET S1 == Xor3(RotR(s[5], 6), RotR(s[5], 11), RotR(s[5], 25))
      S0 == Xor3(RotR(s[1], 2), RotR(s[1], 13), RotR(s[1], 22))
      t1 == <<s[8], S1, Ch(s[5], s[6], s[7]), K256[t], w[t]>>
      nx == <<Add(t1 \o <<S0, Maj(s[1], s[2], s[3])>>), s[1], s[2], s[3], Add(<<s[4]>> \o t1), s[5], s[6], s[7]>>
  IN TLCEval(nx), h, Steps(1, 64))
Compress(h, w16) == LET w == TLCEval(Expand(w16))  r == TLCEval(Rounds(h, w)) IN TLCEval([i \in 1..8 |-> Add(<<h[i], r[i]>>)])
\* message bits come in the order of the standard: most significant first
BlockWords(m, b) == TLCEval([j \in 1..16 |-> Flip(SubSeq(m, 512 * b + 32 * (j - 1) + 1, 512 * b + 32 * j))])
Blocks(h, m) == FoldLeft(LAMBDA g, b : Compress(g, BlockWords(m, b)), h, Steps(0, (Len(m) \div 512) - 1))
Zeros(k) == [i \in 1..k |-> 0]
Pad(m) == LET n == Len(m)  z == (447 - n) % 512 IN m \o <<1>> \o Zeros(z) \o Zeros(44) \o [i \in 1..20 |-> Bit(n, 20 - i)]
BE(h) == Concat([i \in 1..Len(h) |-> Flip(h[i])])
Sha256(m) == BE(Blocks(H256, TLCEval(Pad(m))))
ShaBlock(m) == BE(Compress(H256, BlockWords(m, 0)))
(* ------------------------------- BLAKE2s ---------------------------------- *)
Sigma == <<<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>>, <<14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3>>, <<11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4>>, <<7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8>>, <<9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13>>, <<2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9>>, <<12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11>>, <<13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10>>, <<6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5>>, <<10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0>>>>
\* one quarter of a round: x and y are message words
Mix(v, a, b, c, d, x, y) ==
  LET a1 == Add(<<v[a], v[b], x>>)   d1 == RotR(XorW(v[d], a1), 16)
      c1 == Add(<<v[c], d1>>)        b1 == RotR(XorW(v[b], c1), 12)
      a2 == Add(<<a1, b1, y>>)       d2 == RotR(XorW(d1, a2), 8)
      c2 == Add(<<c1, d2>>)          b2 == RotR(XorW(b1, c2), 7)
  IN TLCEval([v EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2])
Lanes == <<<<1, 5, 9, 13>>, <<2, 6, 10, 14>>, <<3, 7, 11, 15>>, <<4, 8, 12, 16>>, <<1, 6, 11, 16>>, <<2, 7, 12, 13>>, <<3, 8, 9, 14>>, <<4, 5, 10, 15>>>>
\* eight quarter rounds a round, ten rounds
MixAll(v0, m) == FoldLeft(LAMBDA v, j : LET r == ((j - 1) \div 8) + 1  i == ((j - 1) % 8) + 1  L == Lanes[i] IN
  Mix(v, L[1], L[2], L[3], L[4], m[Sigma[r][2 * i - 1] + 1], m[Sigma[r][2 * i] + 1]), v0, Steps(1, 80))
Ones == [i \in 1..32 |-> 1]
\* t: bytes so far (below 2^31), last: final block
BlakeF(h, m, t, last) ==
  LET tw == [i \in 1..32 |-> IF i <= 31 THEN (t \div (2 ^ (IF i <= 31 THEN i - 1 ELSE 0))) % 2 ELSE 0]
      v0 == h \o H256
      v1 == [v0 EXCEPT ![13] = XorW(v0[13], tw), ![15] = IF last THEN XorW(v0[15], Ones) ELSE v0[15]]
      v == MixAll(TLCEval(v1), TLCEval(m))
  IN TLCEval([i \in 1..8 |-> Xor3(h[i], v[i], v[i + 8])])
\* message bits: bytes in order, least significant bit of each byte first
LEWords(m, b) == TLCEval([j \in 1..16 |-> [i \in 1..32 |-> LET k == 512 * b + 32 * (j - 1) + i IN IF k <= Len(m) THEN m[k] ELSE 0]])
BlakeRun(h, m) ==
  LET n == IF Len(m) = 0 THEN 1 ELSE (Len(m) + 511) \div 512 IN
  FoldLeft(LAMBDA g, b : BlakeF(g, LEWords(m, b - 1), IF b = n THEN Len(m) \div 8 ELSE 64 * b, b = n), h, Steps(1, n))
\* no key, digest of 32 bytes, fan-out and depth 1, eight bytes of personalisation
Blake2s(m, pers) ==
  LET p1 == Word(<<pers[1] + 256 * pers[2], pers[3] + 256 * pers[4]>>)
      p2 == Word(<<pers[5] + 256 * pers[6], pers[7] + 256 * pers[8]>>)
      h == [i \in 1..8 |-> CASE i = 1 -> XorW(H256[1], Word(<<32, 257>>)) [] i = 7 -> XorW(H256[7], p1) [] i = 8 -> XorW(H256[8], p2) [] OTHER -> H256[i]]
  IN Concat(BlakeRun(TLCEval(h), m))
==============================================================================
