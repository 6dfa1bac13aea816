------------------------------ MODULE VssHash ------------------------------
(***************************************************************************)
(* The two hash functions identities are derived from, on 32 bit words     *)
(* held as <<high, low>> halves (TLC's integers have 32 bits):             *)
(*   Fnv1(bytes)   FNV-1, 32 bit                                           *)
(*   Uuid5(s)      RFC 4122 version 5 UUID in the name space of the tool   *)
(***************************************************************************)
EXTENDS VssText

----------------------------------------------------------------------------
(* FNV-1: h := (h * 16777619) xor byte, 16777619 = 2^24 + 403 *)
FnvStep(h, b) ==
  LET lo  == h[2] * 403
      hi  == (h[1] * 403) + (lo \div 65536) + ((h[2] % 256) * 256)
  IN <<hi % 65536, (lo % 65536) ^^ b>>
FnvOffset == <<33052, 40389>>      \* 2166136261
Fnv1(bytes) == FoldLeft(FnvStep, FnvOffset, bytes)

----------------------------------------------------------------------------
(* SHA-1 *)
Add(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + (lo \div 65536)) % 65536, lo % 65536>>
XorW(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
AndW(a, b) == <<a[1] & b[1], a[2] & b[2]>>
OrW(a, b)  == <<a[1] | b[1], a[2] | b[2]>>
Not32(a)  == <<65535 - a[1], 65535 - a[2]>>
RotL1(a) == <<((a[1] % 32768) * 2) + (a[2] \div 32768), ((a[2] % 32768) * 2) + (a[1] \div 32768)>>
RotL5(a) == <<((a[1] % 2048) * 32) + (a[2] \div 2048), ((a[2] % 2048) * 32) + (a[1] \div 2048)>>
RotR2(a) == <<(a[1] \div 4) + ((a[2] % 4) * 16384), (a[2] \div 4) + ((a[1] % 4) * 16384)>>

(* message padding; messages below 8192 bytes *)
Zeros(n) == [i \in 1 .. n |-> 0]
Padded(m) ==
  LET n == Len(m)
      z == (119 - (n % 64)) % 64
  IN m \o <<128>> \o Zeros(z) \o Zeros(6) \o <<(n * 8) \div 256, (n * 8) % 256>>

Word(m, i) == <<(m[i] * 256) + m[i + 1], (m[i + 2] * 256) + m[i + 3]>>
Schedule(block) ==     \* 80 words
  FoldLeft(LAMBDA w, t : Append(w, TLCEval(RotL1(XorW(XorW(w[t - 3], w[t - 8]), XorW(w[t - 14], w[t - 16]))))),
           [i \in 1 .. 16 |-> Word(block, 4 * (i - 1) + 1)], [t \in 1 .. 64 |-> t + 16])

RoundF(t, b, c, d) ==
  CASE t <= 20 -> OrW(AndW(b, c), AndW(Not32(b), d))
    [] t <= 40 -> XorW(XorW(b, c), d)
    [] t <= 60 -> OrW(OrW(AndW(b, c), AndW(b, d)), AndW(c, d))
    [] OTHER   -> XorW(XorW(b, c), d)
RoundK(t) == CASE t <= 20 -> <<23170, 31129>> [] t <= 40 -> <<28377, 60321>>
               [] t <= 60 -> <<36635, 48348>> [] OTHER -> <<51810, 49622>>

Compress(h, block) ==
  LET w == TLCEval(Schedule(block))
      round(s, t) ==
        TLCEval(<<Add(Add(Add(RotL5(s[1]), RoundF(t, s[2], s[3], s[4])), Add(s[5], RoundK(t))), w[t]),
          s[1], RotR2(s[2]), s[3], s[4]>>)
      r == FoldLeft(round, h, [t \in 1 .. 80 |-> t])
  IN TLCEval([i \in 1 .. 5 |-> Add(h[i], r[i])])

Sha1(m) ==
  LET p == TLCEval(Padded(m))
  IN FoldLeft(LAMBDA h, k : Compress(h, SubSeq(p, 64 * (k - 1) + 1, 64 * k)),
       <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>>>>,
       [k \in 1 .. (Len(p) \div 64) |-> k])

----------------------------------------------------------------------------
(* version 5 UUIDs: the first 16 bytes of SHA-1, with version and variant set *)
Uuid5Words(ns, name) ==
  LET h == Sha1(ns \o name)
  IN <<h[1], <<h[2][1], 20480 + (h[2][2] % 4096)>>, <<32768 + (h[3][1] % 16384), h[3][2]>>, h[4]>>
WordsToBytes(ws) ==
  FlattenSeq([i \in DOMAIN ws |-> <<ws[i][1] \div 256, ws[i][1] % 256, ws[i][2] \div 256, ws[i][2] % 256>>])

NamespaceOid == <<107, 167, 184, 18, 157, 173, 17, 209, 128, 180, 0, 192, 79, 212, 48, 200>>
VssNamespace == TLCEval(WordsToBytes(Uuid5Words(NamespaceOid, Utf8("vehicle_signal_specification"))))

Uuid5(s) ==
  LET ws == Uuid5Words(VssNamespace, Utf8(s))
  IN Concat([i \in 1 .. 4 |-> Hex4(ws[i][1], HexL) \o Hex4(ws[i][2], HexL)])
=============================================================================
