------------------------------ MODULE VssText ------------------------------
(***************************************************************************)
(* Text forms of values (as Python's str and repr print them, which is     *)
(* what the text based exporters show), letter case, and character codes.  *)
(***************************************************************************)
EXTENDS VssModel, Bitwise

AsciiS == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiCode == TLCEval([ch \in CharSet(AsciiS) |-> 31 + IndexOf(AsciiS, ch)])
(* the other characters of the scenario domain, as UTF-8 *)
WideBytes == [ch \in {"ö", "ß", "ü", "Ü", "é", "Ä", "°", "日", "Ω", "€"} |->
                CASE ch = "ö" -> <<195, 182>> [] ch = "ß" -> <<195, 159>> [] ch = "ü" -> <<195, 188>>
                  [] ch = "Ü" -> <<195, 156>> [] ch = "é" -> <<195, 169>> [] ch = "Ä" -> <<195, 132>>
                  [] ch = "°" -> <<194, 176>> [] ch = "日" -> <<230, 151, 165>>
                  [] ch = "Ω" -> <<206, 169>> [] ch = "€" -> <<226, 130, 172>>]
BytesOfChar(ch) == IF ch \in DOMAIN AsciiCode THEN <<AsciiCode[ch]>> ELSE IF ch = "\n" THEN <<10>> ELSE IF ch = "\t" THEN <<9>> ELSE WideBytes[ch]
Utf8(s) == FoldLeft(LAMBDA a, ch : a \o BytesOfChar(ch), <<>>, CharsOf(s))

(* bytes.lower(): letters of the ASCII range only *)
LowerByte(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b

----------------------------------------------------------------------------
ReplaceCh(s, from, to) == Concat([i \in 1 .. Len(s) |-> IF Ch(s, i) = from THEN to ELSE Ch(s, i)])
HasCh(s, ch) == \E i \in 1 .. Len(s) : Ch(s, i) = ch

PyReprStr(s) ==
  LET q == IF HasCh(s, "'") /\ ~ HasCh(s, "\"") THEN "\"" ELSE "'"
      b == ReplaceCh(s, "\\", "\\\\")
      t == ReplaceCh(ReplaceCh(b, "\n", "\\n"), "\t", "\\t")
      c == IF q = "'" THEN ReplaceCh(t, "'", "\\'") ELSE t
  IN q \o c \o q

PyScalar(v) == CASE v.k = "b" -> IF v.s = "true" THEN "True" ELSE "False"
                 [] v.k = "n" -> "None"
                 [] OTHER -> v.s
RECURSIVE PyRepr(_)
PyRepr(v) ==
  CASE v.k = "s" -> PyReprStr(v.s)
    [] v.k = "l" -> "[" \o JoinStr([i \in DOMAIN v.l |-> PyRepr(v.l[i])], ", ") \o "]"
    [] OTHER -> PyScalar(v)
PyText(v) == IF v.k = "s" THEN v.s ELSE PyRepr(v)

(* the text of an attribute; d if it is not set *)
TextOr(A, n, d) == IF Given(A, n) THEN PyText(Get(A, n)) ELSE d

HexU == "0123456789ABCDEF"
HexL == "0123456789abcdef"
Hex4(n, digits) ==  \* four hex digits of a 16 bit number
  LET d(i) == Ch(digits, ((n \div i) % 16) + 1) IN d(4096) \o d(256) \o d(16) \o d(1)
HexDigitVal == TLCEval([ch \in CharSet("0123456789abcdefABCDEF") |->
                 IF ch \in CharSet(HexL) THEN IndexOf(HexL, ch) - 1 ELSE IndexOf(HexU, ch) - 1])

(* a 32 bit number written 0x........ (or shorter) as <<high, low>> 16 bit halves *)
HexWord(s) ==
  LET step(w, ch) == <<((w[1] * 16) % 65536) + (w[2] \div 4096), ((w[2] % 4096) * 16) + HexDigitVal[ch]>>
  IN FoldLeft(step, <<0, 0>>, CharsOf(SubSeq(s, 3, Len(s))))
=============================================================================
