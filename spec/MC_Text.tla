------------------------------- MODULE MC_Text -------------------------------
(***************************************************************************)
(* Every text over boundary symbols of an alphabet, up to a length: the    *)
(* decoders and encoders of Text are inverse to each other.  The texts are *)
(* given to the implementation.                                            *)
(***************************************************************************)
EXTENDS Text, TLC, Json, FiniteSets
CONSTANTS Kind,        \* "8", "16", "32", "b64", "hex", "bytes"
          N, Sample
VARIABLES t, n
Alphabet ==
    CASE Kind = "8" -> {<<x>> : x \in {0, 65, 127, 128, 143, 144, 159, 160, 191, 193, 194, 223, 224, 237, 239, 240, 244, 245, 255}}
      [] Kind = "16" -> {Unit16(u) : u \in {0, 65, 2047, 2048, 55295, 55296, 56319, 56320, 57343, 57344, 65535}} \cup {<<216>>}
      [] Kind = "32" -> {<<65, 0, 0, 0>>, <<0, 0, 0, 0>>, <<255, 215, 0, 0>>, <<0, 216, 0, 0>>, <<255, 223, 0, 0>>, <<0, 224, 0, 0>>, <<255, 255, 0, 0>>,
                         <<0, 0, 1, 0>>, <<255, 255, 16, 0>>, <<0, 0, 17, 0>>, <<65, 0, 0, 128>>, <<255, 255, 255, 127>>, <<65>>, <<0, 0>>}
      [] Kind = "b64" -> {<<x>> : x \in {65, 47, 61, 57, 45}}
      [] Kind = "hex" -> {<<x>> : x \in {48, 57, 65, 70, 97, 102, 47, 58, 64, 71, 96, 103}}
      [] Kind = "bytes" -> {<<x>> : x \in {0, 1, 63, 128, 255}}
Init == t = <<>> /\ n = 0
Next == n < N /\ n' = n + 1 /\ \E a \in Alphabet : t' = t \o a
Spec == Init /\ [][Next]_<<t, n>>

Enc == CASE Kind = "8" -> 8 [] Kind = "16" -> 16 [] OTHER -> 32
RECURSIVE Decode(_, _, _)
(* code points of the longest valid part *)
Decode(e, b, p) ==
    IF p > Len(b) THEN <<>>
    ELSE LET x == NextCp(e, b, p) IN IF x[1] = -1 THEN <<>> ELSE <<x[1]>> \o Decode(e, b, x[2])

RoundTrips ==
    CASE Kind \in {"8", "16", "32"} ->
            LET c == Decode(Enc, t, 1)
                x == Encode(Enc, c)
            IN  /\ \A i \in 1..Len(c) : IsCodePoint(c[i])
                /\ Len(x) <= Len(t) /\ SubSeq(t, 1, Len(x)) = x
                \* and through the other encodings
                /\ \A e \in {8, 16, 32} : Decode(e, Encode(e, c), 1) = c
      [] Kind = "b64" -> IsBase64(t) => (IsBase64(Base64(UnBase64(t))) /\ UnBase64(Base64(UnBase64(t))) = UnBase64(t))
      [] Kind = "hex" -> IsHex(t) => (UnHex(Hex(UnHex(t))) = UnHex(t) /\ IsHex(Hex(UnHex(t))))
      [] Kind = "bytes" -> UnBase64(Base64(t)) = t /\ IsBase64(Base64(t)) /\ UnHex(Hex(t)) = t
Emit == (Sample # 1 /\ RandomElement(1..Sample) # 1)
        \/ PrintT("SCRIPT " \o ToJson(IF Kind \in {"8", "16", "32"} THEN [b |-> t, c |-> Decode(Enc, t, 1)] ELSE [b |-> t]))
=============================================================================
