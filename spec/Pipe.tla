-------------------------------- MODULE Pipe --------------------------------
(***************************************************************************)
(* What happens to a content on its way to the tape and back: it is        *)
(* signed, compressed and encrypted, each in one of several formats, and   *)
(* what is not a content, such as its size and name, goes with it.         *)
(* Encoded contents are terms; decoding undoes the outermost step.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Comps == {"", "gzip", "parallelgzip", "lz4", "zstandard", "brotli", "bzip2", "parallelbzip2"}
Levels == {"fastest", "balanced", "smallest"}
Encs == {"", "age", "pgp"}
Sigs == {"", "minisign", "pgp"}

\* What is supported on drives which are not regular files
Supported(c) ==
  ~c.tape \/ /\ c.sig # "minisign"
             /\ c.comp \notin {"brotli", "parallelgzip"}
             /\ (c.comp \in {"gzip", "lz4"} => c.rs >= 128)
             /\ (c.comp = "zstandard" => c.rs >= 2)

Failed == [t |-> "failed", f |-> "", x |-> <<>>]
Raw(x) == [t |-> "raw", f |-> "", x |-> x]
Wrap(t, f, y) == IF f = "" THEN y ELSE [t |-> t, f |-> f, x |-> y]
Unwrap(t, f, y) == IF f = "" THEN y ELSE IF y.t = t /\ y.f = f THEN y.x ELSE Failed

Encode(c, x) == Wrap("enc", c.enc, Wrap("comp", c.comp, Raw(x)))
Decode(c, y) ==
  LET d == Unwrap("enc", c.enc, y)
      e == IF d = Failed THEN Failed ELSE Unwrap("comp", c.comp, d)
  IN IF e.t = "raw" THEN e.x ELSE <<"failed">>

Suffixes(c) == (IF c.comp = "" THEN <<>> ELSE <<c.comp>>) \o (IF c.enc = "" THEN <<>> ELSE <<c.enc>>)

\* How long an encoded content is. Some formats frame each piece which they are given.
Length(c, x, chunk) ==
  LET pieces == IF c.enc = "pgp" THEN (Len(x) + chunk - 1) \div chunk ELSE 1
  IN Len(x) + (IF c.comp = "" THEN 0 ELSE 1) + (IF c.enc = "" THEN 0 ELSE pieces)

\* A record of the tape. Empty contents are not encoded.
Record(c, name, x, chunk) ==
  [name |-> name \o Suffixes(c),
   size |-> IF x = <<>> THEN 0 ELSE Length(c, x, chunk),
   logical |-> Len(x), sig |-> IF c.sig = "" THEN <<>> ELSE <<c.sig, x>>,
   data |-> IF x = <<>> THEN Raw(<<>>) ELSE Encode(c, x)]

\* What is read from a record
Reading(c, rec) == IF rec.size = 0 /\ rec.logical = 0 THEN <<>> ELSE Decode(c, rec.data)
Verified(c, rec, x) == c.sig = "" \/ rec.sig = <<c.sig, x>>
NameOf(c, rec) == SubSeq(rec.name, 1, Len(rec.name) - Len(Suffixes(c)))
=============================================================================
