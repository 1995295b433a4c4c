------------------------------- MODULE Goost -------------------------------
(* The library as its user sees it: a set of handles to immutable objects,  *)
(* and one action per public operation.  An action is applied to a call     *)
(* record c: what was called (c.op and its arguments), what came back       *)
(* (c.out ..., c.x), and what the caller's own objects saw meanwhile        *)
(* (c.w: writes to the caller's sink, c.u: fetches from the caller's key    *)
(* data or block, c.flt: one of the caller's objects failed).  The action   *)
(* is enabled exactly when the specification allows that outcome.           *)
(*                                                                          *)
(*  c.x = ""      the call returned                                         *)
(*        "exc"   it threw a standard exception of the library              *)
(*        "fault" it threw the very exception the caller's object threw     *)
(*        "skip"  not called: an argument handle does not exist             *)
(*        "other" anything else (never allowed)                             *)
EXTENDS Words, TLC

CONSTANT KnownDeviations     \* names of recorded findings (see known_findings.json)

MG == INSTANCE Magma
KZ == INSTANCE Kuznyechik
MM == INSTANCE Modes WITH BS <- 8,  Enc <- MG!Encr, Dec <- MG!Decr
KM == INSTANCE Modes WITH BS <- 16, Enc <- KZ!KuzEnc, Dec <- KZ!KuzEnc  \* Kuznyechik has no decryption here

VARIABLES vObj,              \* handle -> abstract value
          vMem               \* cache -> what it has fetched

Has(h) == h \in DOMAIN vObj
Typed(h, t) == Has(h) /\ vObj[h].t = t
Put(f, h, v) == TLCEval([z \in DOMAIN f \cup {h} |-> IF z = h THEN v ELSE f[z]])
Keep == UNCHANGED << vObj, vMem >>
New(h, v) == vObj' = Put(vObj, h, v) /\ UNCHANGED vMem
Done(c) == c.x = "" /\ ~ c.flt
Threw(c) == c.x = "exc" /\ ~ c.flt
\* construction of r with abstract value v; malformed material may be refused already here
Make(c, v, bad) == \/ Done(c) /\ New(c.r, v)
                   \/ bad /\ Threw(c) /\ Keep

\* ------------------------------------------------------------- any operation
Skipped(c) == c.x = "skip" /\ (IF Has(c.miss) THEN vObj[c.miss].t = "null" ELSE TRUE) /\ Keep
Drop_(c) == c.op = "drop" /\ Done(c) /\ vObj' = TLCEval([z \in DOMAIN vObj \ {c.h} |-> vObj[z]]) /\ UNCHANGED vMem
Fuse(c) == c.op = "fuse" /\ Done(c) /\ Keep
\* the same work on n2 > n1 blocks took no deeper a stack than on n1, but for a constant
Deep(c) == c.op = "deep" /\ Has(c.k) /\ Done(c) /\ c.n2 > c.n1 /\ c.deep <= c.base + 12288 /\ Keep

\* ------------------------------------------------------------- S-boxes
SbNew(c) ==
  \/ c.op = "sb_nib"   /\ Make(c, [t |-> "sb", s |-> MG!NibbleSbox(c.pi)], FALSE)
  \/ c.op = "sb_byte"  /\ Make(c, [t |-> "sb", s |-> MG!PackedSbox(c.uz)], FALSE)
  \/ c.op = "sb_tabs"  /\ Make(c, [t |-> "sb", s |-> [t |-> "tab", tb |-> c.tabs, rot |-> 0]], FALSE)
  \/ c.op = "sb_r3412" /\ Make(c, [t |-> "sb", s |-> MG!R3412], FALSE)
  \/ c.op = "sb_toy"   /\ Make(c, [t |-> "sb", s |-> [t |-> "xor", c |-> c.c, rot |-> 0]], FALSE)
  \/ c.op = "sb_con"   /\ Make(c, [t |-> "sb", s |-> [t |-> "con", c |-> c.c, rot |-> 0]], FALSE)
  \/ c.op = "sb_tw"    /\ Typed(c.h, "sb") /\ Make(c, [t |-> "sb", s |-> MG!Twist(vObj[c.h].s)], FALSE)
SbUse(c) == c.op = "sb_use" /\ Typed(c.h, "sb") /\ Done(c) /\ c.out = MG!SboxUse(vObj[c.h].s, c.v) /\ Keep

\* ------------------------------------------------------------- key data and caches
\* [t |-> "kd", st |-> "w" known words | "bad" | "var" varying, w, env |-> caller's object, c |-> cache]
Kd(st, w, env, cc) == [t |-> "kd", st |-> st, w |-> w, env |-> env, c |-> cc]
GoodText(t) == Len(t) = 64 /\ IsHex(t)
KdText(t) == IF GoodText(t) THEN Kd("w", MG!TextWords(t), 0, 0) ELSE Kd("bad", << >>, 0, 0)
KdWords(w) == IF Len(w) = 8 THEN Kd("w", w, 0, 0) ELSE Kd("bad", << >>, 0, 0)
Fresh == [got |-> [z \in {} |-> z], pend |-> [z \in {} |-> z]]
KdNew(c) ==
  \/ c.op = "kd_str" /\ Make(c, KdText(c.t), ~ GoodText(c.t))
  \/ c.op = "kd_nat" /\ Make(c, KdWords(c.w), Len(c.w) # 8)
  \/ c.op = "kd_env" /\ Make(c, Kd(IF c.vary THEN "var" ELSE "w", c.w, c.r, 0), FALSE)
  \/ c.op = "kd_cache" /\ Typed(c.h, "kd") /\
       LET k == vObj[c.h]
       IN \/ k.env # 0 /\ k.c = 0 /\ Done(c) /\ vObj' = Put(vObj, c.r, [k EXCEPT !.c = c.r])
                                  /\ vMem' = Put(vMem, c.r, Fresh)
          \/ (k.env = 0 \/ k.c # 0) /\ Make(c, k, k.st = "bad")
\* What the underlying object saw while the operation ran on cache cc: successful fetches as
\* <<position, value>>.  A position already fixed is never fetched again, nor twice in one operation.
Fetches(c) == SelectSeq(c.u, LAMBDA f : f.ok)
FetchOk(cc, c) ==
  LET fs == Fetches(c)
  IN /\ \A i \in 1..Len(fs) : fs[i].i \notin DOMAIN vMem[cc].got
     /\ \A i, j \in 1..Len(fs) : i # j => fs[i].i # fs[j].i
Fetched(c) == LET fs == Fetches(c)
              IN TLCEval([z \in { fs[i].i : i \in 1..Len(fs) } |->
                           fs[CHOOSE i \in 1..Len(fs) : fs[i].i = z].v])
\* value at position z after this operation (fixed before, fetched now, or kept from a failed attempt)
MemAt(cc, c, z) ==
  LET n == Fetched(c)
  IN IF z \in DOMAIN vMem[cc].got THEN << vMem[cc].got[z] >>
     ELSE IF z \in DOMAIN n THEN << n[z] >>
     ELSE IF z \in DOMAIN vMem[cc].pend THEN << vMem[cc].pend[z] >> ELSE << >>
Join(f, g) == TLCEval([z \in DOMAIN f \cup DOMAIN g |-> IF z \in DOMAIN f THEN f[z] ELSE g[z]])
\* the operation succeeded: everything it fetched, and the positions it returned, are fixed
Fix(cc, c, used) ==
  LET n == Fetched(c)
      u == TLCEval([z \in { y \in used : MemAt(cc, c, y) # << >> } |-> MemAt(cc, c, z)[1]])
  IN vMem' = Put(vMem, cc, [vMem[cc] EXCEPT !.got = Join(@, Join(n, u))])
\* it failed: nothing becomes fixed; what was fetched on the way may or may not be kept
Lose(cc, c) == vMem' = Put(vMem, cc, [vMem[cc] EXCEPT !.pend = Join(Fetched(c), @)])
KdUse(c) ==
  c.op = "kd_use" /\ Typed(c.h, "kd") /\
  LET k == vObj[c.h]
  IN \/ k.st = "bad" /\ Threw(c) /\ Keep
     \/ k.c = 0 /\ k.st = "w" /\ (IF c.i \in 0..7 THEN Done(c) /\ c.out = k.w[c.i + 1] ELSE Threw(c)) /\ Keep   \* no such word
     \/ k.c = 0 /\ k.st = "var" /\ Done(c) /\ Len(c.u) = 1 /\ c.out = c.u[1].v /\ Keep
     \/ k.c # 0 /\ FetchOk(k.c, c) /\
          \/ Done(c) /\ (IF k.st = "w" THEN c.out = k.w[c.i + 1] ELSE << c.out >> = MemAt(k.c, c, c.i))
                     /\ Fix(k.c, c, {c.i}) /\ UNCHANGED vObj
          \/ c.flt /\ c.x = "fault" /\ Lose(k.c, c) /\ UNCHANGED vObj

\* ------------------------------------------------------------- keys
\* [t |-> "key", k |-> Magma key or bad, kd]     kd.st = "var" only for keys over a varying cache
Key(k) == [t |-> "key", k |-> k, kd |-> Kd("w", << >>, 0, 0)]
BadKey == [t |-> "bad"]
LazyOf(kd, sb) == IF kd.st = "w" THEN Key([t |-> "lazy", w |-> kd.w, sb |-> sb])
                  ELSE IF kd.st = "bad" THEN Key(BadKey)
                  ELSE [t |-> "key", k |-> [t |-> "var", sb |-> sb], kd |-> kd]
KNew(c) ==
  \/ c.op = "k_str"   /\ Make(c, LazyOf(KdText(c.t), MG!R3412), ~ GoodText(c.t))
  \/ c.op = "k_strsb" /\ Typed(c.sb, "sb") /\ Make(c, LazyOf(KdText(c.t), vObj[c.sb].s), ~ GoodText(c.t))
  \/ c.op = "k_nat"   /\ Typed(c.sb, "sb") /\ Make(c, LazyOf(KdWords(c.w), vObj[c.sb].s), Len(c.w) # 8)
  \/ c.op = "k_kd"    /\ Typed(c.kd, "kd") /\ Typed(c.sb, "sb")
                      /\ LET l == LazyOf(vObj[c.kd], vObj[c.sb].s)
                         IN Make(c, [l EXCEPT !.kd = vObj[c.kd]], vObj[c.kd].st = "bad")
  \/ c.op = "k_toy"   /\ Make(c, Key([t |-> "toy", c |-> c.c]), FALSE)
KUse(c) ==
  c.op = "k_use" /\ Typed(c.h, "key") /\
  LET k == vObj[c.h].k
  IN \/ k.t = "bad" /\ Threw(c) /\ Keep
     \/ k.t \in {"lazy", "toy"} /\ Done(c) /\ c.out = MG!G(k, c.i + 1, c.v) /\ Keep
GoodCont(c) == Len(c.key) = 32 /\ Len(c.sbox) = 64
ContNew(c) ==
  c.op = "cont" /\ Make(c, [t |-> "ct", k |-> IF GoodCont(c)
                                 THEN [t |-> "lazy", w |-> MG!ContWords(c.key), sb |-> MG!Twist(MG!PackedSbox(c.sbox))]
                                 ELSE BadKey], FALSE)

\* ------------------------------------------------------------- 64-bit blocks
\* [t |-> "mb", v |-> 8 bytes], [t |-> "mbad"], or [t |-> "mvar", v, k, f] : f of v under a key over a varying cache
MBad == [t |-> "mbad"]
IsMB(h) == Has(h) /\ vObj[h].t \in {"mb", "mbad", "mvar"}
MVal(v) == [t |-> "mb", v |-> v]
GoodBText(t, n) == Len(t) <= n /\ IsHex(t)
Lift(b, v) == IF b.t = "mb" THEN MVal(v) ELSE MBad
Cipher(f, k, v) == CASE f = "b_enc" -> MG!Encr(k, v)
                     [] f = "b_dec" -> MG!Decr(k, v)
                     [] f = "b_fwd" -> MG!Forw(k, v)
                     [] f = "b_bwd" -> MG!Back(k, v)
                     [] f = "b_imit" -> MG!Imit16(k, v)
CipherOps == {"b_enc", "b_dec", "b_fwd", "b_bwd", "b_imit"}
BNew(c) ==
  \/ c.op \in {"b_raw", "b_env"} /\ Make(c, MVal(c.b), FALSE)
  \/ c.op = "b_str" /\ LET g == GoodBText(c.t, 16)
                       IN Make(c, IF g THEN MVal(HexBlock(c.t, 8)) ELSE MBad, ~ g)
  \/ c.op = "b_swap" /\ IsMB(c.h) /\ LET b == vObj[c.h]
                       IN Make(c, IF b.t = "mb" THEN MVal(MG!Swap(b.v)) ELSE MBad, b.t = "mbad")
  \/ c.op = "b_shl" /\ IsMB(c.h) /\ LET b == vObj[c.h]
                       IN Make(c, IF b.t = "mb" THEN MVal(ShiftL(b.v, c.n)) ELSE MBad, b.t = "mbad")
  \/ c.op = "b_xor" /\ (\A i \in 1..Len(c.hs) : IsMB(c.hs[i])) /\
       LET bad == \E i \in 1..Len(c.hs) : vObj[c.hs[i]].t = "mbad"
       IN Make(c, IF bad THEN MBad
                  ELSE MVal(FoldLeft(LAMBDA s, h : XorB(s, vObj[h].v), Zeros(8), c.hs)), bad)
  \/ c.op \in CipherOps /\ IsMB(c.h) /\ Typed(c.k, "key") /\
       LET b == vObj[c.h]
           k == vObj[c.k]
           bad == b.t = "mbad" \/ k.k.t = "bad"
       IN IF k.k.t = "var" THEN Make(c, [t |-> "mvar", v |-> b.v, k |-> k, f |-> c.op], FALSE)
          ELSE /\ (c.op = "b_imit" /\ bad) => Threw(c)
               /\ Make(c, IF bad THEN MBad ELSE MVal(Cipher(c.op, k.k, b.v)), bad)
BVal(c) ==
  c.op = "b_val" /\ IsMB(c.h) /\
  LET b == vObj[c.h]
  IN \/ b.t = "mb" /\ Done(c) /\ c.out = b.v /\ Keep
     \/ b.t = "mbad" /\ Threw(c) /\ Keep
     \/ b.t = "mvar" /\ b.k.kd.c # 0 /\ FetchOk(b.k.kd.c, c) /\
          \/ Done(c) /\ (\A i \in 0..7 : MemAt(b.k.kd.c, c, i) # << >>) /\
               LET w == TLCEval([i \in 1..8 |-> MemAt(b.k.kd.c, c, i-1)[1]])
               IN /\ c.out = Cipher(b.f, [t |-> "lazy", w |-> w, sb |-> b.k.k.sb], b.v)
                  /\ Fix(b.k.kd.c, c, 0..7) /\ UNCHANGED vObj
          \/ c.flt /\ c.x = "fault" /\ Lose(b.k.kd.c, c) /\ UNCHANGED vObj
EbNew(c) == c.op = "eb_new" /\ Typed(c.k, "key") /\ Make(c, [t |-> "eb", k |-> vObj[c.k].k], vObj[c.k].k.t = "bad")
EbUse(c) ==
  c.op = "eb_use" /\ Typed(c.h, "eb") /\
  \/ vObj[c.h].k.t = "bad" /\ Threw(c) /\ Keep
  \/ vObj[c.h].k.t # "bad" /\ Done(c) /\ c.out = MG!Encr(vObj[c.h].k, c.b) /\ Keep

\* ------------------------------------------------------------- encrypting sinks
\* [t |-> "sink", s |-> sink of Modes, node |-> the caller's sink object it stands on,
\*  got |-> bytes observed in that object]
SinkNew(c) ==
  \/ c.op = "s_mem" /\ Done(c) /\ New(c.r, [t |-> "sink", s |-> [t |-> "mem", d |-> << >>], node |-> c.node, got |-> << >>])
  \/ c.op \in {"s_cfb89", "s_cfb", "s_ecb", "s_ecb89"} /\ Typed(c.dn, "sink") /\ Typed(c.k, "key") /\
       LET d == vObj[c.dn]
           k == vObj[c.k].k
       IN Make(c, [d EXCEPT !.s =
                     CASE c.op = "s_cfb89" -> [t |-> "cfb", k |-> k, reg |-> << c.iv >>, pend |-> << >>, dn |-> d.s]
                       [] c.op = "s_cfb" -> [t |-> "cfb", k |-> k, reg |-> << c.ivl, c.ivr >>, pend |-> << >>, dn |-> d.s]
                       [] OTHER -> [t |-> "ecb", k |-> k, dn |-> d.s]], k.t = "bad")
\* the writes seen by the caller's sink objects form one chain from node a to node b
RECURSIVE ChainEnd(_,_,_)
ChainEnd(a, w, i) == IF i > Len(w) THEN a ELSE IF w[i].f = a THEN ChainEnd(w[i].t, w, i+1) ELSE 0
Written(w) == Flat([i \in 1..Len(w) |-> w[i].d])
\* what a call that failed had handed on before it failed: the beginning of what was right to hand on
Begun(c, o, f) ==
  LET g == o.got \o Written(c.w)
  IN ChainEnd(o.node, c.w, 1) # 0 /\ Len(g) <= Len(f) /\ SubSeq(f, 1, Len(g)) = g
BegunWrite(c, o) ==
  IF MM!BadSink(o.s, Len(c.d)) THEN Written(c.w) = << >>
  ELSE Begun(c, o, MM!Bottom(MM!Push(o.s, IF MM!PushRefused(o.s, c.d) THEN Take(c.d, (Len(c.d) \div 8) * 8) ELSE c.d)))
BegunFin(c, o) ==
  IF MM!Stuck(o.s) THEN Written(c.w) = << >> ELSE Begun(c, o, MM!Bottom(MM!Finish(o.s)))
SWrite(c) ==
  c.op = "s_write" /\ Typed(c.h, "sink") /\
  LET o == vObj[c.h]
      need == MM!BadSink(o.s, Len(c.d))
  IN \/ (MM!PushRefused(o.s, c.d) \/ need) /\ Threw(c) /\ BegunWrite(c, o) /\ Keep
     \/ ~ MM!PushRefused(o.s, c.d) /\ ~ need /\ Done(c) /\
          LET s == MM!Push(o.s, c.d)
              g == o.got \o Written(c.w)
              n == ChainEnd(o.node, c.w, 1)
          IN /\ n # 0
             /\ MM!Delivered(s, g)
             /\ New(c.r, [t |-> "sink", s |-> s, node |-> n, got |-> g])
SMany(c) ==                  \* the same write n > 0 times over, all of them good
  c.op = "s_many" /\ Typed(c.h, "sink") /\
  LET o == vObj[c.h]
      d == Rep(c.d, c.n)
  IN /\ ~ MM!PushRefused(o.s, c.d) /\ ~ MM!BadSink(o.s, Len(d)) /\ Done(c)
     /\ LET s == MM!Push(o.s, d)
            g == o.got \o Written(c.w)
            n == ChainEnd(o.node, c.w, 1)
        IN /\ n # 0
           /\ MM!Delivered(s, g)
           /\ New(c.r, [t |-> "sink", s |-> s, node |-> n, got |-> g])
SFin(c) ==
  c.op = "s_fin" /\ Typed(c.h, "sink") /\ vObj[c.h].s.t # "mem" /\
  LET o == vObj[c.h]
      part == o.s.t = "cfb" /\ o.s.pend # << >>
      bad == part /\ (o.s.k.t = "bad" \/ MM!BadSink(o.s.dn, Len(o.s.pend)))
  IN \/ (MM!FinishRefused(o.s) \/ bad) /\ Threw(c) /\ Written(c.w) = << >> /\ Keep
     \/ ~ MM!FinishRefused(o.s) /\ ~ bad /\ Done(c) /\
          LET s == MM!Finish(o.s)
              g == o.got \o Written(c.w)
              n == ChainEnd(o.node, c.w, 1)
          IN /\ n # 0
             /\ MM!Delivered(s, g)
             /\ c.mem = (s.t = "mem")
             /\ c.mem => c.node = n /\ c.out = s.d
             /\ New(c.r, [t |-> "sink", s |-> s, node |-> n, got |-> g])

\* ------------------------------------------------------------- decrypting sources
SrcNew(c) ==
  \/ c.op = "c_mem" /\ Done(c) /\ New(c.r, MM!MemSource(c.d))
  \/ c.op = "c_from" /\ Typed(c.h, "sink") /\ vObj[c.h].s.t = "mem" /\ Done(c) /\ c.d = vObj[c.h].s.d
                     /\ New(c.r, MM!MemSource(c.d))
  \/ c.op \in {"c_cfb89", "c_cfb", "c_ecb", "c_ecb89"} /\ Typed(c.up, "src") /\ Typed(c.k, "key") /\
       LET u == vObj[c.up]
           k == vObj[c.k].k
       IN Make(c, CASE c.op = "c_cfb89" -> MM!CfbSource(u, k, << c.iv >>)
                    [] c.op = "c_cfb" -> MM!CfbSource(u, k, << c.ivl, c.ivr >>)
                    [] OTHER -> MM!EcbSource(u, k), k.t = "bad")
  \/ c.op = "c_ecbc" /\ Typed(c.up, "src") /\ Typed(c.ct, "ct") /\
       Make(c, MM!EcbSource(vObj[c.up], vObj[c.ct].k), vObj[c.ct].k.t = "bad")
SRead(c) ==
  c.op = "c_read" /\ Typed(c.h, "src") /\
  LET s == vObj[c.h]
  IN \/ Done(c) /\ MM!ReadOk(s, c.n, c.out) /\ ~ (s.lay = "ecb" /\ s.d # << >> /\ c.n >= 0 /\ c.n < 8)
          /\ New(c.r, MM!After(s, Len(c.out)))
     \/ Threw(c) /\ MM!ReadFails(s, c.n) /\ Keep

\* the same read of n > 0 bytes k times over (n a multiple of the block size for ECB)
SReads(c) ==
  c.op = "c_many" /\ Typed(c.h, "src") /\ Done(c) /\
  LET s == vObj[c.h]
      all == Len(s.d)
  IN /\ ~ s.bad /\ s.e = "eof" /\ s.lay \in {"cfb", "ecb"}
     /\ Len(c.out) <= all /\ SubSeq(s.d, 1, Len(c.out)) = c.out
     /\ IF s.lay = "cfb" THEN Len(c.out) = (IF c.n * c.k < all THEN c.n * c.k ELSE all)
        ELSE Len(c.out) % 8 = 0 /\ Len(c.out) >= (IF 8 * c.k < all THEN 8 * c.k ELSE all) /\ Len(c.out) <= c.n * c.k
     /\ New(c.r, MM!After(s, Len(c.out)))
\* the whole of a source, read to its end, is the given message
Same(c) == c.op = "same" /\ Typed(c.h, "src") /\ Done(c) /\ c.out = c.d /\ vObj[c.h].d = c.d /\ Keep

\* ------------------------------------------------------------- MACs
\* out is an allowed MAC; a recorded deviation is allowed only while it is listed
Deviate(name) == name \in KnownDeviations /\ PrintT(<< "KNOWN", name >>)
Poly64 == << 27, 0, 0, 0, 0, 0, 0, 0 >>
MagmaMac(k, m, out) ==
  LET p == MM!Split(m)
  IN IF Len(p[2]) = 8 THEN out = MM!MacFull(k, Poly64, p[1], p[2])
     ELSE \/ out = MM!MacZero(k, Poly64, p[1], p[2]) /\ Deviate("magma-mac-padding")
          \/ out \in MM!MacOnes(k, Poly64, p[1], p[2])
MagmaMacAny(k, m) ==
  LET p == MM!Split(m)
  IN IF Len(p[2]) = 8 THEN {MM!MacFull(k, Poly64, p[1], p[2])}
     ELSE {MM!MacZero(k, Poly64, p[1], p[2])} \cup MM!MacOnes(k, Poly64, p[1], p[2])
Mac(c) ==
  c.op = "mac" /\ Typed(c.h, "src") /\ Typed(c.k, "key") /\
  LET s == vObj[c.h]
      k == vObj[c.k].k
  IN \/ (s.bad \/ s.e = "err" \/ k.t = "bad") /\ Threw(c) /\ Keep
     \/ ~ s.bad /\ s.e = "eof" /\ k.t # "bad" /\ Done(c) /\ MagmaMac(k, s.d, c.out) /\ Keep
\* the MAC as a lazily evaluated block: asking again gives the same value
\* (of whole blocks: a block like any other, to be used as an operand)
BMacNew(c) ==
  c.op = "b_mac" /\ Typed(c.h, "src") /\ Typed(c.k, "key") /\
  LET s == vObj[c.h]
      k == vObj[c.k].k
      p == MM!Split(s.d)
  IN IF ~ s.bad /\ s.e = "eof" /\ k.t \in {"lazy", "toy"} /\ Len(p[2]) = 8
     THEN Make(c, MVal(MM!MacFull(k, Poly64, p[1], p[2])), FALSE)
     ELSE Make(c, [t |-> "mmac", s |-> s, k |-> k], s.bad \/ s.e = "err" \/ k.t = "bad")
BMacVal(c) ==
  c.op = "b_val" /\ Typed(c.h, "mmac") /\
  LET s == vObj[c.h].s
      k == vObj[c.h].k
  IN \/ (s.bad \/ s.e = "err" \/ k.t = "bad") /\ Threw(c) /\ Keep
     \/ ~ s.bad /\ s.e = "eof" /\ k.t # "bad" /\ Done(c) /\ MagmaMac(k, s.d, c.out) /\ Keep
\* GOST 28147-89: zero-filled to whole blocks, at least two, through the 16-round chain
Imit89(k, m) ==
  LET n == IF Len(m) < 16 THEN 16 ELSE MM!Ceil(Len(m)) * 8
  IN FoldLeft(LAMBDA s, b : MG!Imit16(k, XorB(b, s)), Zeros(8), Blocks(ZeroFill(m, n), 8))
DiNew(c) == c.op = "di_new" /\ Typed(c.k, "key") /\ Make(c, [t |-> "di", k |-> vObj[c.k].k, d |-> c.d], vObj[c.k].k.t = "bad")
DiVal(c) ==
  c.op = "di_val" /\ Typed(c.h, "di") /\
  \/ vObj[c.h].k.t = "bad" /\ Threw(c) /\ Keep
  \/ vObj[c.h].k.t # "bad" /\ Done(c) /\ c.out = Imit89(vObj[c.h].k, vObj[c.h].d) /\ Keep

\* ------------------------------------------------------------- 128-bit blocks
\* [t |-> "qb", v], [t |-> "qbad"], [t |-> "qenv", env, b, vary], [t |-> "qcache", c, b, vary]
QBad == [t |-> "qbad"]
QVal(v) == [t |-> "qb", v |-> v]
IsQB(h) == Has(h) /\ vObj[h].t \in {"qb", "qbad", "qenv", "qcache"}
\* the constant value of a block, << >> if malformed
QOf(h) == LET b == vObj[h] IN IF b.t = "qb" THEN b.v ELSE IF b.t = "qbad" THEN << >> ELSE b.b
QLift(h, v) == IF vObj[h].t = "qbad" THEN QBad ELSE QVal(v)
QUnary(op, v) == CASE op = "qb_inc" -> Inc(v)
                   [] op = "qb_s" -> KZ!S(v)
                   [] op = "qb_r" -> KZ!R(v)
                   [] op = "qb_l" -> KZ!L(v)
QMake1(c, v) == Make(c, IF vObj[c.h].t = "qbad" THEN QBad ELSE QVal(v), vObj[c.h].t = "qbad")
QNew(c) ==
  \/ c.op = "qb_raw" /\ Make(c, QVal(c.b), FALSE)
  \/ c.op = "qb_env" /\ Make(c, [t |-> "qenv", env |-> c.r, b |-> c.b, vary |-> c.vary], FALSE)
  \/ c.op = "qb_str" /\ LET g == GoodBText(c.t, 32)
                        IN Make(c, IF g THEN QVal(HexBlock(c.t, 16)) ELSE QBad, ~ g)
  \/ c.op = "qb_shl" /\ IsQB(c.h) /\ QMake1(c, ShiftL(QOf(c.h), c.n))
  \/ c.op \in {"qb_inc", "qb_s", "qb_r", "qb_l"} /\ IsQB(c.h) /\ QMake1(c, QUnary(c.op, QOf(c.h)))
  \/ c.op = "qb_cache" /\ IsQB(c.h) /\
       LET b == vObj[c.h]
       IN IF b.t = "qenv" THEN /\ Done(c)
                               /\ vObj' = Put(vObj, c.r, [t |-> "qcache", c |-> c.r, b |-> b.b, vary |-> b.vary])
                               /\ vMem' = Put(vMem, c.r, Fresh)
          ELSE Make(c, b, b.t = "qbad")
  \/ c.op = "qb_xor" /\ (\A i \in 1..Len(c.hs) : IsQB(c.hs[i])) /\
       LET bad == \E i \in 1..Len(c.hs) : vObj[c.hs[i]].t = "qbad"
       IN Make(c, IF bad THEN QBad ELSE QVal(FoldLeft(LAMBDA s, h : XorB(s, QOf(h)), Zeros(16), c.hs)), bad)
  \/ c.op = "qb_iter" /\ IsQB(c.ka) /\ IsQB(c.kb) /\
       LET bad == vObj[c.ka].t = "qbad" \/ vObj[c.kb].t = "qbad"
       IN Make(c, IF bad THEN QBad ELSE QVal(KZ!FeistelKey(QOf(c.ka), QOf(c.kb), c.c1, c.c2)[1]), bad)
  \/ c.op \in {"qb_enc", "qb_kenc"} /\ IsQB(c.h) /\ Typed(c.k, "qk") /\
       LET k == vObj[c.k].rk
           bad == vObj[c.h].t = "qbad" \/ k = << >>
       IN Make(c, IF bad THEN QBad ELSE QVal(KZ!KuzEnc(k, QOf(c.h))), bad)
QBVal(c) ==
  c.op = "qb_val" /\ IsQB(c.h) /\
  LET b == vObj[c.h]
  IN \/ b.t = "qb" /\ Done(c) /\ c.out = b.v /\ Keep
     \/ b.t = "qbad" /\ Threw(c) /\ Keep
     \/ b.t = "qenv" /\ Done(c) /\ Len(c.u) = 1 /\ c.out = c.u[1].v /\ Keep
     \/ b.t = "qcache" /\ FetchOk(b.c, c) /\
          \/ Done(c) /\ (IF b.vary THEN << c.out >> = MemAt(b.c, c, 0) ELSE c.out = b.b)
                     /\ Fix(b.c, c, {0}) /\ UNCHANGED vObj
          \/ c.flt /\ c.x = "fault" /\ Lose(b.c, c) /\ UNCHANGED vObj
QdNew(c) == c.op = "qd_str" /\ Make(c, [t |-> "qd", txt |-> c.t], ~ GoodText(c.t))
\* first half of the text is the high half of the key
HighText(t) == SubSeq(t, 1, 32)
LowText(t) == SubSeq(t, 33, 64)
QdHalf(c) ==
  c.op \in {"qd_low", "qd_high"} /\ Typed(c.h, "qd") /\
  LET t == vObj[c.h].txt
      g == GoodText(t)
      half == IF c.op = "qd_low" THEN LowText(t) ELSE HighText(t)
  IN \/ Make(c, IF g THEN QVal(HexBlock(half, 16)) ELSE QBad, ~ g)
     \* where only the other half is malformed, this one may be had; the key may not
     \/ ~ g /\ Len(t) = 64 /\ IsHex(half) /\ Make(c, QVal(HexBlock(half, 16)), FALSE)
Rk(hi, lo) == KZ!KuzKey(hi, lo)
QkText(t) == [t |-> "qk", rk |-> IF GoodText(t) THEN Rk(HexBlock(HighText(t), 16), HexBlock(LowText(t), 16)) ELSE << >>]
QkNew(c) ==
  \/ c.op = "qk_str" /\ Make(c, QkText(c.t), ~ GoodText(c.t))
  \/ c.op = "qk_qd" /\ Typed(c.h, "qd") /\ Make(c, QkText(vObj[c.h].txt), ~ GoodText(vObj[c.h].txt))
  \/ c.op = "qk_data" /\ IsQB(c.lo) /\ IsQB(c.hi) /\
       LET bad == vObj[c.lo].t = "qbad" \/ vObj[c.hi].t = "qbad"
       IN Make(c, [t |-> "qk", rk |-> IF bad THEN << >> ELSE Rk(QOf(c.hi), QOf(c.lo))], bad)

\* ------------------------------------------------------------- streams and iterators
\* [t |-> "st", bs |-> blocks, ns |-> sizes, lay |-> CTR layers << [rk, iv] ... >>, bad]
\* [t |-> "it", s |-> stream, i |-> position]; [t |-> "null"]
St(bs, ns) == [t |-> "st", bs |-> bs, ns |-> ns, lay |-> << >>, bad |-> FALSE]
MemStream(d) == LET n == (Len(d) + 15) \div 16
                IN St(TLCEval([i \in 1..n |-> ZeroFill(SubSeq(d, 16*i-15, IF 16*i < Len(d) THEN 16*i ELSE Len(d)), 16)]),
                      TLCEval([i \in 1..n |-> IF 16*i <= Len(d) THEN 16 ELSE Len(d) - 16*(i-1)]))
\* counter for block i (1..): iv * 2^64 + (i-1)
Counter(iv, i) == Num(i-1, 8) \o iv
CtrStream(s, rk, iv) == [s EXCEPT !.lay = Append(@, [rk |-> rk, iv |-> iv]), !.bad = @ \/ rk = << >>]
BlockAt(s, i) == FoldLeft(LAMBDA b, l : Cut(XorB(b, KZ!KuzEnc(l.rk, Counter(l.iv, i))), s.ns[i]), s.bs[i], s.lay)
StNew(c) ==
  \/ c.op = "t_mem" /\ Make(c, MemStream(c.d), FALSE)
  \/ c.op = "t_env" /\ Make(c, St(c.bs, c.ns), FALSE)
  \/ c.op = "t_ctr" /\ Typed(c.h, "st") /\ Typed(c.k, "qk") /\
       Make(c, CtrStream(vObj[c.h], vObj[c.k].rk, c.iv), vObj[c.k].rk = << >>)
At(s, i) == IF i > Len(s.bs) THEN [t |-> "null"] ELSE [t |-> "it", s |-> s, i |-> i]
ItNew(c) ==
  \/ c.op = "i_iter" /\ Typed(c.h, "st") /\ vObj[c.h].bad /\ Threw(c) /\ Keep
  \/ c.op = "i_next" /\ Typed(c.h, "it") /\ vObj[c.h].s.bad /\ Threw(c) /\ Keep
  \/ c.op = "i_iter" /\ Typed(c.h, "st") /\ Done(c)
       /\ LET n == At(vObj[c.h], 1) IN c.nul = (n.t = "null") /\ New(c.r, n)
  \/ c.op = "i_next" /\ Typed(c.h, "it") /\ Done(c)
       /\ LET n == At(vObj[c.h].s, vObj[c.h].i + 1) IN c.nul = (n.t = "null") /\ New(c.r, n)
ItWalk(c) == c.op = "i_walk" /\ Typed(c.h, "it") /\ Done(c)
             /\ LET n == At(vObj[c.h].s, vObj[c.h].i + c.n) IN c.nul = (n.t = "null") /\ New(c.r, n)
ItUse(c) ==
  /\ c.op \in {"i_val", "i_last", "i_size"} /\ Typed(c.h, "it")
  /\ LET o == vObj[c.h]
     IN CASE c.op = "i_val" -> IF o.s.bad THEN Threw(c) ELSE Done(c) /\ c.out = BlockAt(o.s, o.i)
          [] c.op = "i_last" -> Done(c) /\ c.b = (o.i = Len(o.s.bs))
          [] c.op = "i_size" -> Done(c) /\ c.n = o.s.ns[o.i]
  /\ Keep
Poly128 == << 135, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 >>
\* all blocks but the last
KuzInit(s) == LET n == Len(s.bs)
              IN IF s.lay = << >> THEN SubSeq(s.bs, 1, n-1) ELSE TLCEval([i \in 1..(n-1) |-> BlockAt(s, i)])
KuzMac(rk, s, out) ==
  LET n == Len(s.bs)
      init == IF n = 0 THEN << >> ELSE KuzInit(s)
      last == IF n = 0 THEN << >> ELSE SubSeq(BlockAt(s, n), 1, s.ns[n])
  IN IF Len(last) = 16 THEN out = KM!MacFull(rk, Poly128, init, last)
     ELSE \/ out = KM!MacZero(rk, Poly128, init, last) /\ Deviate("kuznyechik-mac-padding")
          \/ out \in KM!MacOnes(rk, Poly128, init, last)
StMac(c) ==
  c.op = "t_mac" /\ Typed(c.h, "st") /\ Typed(c.k, "qk") /\
  LET s == vObj[c.h]
      k == vObj[c.k].rk
  IN \/ (s.bad \/ k = << >>) /\ Threw(c) /\ Keep
     \/ ~ s.bad /\ k # << >> /\ Done(c) /\ KuzMac(k, s, c.out) /\ Keep
QMacNew(c) ==
  c.op = "qb_mac" /\ Typed(c.h, "st") /\ Typed(c.k, "qk") /\
  LET s == vObj[c.h]
      k == vObj[c.k].rk
      n == Len(s.bs)
  IN IF ~ s.bad /\ k # << >> /\ n > 0 /\ s.ns[n] = 16
     THEN Make(c, QVal(KM!MacFull(k, Poly128, KuzInit(s), BlockAt(s, n))), FALSE)
     ELSE Make(c, [t |-> "qmac", s |-> s, k |-> k], s.bad \/ k = << >>)
QMacVal(c) ==
  c.op = "qb_val" /\ Typed(c.h, "qmac") /\
  LET s == vObj[c.h].s
      k == vObj[c.h].k
  IN \/ (s.bad \/ k = << >>) /\ Threw(c) /\ Keep
     \/ ~ s.bad /\ k # << >> /\ Done(c) /\ KuzMac(k, s, c.out) /\ Keep

\* ------------------------------------------------------------- faults of the caller's objects
\* the caller's own exception came through; nothing changed.  (Operations on caches say more: above.)
OnCache(c) == \/ c.op = "kd_use" /\ Typed(c.h, "kd") /\ vObj[c.h].c # 0
              \/ c.op = "b_val" /\ Typed(c.h, "mvar")
              \/ c.op = "qb_val" /\ Typed(c.h, "qcache")
Faulted(c) == /\ c.flt /\ c.x = "fault" /\ ~ OnCache(c) /\ Keep
              /\ c.op = "s_write" => Typed(c.h, "sink") /\ BegunWrite(c, vObj[c.h])
              /\ c.op = "s_fin" => Typed(c.h, "sink") /\ BegunFin(c, vObj[c.h])

\* ------------------------------------------------------------- very long messages
\* The message is pre, then cnt times per, then tail; it is made so that every mode is in the same state
\* after each per (checked here), so that its result is that of pre, cnt times that of per, and that of tail.
\* The driver cuts up the real result in the same way.
BulkOut(c, head, body, rest) ==
  /\ c.head = head /\ c.n = c.cnt /\ c.body = body /\ c.rest = rest
  /\ c.len = Len(head) + c.cnt * Len(body) + Len(rest)
LastOf(s, n) == Blocks(SubSeq(s, Len(s) - 8*n + 1, Len(s)), 8)
BulkCfbS(c, k) ==
  LET a == MM!CfbBlocks(k, c.iv, Blocks(c.pre, 8))
      b == MM!CfbBlocks(k, a[1], Blocks(c.per, 8))
      n == (Len(c.tail) \div 8) * 8
      t == MM!CfbBlocks(k, b[1], Blocks(Take(c.tail, n), 8))
      z == Drop(c.tail, n)
  IN /\ a[1] = b[1]
     /\ BulkOut(c, a[2], b[2], t[2] \o (IF z = << >> THEN << >> ELSE XorB(z, MG!Encr(k, t[1][1]))))
BulkCfbC(c, k) ==
  LET m == Len(c.iv)
  IN /\ Len(c.pre) >= 8*m /\ LastOf(c.pre, m) = LastOf(c.per, m)
     /\ BulkOut(c, MM!CfbDecClosed(k, c.iv, c.pre), MM!CfbDecClosed(k, LastOf(c.pre, m), c.per),
                   MM!CfbDecClosed(k, LastOf(c.per, m), c.tail))
BulkMac(c, k) ==
  LET v == MM!MacChain(k, Blocks(c.pre, 8))
      t == MM!Split(c.tail)
  IN /\ MM!MacChainFrom(k, v, Blocks(c.per, 8)) = v /\ Len(t[2]) = 8
     /\ c.out = MM!MacLast(k, Poly64, MM!MacChainFrom(k, v, t[1]), t[2], TRUE)
BulkKMac(c, rk) ==
  LET v == KM!MacChain(rk, Blocks(c.pre, 16))
      t == KM!Split(c.tail)
  IN /\ KM!MacChainFrom(rk, v, Blocks(c.per, 16)) = v /\ Len(t[2]) = 16
     /\ c.out = KM!MacLast(rk, Poly128, KM!MacChainFrom(rk, v, t[1]), t[2], TRUE)
BulkDi(c, k) ==
  LET F(v, bs) == FoldLeft(LAMBDA s, b : MG!Imit16(k, XorB(b, s)), v, Blocks(bs, 8))
      v == F(Zeros(8), c.pre)
  IN F(v, c.per) = v /\ Len(c.pre) >= 16 /\ c.out = F(v, ZeroFill(c.tail, 8 * MM!Ceil(Len(c.tail))))
BulkCtr(c, rk) ==              \* blocks here and there
  LET n == (Len(c.per) * c.cnt + Len(c.pre) + Len(c.tail)) \div 16
      q == Len(c.per) \div 16
      Data(i) == IF i < Len(c.pre) \div 16 THEN SubSeq(c.pre, 16*i + 1, 16*i + 16)
                 ELSE LET j == i - (Len(c.pre) \div 16)
                          l == j - (q * c.cnt)
                      IN IF l >= 0 THEN SubSeq(c.tail, 16*l + 1, 16*l + 16)
                         ELSE SubSeq(c.per, 16*(j % q) + 1, 16*(j % q) + 16)
  IN /\ c.len = Len(c.per) * c.cnt + Len(c.pre) + Len(c.tail)
     /\ Len(c.outs) = Len(c.pos)
     /\ \A i \in 1..Len(c.pos) : c.outs[i] = XorB(Data(c.pos[i]), KZ!KuzEnc(rk, Counter(c.iv[1], c.pos[i] + 1)))
Bulk(c) ==
  /\ c.op = "bulk" /\ Has(c.k) /\ Done(c) /\ Keep
  /\ LET o == vObj[c.k]
     IN CASE c.what \in {"s_cfb", "s_cfb89"} -> BulkCfbS(c, o.k)
          [] c.what \in {"c_cfb", "c_cfb89"} -> BulkCfbC(c, o.k)
          [] c.what \in {"s_ecb", "s_ecb89"} ->
               BulkOut(c, MM!EcbEncClosed(o.k, c.pre), MM!EcbEncClosed(o.k, c.per), MM!EcbEncClosed(o.k, c.tail))
          [] c.what \in {"c_ecb", "c_ecb89"} ->
               BulkOut(c, MM!EcbDecClosed(o.k, c.pre), MM!EcbDecClosed(o.k, c.per), MM!EcbDecClosed(o.k, c.tail))
          [] c.what = "mac" -> BulkMac(c, o.k)
          [] c.what = "di" -> BulkDi(c, o.k)
          [] c.what = "t_mac" -> BulkKMac(c, o.rk)
          [] c.what = "t_ctr" -> BulkCtr(c, o.rk)

Step(c) ==
  \/ Bulk(c)
  \/ Skipped(c) \/ Drop_(c) \/ Fuse(c) \/ Deep(c) \/ Faulted(c)
  \/ SbNew(c) \/ SbUse(c) \/ KdNew(c) \/ KdUse(c) \/ KNew(c) \/ KUse(c) \/ ContNew(c)
  \/ BNew(c) \/ BVal(c) \/ EbNew(c) \/ EbUse(c)
  \/ SinkNew(c) \/ SWrite(c) \/ SMany(c) \/ SFin(c) \/ SrcNew(c) \/ SRead(c) \/ SReads(c) \/ Same(c)
  \/ Mac(c) \/ BMacNew(c) \/ BMacVal(c) \/ DiNew(c) \/ DiVal(c)
  \/ QNew(c) \/ QBVal(c) \/ QdNew(c) \/ QdHalf(c) \/ QkNew(c)
  \/ StNew(c) \/ ItNew(c) \/ ItWalk(c) \/ ItUse(c) \/ StMac(c) \/ QMacNew(c) \/ QMacVal(c)
=============================================================================
