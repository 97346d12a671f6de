----------------------------- MODULE Conversion -----------------------------
(* The forms a text can take in a program using the crate, and every        *)
(* conversion between them.                                                 *)
(*                                                                          *)
(*   ref    &T            borrowed value of a type T of the crate           *)
(*   buf    TBuf          owned value                                       *)
(*   str, bytes           &str, &[u8]                                       *)
(*   string, vec          String, Vec<u8>                                   *)
(*   gf, single           a grandfathered tag, a singleton: small values    *)
(*                        whose text is not in any buffer of the program    *)
(*                                                                          *)
(* A form reads its text from a buffer.  A borrowed form refers to a buffer *)
(* that something else owns; an owned form owns its buffer.  Conversions    *)
(* borrow (same buffer, source stays), move (source is consumed) or copy    *)
(* (fresh buffer, source stays).                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils, Json

Owned == {"buf", "string", "vec"}
Borrowed == {"ref", "str", "bytes"}
Small == {"gf", "single"}
Forms == Owned \cup Borrowed \cup Small

\* <<operation, from, to, mode>>
Ops == {
  <<"new_str",        "str",    "ref",    "borrow">>,
  <<"from_str",       "str",    "ref",    "borrow">>,
  <<"try_from_str",   "str",    "ref",    "borrow">>,
  <<"new_bytes",      "bytes",  "ref",    "borrow">>,
  <<"from_bytes",     "bytes",  "ref",    "borrow">>,
  <<"try_from_bytes", "bytes",  "ref",    "borrow">>,
  <<"new_string",     "string", "ref",    "borrow">>,
  <<"new_vec",        "vec",    "ref",    "borrow">>,
  <<"parse",          "str",    "buf",    "copy">>,
  <<"buf_new_string", "string", "buf",    "move">>,
  <<"buf_from_string","string", "buf",    "move">>,
  <<"buf_try_string", "string", "buf",    "move">>,
  <<"buf_new_vec",    "vec",    "buf",    "move">>,
  <<"buf_from_bytes", "vec",    "buf",    "move">>,
  <<"buf_try_vec",    "vec",    "buf",    "move">>,
  <<"as_str",         "ref",    "str",    "borrow">>,
  <<"as_ref_str",     "ref",    "str",    "borrow">>,
  <<"borrow_str",     "ref",    "str",    "borrow">>,
  <<"into_str",       "ref",    "str",    "borrow">>,
  <<"as_bytes",       "ref",    "bytes",  "borrow">>,
  <<"as_ref_bytes",   "ref",    "bytes",  "borrow">>,
  <<"into_bytes_ref", "ref",    "bytes",  "borrow">>,
  <<"as_ref_self",    "ref",    "ref",    "borrow">>,
  <<"to_owned",       "ref",    "buf",    "copy">>,
  <<"cow",            "ref",    "buf",    "copy">>,
  <<"display",        "ref",    "string", "copy">>,
  <<"clone",          "buf",    "buf",    "copy">>,
  <<"clone_from",     "buf",    "buf",    "copy">>,
  <<"as_inner",       "buf",    "ref",    "borrow">>,
  <<"deref",          "buf",    "ref",    "borrow">>,
  <<"borrow",         "buf",    "ref",    "borrow">>,
  <<"as_ref",         "buf",    "ref",    "borrow">>,
  <<"buf_as_str",     "buf",    "str",    "borrow">>,
  <<"buf_as_ref_str", "buf",    "str",    "borrow">>,
  <<"buf_as_bytes",   "buf",    "bytes",  "borrow">>,
  <<"buf_as_ref_bytes","buf",   "bytes",  "borrow">>,
  <<"into_string",    "buf",    "string", "move">>,
  <<"string_from",    "buf",    "string", "move">>,
  <<"into_bytes",     "buf",    "vec",    "move">>,
  <<"vec_from",       "buf",    "vec",    "move">>,
  <<"buf_display",    "buf",    "string", "copy">>,
  <<"gf_as_str",      "gf",     "str",    "borrow">>,
  <<"gf_as_bytes",    "gf",     "bytes",  "borrow">>,
  <<"gf_display",     "gf",     "string", "copy">>,
  <<"gf_copy",        "gf",     "gf",     "small">>,
  <<"single_display", "single", "string", "copy">>,
  <<"single_copy",    "single", "single", "small">>,
  <<"str_bytes",      "str",    "bytes",  "borrow">>,      \* the standard library's
  <<"str_owned",      "str",    "string", "copy">>,
  <<"bytes_owned",    "bytes",  "vec",    "copy">>,
  <<"string_as_str",  "string", "str",    "borrow">>,
  <<"vec_as_bytes",   "vec",    "bytes",  "borrow">> }

CONSTANT MaxHops

VARIABLES form,        \* the form in hand
          buf,         \* the buffer it reads
          own,         \* buffers some owned value (in hand or left behind) still owns
          fresh,       \* next buffer name
          hops,        \* conversions so far
          text,        \* buffer -> what it holds
          static       \* buffer 0 is not the program's to drop

vars == <<form, buf, own, fresh, hops, text, static>>

DUMP == "DUMP" \in DOMAIN IOEnv /\ IOEnv.DUMP = "1"
ASSUME DUMP => \A o \in Ops : PrintT(ToJson(<<"CV-E", o[1], o[2], o[3], o[4]>>))

TheText == "t"
\* buffer 0 belongs to the program when it starts from a text, and to nobody,
\* for ever, when it starts from a small value
Init == /\ form \in {"str", "bytes", "string", "vec"} \cup Small
        /\ static = (form \in Small)
        /\ buf = 0 /\ own = {0} /\ fresh = 1 /\ hops = 0
        /\ text = [b \in {0} |-> TheText]

Convert(o) ==
  /\ hops < MaxHops /\ o[2] = form
  \* a form is only usable while its buffer is owned by someone
  /\ buf \in own
  /\ form' = o[3] /\ hops' = hops + 1
  /\ IF o[4] = "copy"
     THEN /\ buf' = fresh /\ fresh' = fresh + 1 /\ own' = own \cup {fresh}
          /\ text' = [b \in DOMAIN text \cup {fresh} |-> IF b = fresh THEN text[buf] ELSE text[b]]
     ELSE UNCHANGED <<buf, fresh, own, text>>
  /\ UNCHANGED static

\* Everything but the value in hand may go away, when it owns its text.
Kept == {buf} \cup (IF static THEN {0} ELSE {})
DropOthers == /\ form \in Owned /\ own # Kept
              /\ own' = Kept /\ UNCHANGED <<form, buf, fresh, hops, text, static>>

Next == (\E o \in Ops : Convert(o)) \/ DropOthers
Spec == Init /\ [][Next]_vars

\* The text never changes, ...
TextKept == text[buf] = TheText
\* ... an owned value owns its text, so it outlives all other buffers ...
OwnedLives == form \in Owned => buf \in own
\* ... and borrowing conversions do not copy.
ModesOk == \A o \in Ops : /\ o[4] = "borrow" => o[3] \in Borrowed
                          /\ o[4] \in {"move", "copy"} => o[3] \in Owned
                          /\ o[4] = "move" => o[2] \in Owned
                          /\ o[4] = "small" <=> o[3] \in Small
BorrowKeepsBuffer == [][form' \in Borrowed => buf' = buf]_vars
\* every form can be turned into every other form of text
RECURSIVE ReachN(_, _)
ReachN(S, k) == IF k = 0 THEN S ELSE ReachN(S \cup {o[3] : o \in {p \in Ops : p[2] \in S}}, k - 1)
Connected == \A f \in Forms : ReachN({f}, 6) \ Small = Forms \ Small
ASSUME Connected
=============================================================================
