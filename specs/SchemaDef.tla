------------------------------ MODULE SchemaDef ------------------------------
(* What a schema definition means (C16).                                     *)
(*                                                                           *)
(* A definition is a sequence of items in document order:                    *)
(*   [tag, p, at]: tag of the XML element, index p of the item it is nested  *)
(*   in (0: the root), attributes at: sequence of [k, v], v a text.          *)
(* Texts are sequences of character codes.  In the older flat format, the    *)
(* type is an attribute and nothing is nested.                               *)
(*                                                                           *)
(* State: els  the elements defined so far                                   *)
(*        root the IDs of the root elements                                  *)
(*        who  the ID each item stands for (0: none)                         *)
(*        res  "ok", "fail" (refused), or "free": whether it is refused is   *)
(*             not said, e.g. when an attribute is repeated in another        *)
(*             spelling                                                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

None == <<-1>>                        \* an attribute that is absent
Blank == {9, 10, 13, 32}
RECURSIVE LStrip(_), RStrip(_)
LStrip(v) == IF v # <<>> /\ Head(v) \in Blank THEN LStrip(Tail(v)) ELSE v
RStrip(v) == IF v # <<>> /\ v[Len(v)] \in Blank THEN RStrip(SubSeq(v, 1, Len(v) - 1)) ELSE v
Strip(v) == RStrip(LStrip(v))
Digit(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> 99
RECURSIVE Num(_, _, _)
Num(v, base, acc) == IF v = <<>> THEN acc ELSE IF acc < 0 \/ Digit(Head(v)) >= base THEN -1 ELSE Num(Tail(v), base, acc * base + Digit(Head(v)))
Prefixed(v) == Len(v) > 2 /\ v[1] = 48 /\ v[2] \in {120, 88}
Bare(v) == SubSeq(v, 3, Len(v))
(* an ID: hexadecimal, prefixed or not; -1: none *)
IdOf(v) == LET s == Strip(v) IN IF s = <<>> THEN -1 ELSE IF Prefixed(s) THEN Num(Bare(s), 16, 0) ELSE Num(s, 16, 0)
(* an integer option; -2: not a number *)
IntOf(v) == LET s == Strip(v)
                neg == s # <<>> /\ Head(s) = 45
                t == IF neg THEN Tail(s) ELSE s
                n == IF t = <<>> THEN -1 ELSE IF Prefixed(t) THEN Num(Bare(t), 16, 0) ELSE Num(t, 10, 0) IN
            IF n < 0 THEN -2 ELSE IF neg THEN -n ELSE n
(* a Boolean option *)
BoolOf(v, default) == LET s == Strip(v) IN IF v = None \/ s = <<>> THEN default ELSE Head(s) \in {84, 116, 49}

Has(at, k) == \E i \in 1..Len(at) : at[i].k = k
Get(at, k) == IF Has(at, k) THEN at[CHOOSE i \in 1..Len(at) : at[i].k = k].v ELSE None

Tags == [MasterElement |-> "master", IntegerElement |-> "int", UIntegerElement |-> "uint", FloatElement |-> "float",
         StringElement |-> "str", UnicodeElement |-> "uni", DateElement |-> "date", BinaryElement |-> "bin"]
OldTypes == << <<<<109, 97, 115, 116, 101, 114>>, "master">>, <<<<105, 110, 116, 101, 103, 101, 114>>, "int">>,
   <<<<117, 105, 110, 116, 101, 103, 101, 114>>, "uint">>, <<<<102, 108, 111, 97, 116>>, "float">>, <<<<115, 116, 114, 105, 110, 103>>, "str">>,
   <<<<117, 116, 102, 45, 56>>, "uni">>, <<<<100, 97, 116, 101>>, "date">>, <<<<98, 105, 110, 97, 114, 121>>, "bin">> >>
EndsElement(t) == Len(t) >= 7 /\ SubSeq(t, Len(t) - 6, Len(t)) = "Element"
(* the type an item says: a type, "" (not a definition at all), or "?" (unknown type) *)
TypeOf(item, old) ==
  IF old THEN (IF item.tag # "element" THEN ""
               ELSE LET v == Get(item.at, "type")
                        c == {i \in 1..Len(OldTypes) : v # None /\ OldTypes[i][1] = Strip(v)} IN
                    IF c = {} THEN "?" ELSE OldTypes[CHOOSE i \in c : TRUE][2])
  ELSE IF item.tag \in DOMAIN Tags THEN Tags[item.tag] ELSE IF EndsElement(item.tag) THEN "?" ELSE ""
Letter(c) == c \in 65..90 \/ c \in 97..122 \/ c = 95

PreRead == {"int", "uint", "float", "date"}
VoidName == <<86, 111, 105, 100>>
St0 == [els |-> <<>>, root |-> {}, who |-> <<>>, res |-> "ok"]
Known(st, id) == \E i \in 1..Len(st.els) : st.els[i].id = id
Named(st, nm) == \E i \in 1..Len(st.els) : st.els[i].nm = nm
El(st, id) == CHOOSE i \in 1..Len(st.els) : st.els[i].id = id
ElNamed(st, nm) == CHOOSE i \in 1..Len(st.els) : st.els[i].nm = nm

(* What an attribute of another mention says about the element: "same", "other" or "free" *)
Meaning(old, k, v, ty) ==
  CASE k = "id" -> IF v # None /\ IdOf(v) = old.id THEN "free" ELSE "other"
    [] k = "name" -> IF v # None /\ Strip(v) = old.nm THEN "free" ELSE "other"
    [] k = "multiple" -> IF BoolOf(v, FALSE) = old.mu THEN "free" ELSE "other"
    [] k = "mandatory" -> IF BoolOf(v, FALSE) = old.ma THEN "free" ELSE "other"
    [] k = "precache" -> IF BoolOf(v, ty \in PreRead) = old.pc THEN "free" ELSE "other"
    [] k = "length" -> IF (IF IntOf(v) = -2 THEN -1 ELSE IntOf(v)) = old.ln THEN "free" ELSE "other"
    [] k = "global" -> IF BoolOf(v, FALSE) = old.gl THEN "free" ELSE "other"
    [] k = "default" -> "other"
    [] k = "type" -> "other"
    [] OTHER -> "free"
Mention(old, at, ty) ==
  LET m == {IF Has(old.at, at[i].k) /\ Get(old.at, at[i].k) = at[i].v THEN "same" ELSE Meaning(old, at[i].k, at[i].v, ty) : i \in 1..Len(at)} IN
  IF old.ty # ty \/ "other" \in m THEN "fail" ELSE IF "free" \in m THEN "free" ELSE "ok"

NewEl(id, nm, ty, at) ==
  [id |-> id, nm |-> nm, ty |-> ty, at |-> at, ch |-> {},
   mu |-> BoolOf(Get(at, "multiple"), FALSE), ma |-> BoolOf(Get(at, "mandatory"), FALSE),
   pc |-> BoolOf(Get(at, "precache"), ty \in PreRead),
   ln |-> IF Get(at, "length") = None \/ IntOf(Get(at, "length")) = -2 THEN -1 ELSE IntOf(Get(at, "length")),
   gl |-> IF Get(at, "global") # None /\ Strip(Get(at, "global")) # <<>> THEN BoolOf(Get(at, "global"), FALSE)
          ELSE Get(at, "level") # None /\ IntOf(Get(at, "level")) = -1,
   df |-> Get(at, "default")]

(* One item more.  pid: the ID of the element it is nested in (0: the root) *)
Attach(st, pid, id) == IF pid = 0 THEN [st EXCEPT !.root = @ \cup {id}, !.who = Append(@, id)]
                       ELSE [st EXCEPT !.els[El(st, pid)].ch = @ \cup {id}, !.who = Append(@, id)]
Add(st, item, old) ==
  LET ty == TypeOf(item, old)
      skip == [st EXCEPT !.who = Append(@, 0)]
      fail == [skip EXCEPT !.res = "fail"]
      idt == Get(item.at, "id")
      id == IF idt = None THEN 0 ELSE IdOf(idt)
      nmt == Get(item.at, "name")
      nm == IF nmt = None THEN None ELSE Strip(nmt)
      pid == IF item.p = 0 THEN 0 ELSE st.who[item.p] IN
  IF st.res = "fail" THEN skip
  ELSE IF ty = "" \/ (item.p # 0 /\ pid = 0) THEN skip
  ELSE IF ty = "?" \/ (idt # None /\ id = -1) THEN fail
  ELSE IF (nm # None /\ Named(st, nm)) \/ (idt # None /\ Known(st, id)) THEN
       IF nm # None /\ ~Named(st, nm) THEN fail
       ELSE LET o == st.els[IF nm # None THEN ElNamed(st, nm) ELSE El(st, id)]
                m == Mention(o, item.at, ty) IN
            IF m = "fail" THEN fail
            ELSE Attach([st EXCEPT !.res = IF m = "free" THEN "free" ELSE @], pid, o.id)
  ELSE IF idt = None \/ nm = None \/ nm = <<>> THEN fail
  ELSE IF ~Letter(Head(nm)) THEN fail
  ELSE Attach([st EXCEPT !.els = Append(@, NewEl(id, nm, ty, item.at))], pid, id)
RECURSIVE AddAll(_, _, _, _)
AddAll(st, items, k, old) == IF k > Len(items) THEN st ELSE AddAll(Add(st, items[k], old), items, k + 1, old)
Load(items, old) == AddAll(St0, items, 1, old)

(* The padding element has its own type *)
Final(el) == IF el.nm = VoidName THEN [el EXCEPT !.ty = "void", !.pc = FALSE, !.ln = -1, !.ch = {}] ELSE el
Shown(el) == [id |-> el.id, nm |-> el.nm, ty |-> el.ty, mu |-> el.mu, ma |-> el.ma, pc |-> el.pc, ln |-> el.ln, gl |-> el.gl, df |-> el.df, ch |-> el.ch]
Elements(st) == {Shown(Final(st.els[i])) : i \in 1..Len(st.els)}

DefaultOf(st, id) == IF Known(st, id) THEN st.els[El(st, id)].df ELSE None
DocType(st) == DefaultOf(st, 17026)              \* 0x4282
DocVersion(st) == LET v == DefaultOf(st, 17031) IN IF v = None \/ Strip(v) = <<>> THEN -1 ELSE Num(Strip(v), 10, 0)   \* 0x4287
NameOf(st, arg, base) == IF arg # <<>> THEN arg ELSE IF DocType(st) \notin {None, <<>>} THEN DocType(st) ELSE base

(* Equality: "yes" and "no", or "free" (definitions of the same meaning, written differently) *)
Texts(st) == {[id |-> st.els[i].id, ty |-> Final(st.els[i]).ty, at |-> {st.els[i].at[j] : j \in 1..Len(st.els[i].at)}] : i \in 1..Len(st.els)}
Bones(st) == {[x EXCEPT !.ch = {}] : x \in Elements(st)}
Equal(a, b) == IF Texts(a) = Texts(b) THEN (IF Elements(a) = Elements(b) /\ a.root = b.root THEN "yes" ELSE "free")
               ELSE IF Bones(a) # Bones(b) THEN "no" ELSE "free"
=============================================================================
