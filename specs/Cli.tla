--------------------------------- MODULE Cli ---------------------------------
(* The command-line tools as transitions of a file system (C24).             *)
(*                                                                           *)
(* State: fs    what is at each path: a content (a number or a name), absent *)
(*              paths are not in the domain; Folder for a folder             *)
(*        links other names of files: path -> path                          *)
(* Command e: tool   "ebml2xml", "xml2ebml", "view", "list"                  *)
(*            in     path of the input ("" for "list")                       *)
(*            sch    path of the schema; "@" one shipped with the library;   *)
(*                   "?" nothing such                                        *)
(*            out    path of the output, "" standard output                  *)
(*            c      1 if overwriting is requested                           *)
(* lib: what the library produces for the same input, schema and options     *)
(*      (-1: it fails; -2: not specified)                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Folder == -3
Has(f, k) == k \in DOMAIN f
Real(st, p) == IF Has(st.links, p) THEN st.links[p] ELSE p
Exists(st, p) == Has(st.fs, Real(st, p))
Same(st, p, q) == Real(st, p) = Real(st, q)

Converter(e) == e.tool # "list"
Inputs(e) == {p \in {e.in, e.sch} : p \notin {"", "@", "?"}}
(* Refusals: nothing is created or changed *)
Refused(st, e) ==
  /\ Converter(e)
  /\ \/ ~Exists(st, e.in)
     \/ e.sch = "?" \/ (e.sch # "@" /\ ~Exists(st, e.sch))
     \/ e.out # "" /\ \/ Exists(st, e.out) /\ e.c = 0
                      \/ \E p \in Inputs(e) : Same(st, p, e.out)     \* inputs are never modified
(* The output cannot be written: a folder, or in a folder that is not there *)
Unwritable(st, e) == e.out # "" /\ (e.nodir = 1 \/ (Exists(st, e.out) /\ st.fs[Real(st, e.out)] = Folder))
Fails(st, e, lib) == ~Refused(st, e) /\ (lib = -1 \/ Unwritable(st, e))
Free(st, e, lib) == ~Refused(st, e) /\ ~Unwritable(st, e) /\ lib = -2
Works(st, e, lib) == ~Refused(st, e) /\ ~Fails(st, e, lib) /\ ~Free(st, e, lib)
(* What the file system may be afterwards *)
Except(f, g, p) ==                       \* f and g agree but for path p
  \A q \in (DOMAIN f \cup DOMAIN g) \ {p} : Has(f, q) /\ Has(g, q) /\ f[q] = g[q]
AfterOk(st, e, lib, fs2) ==
  IF Refused(st, e) THEN fs2 = st.fs
  ELSE IF e.out = "" THEN fs2 = st.fs
  ELSE /\ Except(st.fs, fs2, Real(st, e.out))
       /\ Unwritable(st, e) => fs2 = st.fs
       /\ Works(st, e, lib) => Has(fs2, Real(st, e.out))
(* status: 0 exactly if it worked *)
StatusOk(st, e, lib, status) == Free(st, e, lib) \/ ((status = 0) <=> Works(st, e, lib))
=============================================================================
