------------------------------ MODULE Registry ------------------------------
(* Loading, caching, searching and listing of schemata (C17, C18).           *)
(*                                                                           *)
(* State: fs    what is at each path ("dir/file"): a number                  *)
(*              1, 2, ... a schema definition (its version)                  *)
(*              -1        something that cannot be loaded                    *)
(*              -3        a folder of that name                              *)
(*        cwd   the current directory                                        *)
(*        sp    the search path: sequence of entries [k, d]                  *)
(*              k = "dir" (folder d), "cwd", "rel" (folder d below the       *)
(*              current directory), "none" (nothing there)                   *)
(*        bind  what each name stands for: [f |-> path, o |-> 0] the schema  *)
(*              loaded last from that file, or [f |-> "", o |-> n] object n  *)
(*        file  the object loaded last from each file                        *)
(*        objs  the schema objects: [v, f] version and file                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Empty == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Join(d, f) == d \o "/" \o f
St0 == [fs |-> Empty, cwd |-> "", sp |-> <<>>, bind |-> Empty, file |-> Empty, objs |-> <<>>]

Dir(st, en) == CASE en.k = "dir" -> en.d [] en.k = "cwd" -> st.cwd [] en.k = "rel" -> Join(st.cwd, en.d) [] OTHER -> ""
Content(st, p) == At(st.fs, p, 0)
IsFile(st, p) == Content(st, p) \notin {0, -3}
RECURSIVE Search(_, _, _, _)
Search(st, f, paths, i) ==               \* the first entry that has the file
  IF i > Len(paths) THEN ""
  ELSE LET d == Dir(st, paths[i]) IN
       IF d # "" /\ IsFile(st, Join(d, f)) THEN Join(d, f) ELSE Search(st, f, paths, i + 1)
(* The file a name means.  A bare file name is looked for in the current
   directory, and then along the search path; others say where it is. *)
Resolve(st, e) ==
  IF e.bare = 1 THEN (IF IsFile(st, Join(st.cwd, e.f)) THEN Join(st.cwd, e.f) ELSE Search(st, e.f, IF e.given = 1 THEN e.paths ELSE st.sp, 1))
  ELSE IF IsFile(st, Join(e.d, e.f)) THEN Join(e.d, e.f) ELSE ""
Bound(st, k) == IF k \notin DOMAIN st.bind THEN 0
                ELSE IF st.bind[k].f # "" THEN st.file[st.bind[k].f] ELSE st.bind[k].o
NewObj(st, v, f) == [st EXCEPT !.objs = Append(@, [v |-> v, f |-> f])]

(* [r |-> object (0: fails), st].  A name not used before, of a file that was
   loaded and is gone, may give the file's schema (got) or fail. *)
DoLoad(st, e, got) ==
  LET gone == Join(IF e.bare = 1 THEN st.cwd ELSE e.d, e.f)
      p0 == Resolve(st, e)
      p == IF p0 = "" /\ e.reload = 0 /\ gone \in DOMAIN st.file /\ got = st.file[gone] THEN gone ELSE p0
      keep == [r |-> Bound(st, e.key), st |-> st]
      fail == [r |-> 0, st |-> st] IN
  IF e.reload = 0 /\ Bound(st, e.key) # 0 THEN keep
  ELSE IF p = "" THEN fail
  ELSE IF e.reload = 0 /\ p \in DOMAIN st.file THEN [r |-> st.file[p], st |-> [st EXCEPT !.bind = Put(@, e.key, [f |-> p, o |-> 0])]]
  ELSE IF Content(st, p) < 1 THEN fail
  ELSE LET o == Len(st.objs) + 1
           s2 == NewObj(st, Content(st, p), p) IN
       [r |-> o, st |-> [s2 EXCEPT !.bind = Put(@, e.key, [f |-> p, o |-> 0]), !.file = Put(@, p, o)]]
(* from text: e.key is the name asked for, or else the definition's own one;
   in that case (e.own = 1) the schema of that name or a new one is right *)
DoParse(st, e, got) ==
  LET new == LET o == Len(st.objs) + 1 IN [r |-> o, st |-> [NewObj(st, e.v, "") EXCEPT !.bind = Put(@, e.key, [f |-> "", o |-> o])]]
      old == [r |-> Bound(st, e.key), st |-> st] IN
  IF e.own = 1 THEN (IF e.v < 1 THEN [r |-> 0, st |-> st]
                     ELSE IF e.reload = 0 /\ Bound(st, e.key) # 0 /\ got = Bound(st, e.key) THEN old ELSE new)
  ELSE IF e.reload = 0 /\ Bound(st, e.key) # 0 THEN old
  ELSE IF e.v < 1 THEN [r |-> 0, st |-> st] ELSE new
Default == <<[k |-> "cwd", d |-> ""], [k |-> "dir", d |-> "lib"]>>
RECURSIVE FirstOnly(_)
FirstOnly(s) == IF s = <<>> THEN <<>>
                ELSE LET r == FirstOnly(SubSeq(s, 1, Len(s) - 1)) x == s[Len(s)] IN
                     IF x.k # "none" /\ \E k \in 1..Len(r) : r[k] = x THEN r ELSE Append(r, x)
Do(st, e, got) ==
  CASE e.op = "write" -> [r |-> 0, st |-> [st EXCEPT !.fs = Put(@, Join(e.d, e.f), e.v)]]
    [] e.op = "chdir" -> [r |-> 0, st |-> [st EXCEPT !.cwd = e.d]]
    [] e.op = "path" -> [r |-> 0, st |-> [st EXCEPT !.sp = e.paths]]
    \* a new process: the search path is the current directory, the library's own
    \* folder, and what the environment names, in that order
    [] e.op = "start" -> [r |-> 0, st |-> [st EXCEPT !.sp = FirstOnly(Default \o e.paths), !.bind = Empty, !.file = Empty, !.objs = <<>>]]
    [] e.op = "load" -> DoLoad(st, e, got)
    [] e.op = "parse" -> DoParse(st, e, got)
    [] OTHER -> [r |-> 0, st |-> st]

(* The listing of a file name: the paths of the schema definitions, in search order *)
RECURSIVE Found(_, _, _, _)
Found(st, f, paths, i) ==
  IF i > Len(paths) THEN <<>>
  ELSE LET d == Dir(st, paths[i])
           here == IF d # "" /\ Content(st, Join(d, f)) >= 1 THEN <<Join(d, f)>> ELSE <<>> IN
       here \o Found(st, f, paths, i + 1)
=============================================================================
