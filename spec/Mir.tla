-------------------------------- MODULE Mir --------------------------------
(* Abstract syntax of one function body, as exported from rustc, and the      *)
(* geometry of places: types of projections, sub-places, pointers, aliases'   *)
(* normal forms.                                                              *)
(*                                                                            *)
(* A function `f` is a record (see harness/src/export.rs).  A place is        *)
(* <<local, elems>>; an element is one of                                     *)
(*   <<"D">> deref, <<"F", i, t>> field i of type t, <<"V", v>> downcast,     *)
(*   <<"I", l>> index by local l, <<"C", ..>> constant index,                 *)
(*   <<"S", ..>> subslice, <<"O"|"U"|"T", t>> casts.                          *)
(* Locations and arguments are numbered 0..nloc-1 and nloc..nloc+argc-1.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Deref == <<"D">>
Ty(f, t) == f.types[t + 1]
NLoc(f) == f.nloc
Locations(f) == 0 .. (f.nloc - 1)
ArgIds(f) == f.nloc .. (f.nloc + f.argc - 1)
Domain(f) == 0 .. (f.nloc + f.argc - 1)
ArgId(f, local) == f.nloc + local - 1
ReturnLocal == 0

LocalPlace(l) == <<l, <<>>>>
Project(p, e) == <<p[1], Append(p[2], e)>>
ProjectAll(p, es) == <<p[1], p[2] \o es>>
Prefix(p, n) == <<p[1], SubSeq(p[2], 1, n)>>
Suffix(p, n) == SubSeq(p[2], n + 1, Len(p[2]))

-----------------------------------------------------------------------------
(* Types of places *)

(* Part of an array is a shorter array. *)
SubsliceTy(f, t, e) ==
  LET T == Ty(f, t)
      len == IF e[4] = 0 THEN e[3] - e[2] ELSE T.len - e[2] - e[3]
      ts == IF T.k # "array" THEN {}
            ELSE {i \in DOMAIN f.types : f.types[i].k = "array" /\ f.types[i].ty = T.ty /\ f.types[i].len = len}
  IN IF ts = {} THEN t ELSE (CHOOSE i \in ts : TRUE) - 1

ElemTy(f, t, e) ==
  CASE e[1] = "F" -> e[3]
    [] e[1] \in {"D", "I", "C"} -> Ty(f, t).ty
    [] e[1] = "V" -> t
    [] e[1] = "S" -> SubsliceTy(f, t, e)
    [] OTHER -> e[2]

PlaceTy(f, p) ==
  FoldLeft(LAMBDA t, e : ElemTy(f, t, e), f.locals[p[1] + 1].ty, p[2])

Kind(f, t) == Ty(f, t).k
IsBox(f, t) == Kind(f, t) = "box"
IsRawPtr(f, t) == Kind(f, t) = "ptr"
IsUnit(f, t) == Kind(f, t) = "tuple" /\ Ty(f, t).unit
IsSharedRef(f, t) == Kind(f, t) = "ref" /\ Ty(f, t).mut = 0

(* Erase what must not matter when comparing places: regions, the value of an *)
(* index, sub-slicing.                                                        *)
NormElem(f, e) ==
  CASE e[1] = "F" -> <<"F", e[2], Ty(f, e[3]).norm>>
    [] e[1] \in {"I", "C"} -> <<"I", 0>>
    [] e[1] \in {"O", "U", "T"} -> <<e[1], Ty(f, e[2]).norm>>
    [] OTHER -> e

Normalize(f, p) ==
  IF p[2] = <<>> THEN p
  ELSE LET es == SelectSeq(p[2], LAMBDA e : e[1] # "S")
       IN <<p[1], [i \in DOMAIN es |-> NormElem(f, es[i])]>>

HasIndex(p) == \E i \in DOMAIN p[2] : p[2][i][1] \in {"I", "C", "S"}

-----------------------------------------------------------------------------
(* Dereferences in a place *)

IsArgPlace(f, p) == p[1] >= 1 /\ p[1] <= f.argc
HasDeref(p) == \E i \in DOMAIN p[2] : p[2][i] = Deref

(* Positions i such that elems[i] dereferences something other than a Box. *)
RefPositions(f, p) ==
  {i \in DOMAIN p[2] : p[2][i] = Deref /\ ~IsBox(f, PlaceTy(f, Prefix(p, i - 1)))}

IsDirect(f, p) == ~HasDeref(p) \/ IsArgPlace(f, p) \/ RefPositions(f, p) = {}

-----------------------------------------------------------------------------
(* Sub-places.  `stop` says whether to go through references.                 *)
(* A type already on the path is not entered again (recursive types).        *)
(* NOTE (deviation kept on purpose, see DESIGN.md): a struct with invisible   *)
(* fields numbers its *visible* fields consecutively.                         *)

VisibleFields(T) == SelectSeq(T.fields, LAMBDA x : x[2] = 1)

RECURSIVE SubPlaces(_, _, _, _, _)
SubPlaces(f, p, t, stack, throughRefs) ==
  IF t \in stack THEN {}
  ELSE
    LET T == Ty(f, t)
        s2 == stack \cup {t}
        go(q, u) == SubPlaces(f, q, u, s2, throughRefs)
    IN {p} \cup
      CASE T.k = "box" -> go(Project(p, Deref), T.ty)
        [] T.k = "tuple" ->
             UNION {go(Project(p, <<"F", i - 1, T.fields[i]>>), T.fields[i])
                    : i \in DOMAIN T.fields}
        [] T.k = "struct" ->
             LET vis == VisibleFields(T)
             IN UNION {go(Project(p, <<"F", i - 1, vis[i][1]>>), vis[i][1])
                       : i \in DOMAIN vis}
        [] T.k = "enum" ->
             UNION {UNION {go(Project(Project(p, <<"V", v - 1>>),
                                       <<"F", j - 1, T.variants[v][j]>>),
                              T.variants[v][j])
                           : j \in DOMAIN T.variants[v]}
                    : v \in DOMAIN T.variants}
        [] T.k \in {"array", "slice"} -> go(Project(p, <<"I", 0>>), T.ty)
        [] T.k = "closure" -> go(p, T.ty)
        [] T.k = "ptr" -> {Project(p, Deref)} \cup go(Project(p, Deref), T.ty)
        [] T.k = "ref" /\ throughRefs ->
             (IF T.r >= 0 THEN {Project(p, Deref)} ELSE {})
               \cup go(Project(p, Deref), T.ty)
        [] OTHER -> {}

InteriorPlaces(f, p) == SubPlaces(f, p, PlaceTy(f, p), {}, FALSE)

(* All pointers inside a place: <<region, place, mutable>>; region -1 is the   *)
(* unknown region of raw pointers.                                            *)
RECURSIVE Pointers(_, _, _, _, _)
Pointers(f, p, t, stack, imm) ==
  IF t \in stack THEN {}
  ELSE
    LET T == Ty(f, t)
        s2 == stack \cup {t}
        go(q, u) == Pointers(f, q, u, s2, imm)
    IN
      CASE T.k = "box" -> go(Project(p, Deref), T.ty)
        [] T.k = "tuple" ->
             UNION {go(Project(p, <<"F", i - 1, T.fields[i]>>), T.fields[i])
                    : i \in DOMAIN T.fields}
        [] T.k = "struct" ->
             LET vis == VisibleFields(T)
             IN UNION {go(Project(p, <<"F", i - 1, vis[i][1]>>), vis[i][1])
                       : i \in DOMAIN vis}
        [] T.k = "enum" ->
             UNION {UNION {go(Project(Project(p, <<"V", v - 1>>),
                                       <<"F", j - 1, T.variants[v][j]>>),
                              T.variants[v][j])
                           : j \in DOMAIN T.variants[v]}
                    : v \in DOMAIN T.variants}
        [] T.k \in {"array", "slice"} -> go(Project(p, <<"I", 0>>), T.ty)
        [] T.k = "closure" -> go(p, T.ty)
        [] T.k = "ptr" ->
             {<<-1, p, IF imm THEN 0 ELSE 1>>} \cup go(Project(p, Deref), T.ty)
        [] T.k = "ref" ->
             LET imm2 == imm \/ T.mut = 0
             IN (IF T.r >= 0 THEN {<<T.r, p, IF imm2 THEN 0 ELSE 1>>} ELSE {})
                  \cup Pointers(f, Project(p, Deref), T.ty, s2, imm2)
        [] OTHER -> {}

InteriorPointers(f, p) == Pointers(f, p, PlaceTy(f, p), {}, FALSE)

-----------------------------------------------------------------------------
(* Regions syntactically inside a type, with whether a shared reference is on *)
(* the way.  The arguments of a defined type do not mention the references in *)
(* its fields that live for the whole program (st: 1 shared, 2 mutable).      *)
RECURSIVE TypeRegions(_, _, _)
TypeRegions(f, t, imm) ==
  LET T == Ty(f, t)
      imm2 == imm \/ (T.k = "ref" /\ T.mut = 0)
      own == IF T.k \in {"box", "ptr"} THEN {<<-1, imm>>}
             ELSE IF "st" \in DOMAIN T /\ T.st > 0 THEN {<<0, imm \/ T.st = 1>>} ELSE {}
  IN own \cup
     UNION {IF s[1] = "r" THEN (IF s[2] >= 0 THEN {<<s[2], imm2>>} ELSE {})
            ELSE TypeRegions(f, s[2], imm2) : s \in Range(T.sup)}

-----------------------------------------------------------------------------
(* Statements *)

BlockOf(f, loc) ==
  CHOOSE b \in DOMAIN f.blocks :
    /\ f.blocks[b].start <= loc
    /\ loc <= f.blocks[b].start + Len(f.blocks[b].stmts)
TermLoc(f, b) == f.blocks[b].start + Len(f.blocks[b].stmts)
IsTerm(f, loc) == LET b == BlockOf(f, loc) IN loc = TermLoc(f, b)
StmtAt(f, loc) == LET b == BlockOf(f, loc) IN f.blocks[b].stmts[loc - f.blocks[b].start + 1]
TermAt(f, loc) == f.blocks[BlockOf(f, loc)].term

(* Successor locations; block numbers in the data are 0-based. *)
SuccLocs(f, loc) ==
  LET b == BlockOf(f, loc)
  IN IF loc = TermLoc(f, b)
     THEN {f.blocks[s + 1].start : s \in Range(f.blocks[b].term.succ)}
     ELSE {loc + 1}

IsPlaceOp(o) == o.k \in {"copy", "move"}
OpPlaces(ops) == {ops[i].p : i \in {j \in DOMAIN ops : IsPlaceOp(ops[j])}}
RvaluePlaces(rv) == OpPlaces(rv.ops) \cup Range(rv.pl)
=============================================================================
