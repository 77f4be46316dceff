------------------------------- MODULE MC_Fields -------------------------------
(* An author writes the members of one derived object one after another:      *)
(* fields in any order, some twice, members nobody knows, then the brace.     *)
EXTENDS TextFmt
VARIABLES ph, tgt, mem, salt
vars == <<ph, tgt, mem, salt>>
\* a named-field struct, or a struct variant of an enum: <<root, variant or 0>>
Named(i) == LET t == Res(Roots[i].t) IN
  CASE t.k = "struct" -> {<<i, 0>>}
    [] t.k = "enum" -> {<<i, x>> : x \in {y \in 1..Min2(Len(t.vs), 12) : t.vs[y].k = "rec"}}
    [] OTHER -> {}
Targets == UNION {Named(i) : i \in FRoots}
Ty == Roots[tgt[1]].t
Fs == IF tgt[2] = 0 THEN Res(Ty).fs ELSE Res(Ty).vs[tgt[2]].fs
\* two values per field; an optional field also takes null
Vals(f) == Range(Take(Samples(f.t, 4), 2)) \cup (IF f.o THEN {None} ELSE {})
DocOf(f, x) == IF f.o /\ x = None THEN NoneDoc ELSE IF f.px = "" THEN FTree(f.t, x)
               ELSE FTree(f.w, Conv(f.px, IF f.o THEN x[2] ELSE x))
\* members nobody asked for
Raw(s) == <<"raw", C(s)>>
JunkDocs == << Raw("1"), Raw("{\"a\":[1,{\"b\":\"}]\\\"\"}],\"c\":{}}"), Raw("[[],[null,true],-1.5e3,\"x\"]"), Raw("\"\\u0000\\\\\""), Lit("null"), Lit("false"),
               Raw("-99999999999999999999999"), Raw("18446744073709551616"), Raw("1e400"), Raw("{\"\":{\"\":[]}}"), Raw("[ /* ] */ ]"),
               <<"raw", Rep(91, 20) \o C("{\"x\":") \o Rep(91, 240) \o Rep(93, 240) \o C("}") \o Rep(93, 20)>> >>
\* names: no field answers to them, though some come close
Close(f) == {f.f, f.j \o <<95>>, Take(f.j, Len(f.j) - 1), <<32>> \o f.j, MapSeq(f.j, LAMBDA c : IF c \in 97..122 THEN c - 32 ELSE c)}
JunkNames(fs) == {x \in UNION {Close(fs[k]) : k \in 1..Len(fs)} \cup {<<>>, C("zz"), <<233>>} : FieldAt(fs, x) = 0}
\* in RON a name has to be an identifier
Ident(x) == x # <<>> /\ IsAlpha(x[1]) /\ SkipIdent(x, 1) > Len(x) /\ x \notin {C("true"), C("false")}
JunkSeq(fs) == SetToSeq({x \in JunkNames(fs) : IsJson \/ Ident(x)})

Init == ph = "idle" /\ tgt = <<0, 0>> /\ mem = <<>> /\ salt = 0
Open == ph = "idle" /\ tgt' \in Targets /\ ph' = "open" /\ UNCHANGED <<mem, salt>>
\* mem: <<field or 0, key, document, value>>
Live == {k \in 1..Len(Fs) : ~Fs[k].s}
Deep == mem # <<>> /\ mem[1][3] = JunkDocs[Len(JunkDocs)]
Free(d) == Len(mem) < (IF Deep THEN 1 ELSE d)
\* the whole choice while short, then a seeded one
Chance(a, b) == IF Wide THEN Rnd(tgt[1] * 7 + tgt[2], Len(mem) * 131 + a, salt + b) % (IF Len(mem) = 0 THEN Pick(5, 2) ELSE 60) = 0 ELSE Len(mem) < Pick(IF Sparse THEN 1 ELSE 2, 2) \/ Rnd(tgt[1] * 7 + tgt[2], Len(mem) * 131 + a, salt + b) % (IF Sparse THEN Pick(7, 9) ELSE Pick(IF IOEnv.VERIF_LOC = "1" THEN 14 ELSE 9, 3)) = 0
Field == \E k \in Live : \E x \in Vals(Fs[k]) : Chance(k, 1) /\ mem' = Append(mem, <<k, Fs[k].j, DocOf(Fs[k], x), x>>) /\ salt' = (salt * 7 + k) % 30011
Junk == LET J == JunkSeq(Fs) IN \E j \in 1..Len(J) : Chance(j, 2) /\ (Len(mem) = 0 \/ (j + salt) % 3 = 0) /\ salt' = (salt * 11 + j) % 30011
          /\ mem' = Append(mem, <<0, J[j], JunkDocs[1 + ((Rnd(tgt[1], salt, j) + j) % (Len(JunkDocs) - IF mem = <<>> THEN 0 ELSE 1))], <<>>>>)
Add == ph = "open" /\ Free(IF Wide THEN 2 ELSE IF Sparse THEN 3 ELSE Pick(4, 6)) /\ (Field \/ Junk) /\ UNCHANGED <<ph, tgt>>
\* the required fields still missing, in a seeded order
Need == {k \in Live : Miss(Fmt, Fs[k])[1] = "req" /\ \A i \in 1..Len(mem) : mem[i][1] # k}
Fill == ph = "open" /\ Need # {} /\ Len(mem) < 3
        /\ LET s == SetToSeq(Need)
               o == Perm(s, (salt + tgt[1]) % (Len(s) + 1))
               one(k) == LET x == Samples(Fs[k].t, 2)[1 + ((salt + k) % Len(Samples(Fs[k].t, 2)))] IN <<k, Fs[k].j, DocOf(Fs[k], x), x>>
           IN mem' = mem \o MapSeq(o, one)
        /\ ph' = "full" /\ UNCHANGED <<tgt, salt>>
Next == Open \/ Add \/ Fill
Spec == Init /\ [][Next]_vars

Doc == Members(IF tgt[2] = 0 THEN <<>> ELSE HeadName(Res(Ty).vs[tgt[2]]), MapSeq(mem, LAMBDA m : <<NameD(m[2]), m[3]>>))
Text_ == FRender(Doc, 1 + (salt % 4), 0, 0, salt % 2)
\* the rules, stated directly
LastOf(k) == LET S == {i \in 1..Len(mem) : mem[i][1] = k} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Means(k) == LET f == Fs[k] IN
  IF f.s THEN <<"ok", f.sv>>
  ELSE IF LastOf(k) # 0 THEN <<"ok", IF f.px = "" THEN FNorm(f.t, mem[LastOf(k)][4]) ELSE mem[LastOf(k)][4]>>
  ELSE IF Miss(Fmt, f)[1] = "def" THEN <<"ok", Miss(Fmt, f)[2]>> ELSE <<"missing">>
Lost == {k \in 1..Len(Fs) : Means(k)[1] = "missing"}
Alien == {i \in 1..Len(mem) : mem[i][1] = 0}
Rule == IF ~IsJson /\ Alien # {} THEN <<"err", IF Live = {} THEN "token" ELSE "key", <<0, 0>>, mem[CHOOSE i \in Alien : \A j \in Alien : i <= j][2]>>
        ELSE IF Lost # {} THEN <<"err", "missing", <<0, 0>>, Fs[CHOOSE k \in Lost : \A j \in Lost : k <= j].f>>
        ELSE LET vs == [k \in 1..Len(Fs) |-> Means(k)[2]] \o <<>> IN <<"ok", IF tgt[2] = 0 THEN <<"rec", vs>> ELSE <<"var", tgt[2] - 1, vs>>>>
Written == ph \in {"open", "full"}
FieldRules == Written =>
  LET d == FDecode(Ty, Text_) IN
  IF Rule[1] = "err" THEN d[1] = "err" /\ d[2] = Rule[2] /\ (Rule[2] = "token" \/ d[4] = Rule[4]) ELSE d[1] \in {"ok", "okerr"} /\ d[2] = Rule[2]
\* None is reached by an absent member exactly as by null (unless a default says otherwise)
NullIsAbsent == Written /\ mem # <<>> /\ mem[Len(mem)][4] = None /\ Rule[1] = "ok" =>
   LET k == mem[Len(mem)][1] IN Means(k) = <<"ok", None>>
\* with VERIF_LOC=1 only the errors, with their places
Observe == Written => IF IOEnv.VERIF_LOC = "0" THEN Emit(<<[o |-> "dec", t |-> tgt[1], s |-> Text_, x |-> Rule, l |-> 2]>>)
                      ELSE Emit(IF Rule[1] = "err" THEN <<[o |-> "dec", t |-> tgt[1], s |-> Text_, x |-> FDecode(Ty, Text_), l |-> 1]>> ELSE <<>>)
=============================================================================
