-------------------------------- MODULE Emit --------------------------------
(* What every behaviour module shares: tier and seed from the environment,    *)
(* pseudo-random choices, and printing cases for the replay harness.          *)
EXTENDS Types, Json, IOUtils
Thorough == IOEnv.VERIF_TIER = "thorough"
Seed == atoi(IOEnv.VERIF_SEED) % 30269
\* fewer values per type: for runs over many declarations or many builds
Sparse == IOEnv.VERIF_SPARSE = "1"
Pick(q, t) == IF Thorough THEN t ELSE q
\* printed once per distinct state when used in an invariant
Emit(cases) == IF cases = <<>> THEN TRUE ELSE PrintT("CASE " \o ToJson(cases))
Mix(a, b) == ((a % 30269) * 171 + (b % 30269) * 263 + 7) % 30269
Rnd(k1, k2, k3) == Mix(Mix(Mix(Mix(Seed, k1), k2), k3), k1 + k2)
\* the combination family is run apart from the hand-written types
Combo == IOEnv.VERIF_COMBO = "1"
\* long fixed shapes, too, unless asked for
RootsOf(f, g) == {i \in 1..Len(Roots) : f \in Roots[i].f /\ ("combo" \in Roots[i].g) = Combo /\ ("wide" \in Roots[i].g) = ("wide" \in g) /\ (g = {} \/ g \cap Roots[i].g # {})}
\* the run is about long fixed shapes
Wide == IOEnv.VERIF_TAGS = "wide"
\* the part of the corpus a run is about
Tags == CASE IOEnv.VERIF_TAGS = "all" -> {} [] IOEnv.VERIF_TAGS = "field" -> {"field", "opt"} [] IOEnv.VERIF_TAGS = "px" -> {"proxy"}
          [] IOEnv.VERIF_TAGS = "coll" -> {"coll", "zst"} [] OTHER -> {IOEnv.VERIF_TAGS}
RootIx(n) == CHOOSE i \in 1..Len(Roots) : Roots[i].n = n
\* texts with repetitions: parts <<n, text>> (n = 0: once); a pumped text for the harness, and its expansion with n replaced by k
PumpText(parts) == Flat(MapSeq(parts, LAMBDA p : IF p[1] = 0 THEN p[2] ELSE <<<<"rep", p[1], p[2]>>>>))
PumpSmall(parts, k) == Flat(MapSeq(parts, LAMBDA p : IF p[1] = 0 THEN p[2] ELSE RepSeq(p[2], k)))
\* one position i of a sequence changed
Without(s, i) == Take(s, i - 1) \o Drop(s, i)
Twice(s, i) == Take(s, i) \o Drop(s, i - 1)
Swapped(s, i) == IF i >= Len(s) THEN s ELSE [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
Before(s, i, x) == Take(s, i - 1) \o <<x>> \o Drop(s, i - 1)
\* all positions of a short sequence, a seeded sample of a long one
Positions(n, lim, key) == IF n <= lim THEN 1..n ELSE {1 + (Rnd(n, k, key) % n) : k \in 1..lim}
\* does writing the value involve an order nobody promises (a hash collection with several elements)
RECURSIVE Hashy(_, _)
HashyF(fs, vs) == \E i \in 1..Len(fs) : ~fs[i].s /\ Hashy(fs[i].t, vs[i])
Hashy(tt, x) ==
  LET t == Res(tt) IN
  CASE t.k = "opt" -> x # None /\ Hashy(t.t, x[2])
    [] t.k \in {"seq", "arr"} -> \E i \in 1..Len(x[2]) : Hashy(t.t, x[2][i])
    [] t.k = "set" -> (t.h /\ Len(x[2]) > 1) \/ \E i \in 1..Len(x[2]) : Hashy(t.t, x[2][i])
    [] t.k = "map" -> (t.h /\ Len(x[2]) > 1) \/ \E i \in 1..Len(x[2]) : Hashy(t.kt, x[2][i][1]) \/ Hashy(t.vt, x[2][i][2])
    [] t.k \in {"tup", "tstruct"} -> \E i \in 1..Len(t.ts) : Hashy(t.ts[i], x[2][i])
    [] t.k = "struct" -> HashyF(t.fs, x[2])
    [] t.k = "enum" -> LET w == t.vs[x[2] + 1] IN IF w.k = "rec" THEN HashyF(w.fs, x[3]) ELSE \E i \in 1..Len(w.fs) : Hashy(w.fs[i], x[3][i])
    [] OTHER -> FALSE
\* the k-th member (cyclically) of a set of root numbers: a seeded choice
Nth(S, k) == LET q == SetToSortSeq(S, LAMBDA a, b : a < b) IN q[1 + (k % Len(q))]
=============================================================================
