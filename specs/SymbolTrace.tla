---------------------------- MODULE SymbolTrace -----------------------------
(***************************************************************************)
(* CASES: vars (names of the schema's variables, in order), obs (in turn:  *)
(* ev "ask" with n, id, back; ev "type" with n, id), end.                  *)
(***************************************************************************)
EXTENDS Symbols, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, l, known
tvars == <<k, l, known>>
Obs == Cases[k].obs
AsSet(s) == {s[i] : i \in DOMAIN s}

Init == k \in DOMAIN Cases /\ l = 1 /\ known = Fixed
Ask == /\ l <= Len(Obs) /\ Obs[l].ev = "ask"
       /\ AskOk(Cases[k].vars, known, Obs[l].n, AsSet(Obs[l].id), AsSet(Obs[l].back))
       /\ known' = known \cup {<<Obs[l].n, id>> : id \in AsSet(Obs[l].id)}
Type == /\ l <= Len(Obs) /\ Obs[l].ev = "type"
        /\ TypeOk(Cases[k].vars, known, Obs[l].n, Obs[l].id)
        /\ known' = known \cup {<<Obs[l].n, Obs[l].id>>}
Accept == /\ l = Len(Obs) + 1 /\ Cases[k].end = "end"
          /\ PrintT(<<"ACCEPT", k>>) /\ UNCHANGED known
TNext == (Ask \/ Type \/ Accept) /\ l' = l + 1 /\ UNCHANGED k
TSpec == Init /\ [][TNext]_tvars
=============================================================================
