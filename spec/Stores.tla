-------------------------------- MODULE Stores --------------------------------
(***************************************************************************)
(* The in-memory stores used directly: maps whose entries expire, keyed by  *)
(* issuer and identifier. Memory maps <<"st", index, issuer, key>> to       *)
(*   [v, status, exp (instant after which the entry is gone), sexp (expiry  *)
(*    written in a device session), o (key in the other index)].            *)
(* One operation "store" with a kind (par, code, dev, tok, jti, cli, res),  *)
(* a function and its arguments.                                            *)
(***************************************************************************)
EXTENDS Values

StLife(kind) == IF kind = "dev" THEN 120 ELSE IF kind \in {"tok", "cli"} THEN 1000000000 ELSE 60
StIx(a) == CASE a.kind = "dev" -> IF a.f = "getd" THEN "dc" ELSE "uc" [] a.f = "getv" -> "tokv" [] OTHER -> a.kind
StKey(ix, iss, id) == <<"st", ix, iss, id>>
StK(a) == StKey(StIx(a), a.iss, a.id)
StHas(s, k) == k \in DOMAIN s.mem
StLive(s, k) == StHas(s, k) /\ s.now <= s.mem[k].exp
StDrop(s, ks) == [s EXCEPT !.mem = [x \in DOMAIN @ \ ks |-> @[x]]]

StO(a) == {"H01"} \cup (CASE a.kind = "par" -> {"A03"} [] a.kind = "code" -> {"B01", "B02"} [] a.kind = "dev" -> {"C01", "C02"} [] a.kind = "tok" -> {"D02", "D03"}
                          [] a.kind = "jti" -> {"E02"} [] OTHER -> {})

StResources == {"urn:example:cooperation-context", "urn:example:backend-api"}
StClients == {"t8p9duw4n2klximkv3kagaud796ul67g"}
\* names equal up to letter case, over the vocabulary of the generated cases
StFold(n) == CASE n \in {"App One", "APP ONE", "app one"} -> "app one" [] n \in {"élan", "ÉLAN", "Élan"} -> "élan" [] n \in {"other", "Other"} -> "other" [] n \in {"test-client", "Test-Client"} -> "test-client" [] OTHER -> n
StNamed(s, n) == { k \in DOMAIN s.mem : k[1] = "st" /\ k[2] = "cli" /\ StFold(s.mem[k].o) = StFold(n) }

StThere(s, a, k) == << G("entry stored", StHas(s, k), StO(a)), G("entry alive", StHas(s, k) => s.now <= s.mem[k].exp, StO(a)) >>
StGuards(s, e) == LET a == e.a k == StK(a) O == StO(a) IN
  CASE a.kind = "res" -> << G("known resource", a.id \in StResources, O) >>
    [] a.f = "reg" -> (CASE a.kind = "jti" -> << G("identifier not registered", ~StLive(s, k), O) >> [] a.kind = "tok" -> << G("object given", ~a.nil, O) >> [] OTHER -> <<>>)
    [] a.f = "exists" \/ (a.f = "del" /\ a.kind \in {"dev", "jti"}) -> <<>>
    [] a.f = "getn" -> << G("client named", StNamed(s, a.id) # {}, O) >>
    [] a.f = "val" -> StThere(s, a, k) \o << G("strictly before expiry", StHas(s, k) => s.now < s.mem[k].exp, O), G("session pending", StHas(s, k) => s.mem[k].status = "PENDING", O) >>
    [] a.f = "revoke" -> StThere(s, a, k) \o << G("not revoked yet", StHas(s, k) => s.mem[k].status # "REVOKED", O) >>
    [] OTHER -> StThere(s, a, k)

\* the answer to an accepted call
StResp(s, e) == LET a == e.a k == StK(a) none == [v |-> "", status |-> "", sexp |-> 0, expires |-> 0, found |-> FALSE] IN
  CASE a.f = "reg" -> [none EXCEPT !.expires = IF a.kind \in {"par", "code", "dev"} THEN StLife(a.kind) ELSE 0]
    [] a.f = "exists" -> [none EXCEPT !.found = StLive(s, k)]
    [] a.kind = "res" -> [none EXCEPT !.v = a.id]
    [] a.f = "getn" -> LET c == CHOOSE x \in StNamed(s, a.id) : TRUE IN [none EXCEPT !.v = s.mem[c].v]
    [] a.f \in {"get", "getd", "getu", "getv"} -> [none EXCEPT !.v = s.mem[k].v, !.status = s.mem[k].status, !.sexp = s.mem[k].sexp]
    [] OTHER -> none
StFields(s, e) == LET a == e.a r == e.r x == StResp(s, e) O == StO(a) IN
  << G("value last written", IF a.f = "getn" THEN \E c \in StNamed(s, a.id) : r.v = s.mem[c].v ELSE r.v = x.v, O),
     G("status last written", r.status = x.status, O), G("session expiry", r.sexp = x.sexp, O), G("announced lifetime", r.expires = x.expires, O), G("existence", r.found = x.found, O) >>
  \o When(a.kind = "cli" /\ a.f = "reg", << G("new client identifier", r.id # "" /\ StKey("cli", "", r.id) \notin DOMAIN s.mem /\ r.id \notin StClients, O), G("identifier of the client", r.obj_id = r.id, O) >>)
StErr(s, e) == LET a == e.a k == StK(a) IN
  When(a.kind # "jti" /\ a.f # "reg" /\ (a.f = "val" => ~StLive(s, k)), << G("not found is reported as such", e.r.err = "not_found", StO(a)) >>)

StPost(s, e) == LET a == e.a k == StK(a) IN
  IF ~e.r.ok THEN s
  ELSE CASE a.f = "reg" /\ a.kind = "dev" ->
              LET x == [v |-> a.v, status |-> a.status, exp |-> s.now + 120, sexp |-> s.now + 120, o |-> a.id2] IN
              [s EXCEPT !.mem = (StKey("uc", a.iss, a.id) :> x) @@ (StKey("dc", a.iss, a.id2) :> x) @@ @]
         [] a.f = "reg" /\ a.kind = "tok" ->
              LET x == [v |-> a.v, status |-> a.status, exp |-> 2000000000, sexp |-> 0, o |-> a.id2] IN
              [s EXCEPT !.mem = (k :> x) @@ (StKey("tokv", a.iss, a.id2) :> x) @@ @]
         [] a.f = "reg" /\ a.kind = "cli" -> [s EXCEPT !.mem = (StKey("cli", "", e.r.id) :> [v |-> a.v, status |-> "", exp |-> 2000000000, sexp |-> 0, o |-> a.id]) @@ @]
         [] a.f = "reg" -> [s EXCEPT !.mem = (k :> [v |-> a.v, status |-> "", exp |-> s.now + StLife(a.kind), sexp |-> 0, o |-> ""]) @@ @]
         [] a.f = "val" ->
              LET x == [v |-> a.v, status |-> a.status, exp |-> s.mem[k].exp, sexp |-> a.sexp, o |-> a.id2] IN
              [s EXCEPT !.mem = (k :> x) @@ (StKey("dc", a.iss, a.id2) :> x) @@ @]
         [] a.f = "revoke" -> [s EXCEPT !.mem[k].status = "REVOKED", !.mem[StKey("tokv", a.iss, s.mem[k].o)].status = "REVOKED"]
         [] a.f = "del" /\ a.kind = "tok" -> StDrop(s, {k, StKey("tokv", a.iss, s.mem[k].o)})
         [] a.f = "del" -> StDrop(s, {k})
         [] OTHER -> s
=============================================================================
