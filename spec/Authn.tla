-------------------------------- MODULE Authn --------------------------------
(* Client authentication: private_key_jwt and client attestation. *)
EXTENDS Jose

\* Clients known to the authentication services: A has the key set of the case, B the key k2, C none.
Registered == {"A", "B", "C"}
KeysOf(a, c) == CASE c = "A" -> (IF a.jst = "ok" THEN a.ks ELSE <<>>) [] c = "B" -> << [k |-> "k2", use |-> "sig", kid |-> "k2"] >> [] OTHER -> <<>>
\* a claim holding an instant: how it is written and its value
Given(kind) == kind \in {"num", "huge"}
NotPast(kind, v, now) == kind = "huge" \/ v >= now

PkjO == {"F01"}
PkjGuards(s, e) == LET a == e.a IN
  << G("request", a.req, PkjO), G("assertion type", a.at = "ok", PkjO), G("assertion", a.as = "ok", PkjO) >>
  \o When(a.req /\ a.as = "ok",
  << G("unaltered", a.tamper = "none", PkjO \cup {"G03"}), G("allowed algorithm", AlgOf(a.key) \in AlgSet(a.allowed), PkjO \cup {"G03"}),
     G("issuer", a.iss # "", PkjO), G("subject is the issuer", a.sub = a.iss, PkjO), G("audience", a.aud # "", PkjO), G("identifier", a.jti # "", PkjO),
     G("expiry given", Given(a.exps), PkjO), G("not expired", Given(a.exps) => NotPast(a.exps, a.exp, s.now), PkjO),
     G("client registry available", a.store \notin {"fail", "first"}, PkjO), G("client known", a.iss \in Registered /\ a.store \notin {"nothing", "nothing1"}, PkjO),
     G("signed by a signature key of the client", Verifies(KeysOf(a, a.iss), a.key, ""), PkjO \cup {"G03"}) >>)
PkjFields(s, e) == << G("authenticated client", e.r.client = e.a.iss, PkjO) >>

AttO == {"F02"}
AttGuards(s, e) == LET a == e.a IN
  << G("request", a.req, AttO), G("assertion type", a.at = "ok", AttO), G("assertion", a.as = "ok", AttO) >>
  \o When(a.req /\ a.as = "ok",
  << G("attestation and proof", a.sep = "one", AttO),
     G("attestation unaltered", a.a_tamper = "none", AttO \cup {"G03"}), G("attestation algorithm", AlgOf(a.a_key) \in AlgSet(a.allowed), AttO \cup {"G03"}),
     G("attester", a.a_iss # "", AttO), G("attested client", a.a_sub # "", AttO), G("attestation expiry given", Given(a.a_exps), AttO),
     G("attestation not expired", Given(a.a_exps) => NotPast(a.a_exps, a.a_exp, s.now), AttO), G("attestation usable", a.a_nbfs = "absent" \/ a.a_nbf <= s.now, AttO),
     G("confirmed key", a.cnf \in {"p1", "p2", "e384"}, AttO),
     G("client registry available for the attester", a.store \notin {"first", "fail"}, AttO), G("attester known", a.a_iss \in Registered /\ a.store \notin {"nothing", "nothing1"}, AttO),
     G("attestation signed by a signature key of the attester", Verifies(KeysOf(a, a.a_iss), a.a_key, ""), AttO \cup {"G03"}),
     G("proof unaltered", a.p_tamper = "none", AttO), G("proof algorithm", AlgOf(a.p_key) \in AlgSet(a.allowed), AttO),
     G("proof signed by the confirmed key", a.p_key = a.cnf, AttO),
     G("proof issuer is the attested client", a.p_iss = a.a_sub, AttO), G("proof audience", a.p_aud # "", AttO), G("proof identifier", a.p_jti # "", AttO),
     G("proof expiry given", Given(a.p_exps), AttO), G("proof not expired", Given(a.p_exps) => NotPast(a.p_exps, a.p_exp, s.now), AttO),
     G("proof usable", a.p_nbfs = "absent" \/ a.p_nbf <= s.now, AttO),
     G("client registry available", a.store \notin {"first", "second", "fail"}, AttO), G("attested client known", a.a_sub \in Registered /\ a.store \notin {"nothing", "nothing2"}, AttO) >>)
AttFields(s, e) == << G("authenticated client", e.r.client = e.a.a_sub, AttO) >>

\* which OAuth error reports a failed authentication
AuthnCodes(n) ==
  CASE n = "request" -> {"invalid_request"}
    [] n \in {"assertion type", "assertion"} -> {"invalid_request", "invalid_client"}
    [] n = "client registry available" -> {"server_error"}
    [] n = "client registry available for the attester" -> {"server_error", "unauthorized_client"}
    [] n \in {"client known", "attested client known", "attester known", "signed by a signature key of the client", "attestation signed by a signature key of the attester", "proof signed by the confirmed key"} -> {"invalid_client", "unauthorized_client"}
    [] OTHER -> {"invalid_request", "invalid_client", "unauthorized_client"}
AuthnErr(s, e) == LET failed == Names(IF e.op = "pkj" THEN PkjGuards(s, e) ELSE AttGuards(s, e)) IN
  << G("error code " \o e.r.err, e.r.err \in UNION { AuthnCodes(n) : n \in failed }, {"L01"}), G("no client of a refused authentication", e.r.client = "", IF e.op = "pkj" THEN PkjO ELSE AttO) >>

(* The authenticated client travels in the context *)
CtxFields(s, e) == << G("client found in the context", e.r.found = e.a.inject, {"F01"}), G("client of the context", e.r.client = (IF e.a.inject THEN e.a.cli ELSE ""), {"F01"}),
                      G("outer context unaffected", e.r.outer = e.a.outer, {"F01"}) >>
=============================================================================
