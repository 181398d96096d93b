------------------------------ MODULE SdkClient ------------------------------
(***************************************************************************)
(* The SDK client against a server whose answers the case decides.          *)
(* mem[<<"sdk">>] = [keys, exp] : the key set the client holds.             *)
(***************************************************************************)
EXTENDS Values

SkO == {"J01"}
\* a key set answer of the server: what it is, its keys, its expiry instant (0: none)
JwksOk(s, a) == a.jwks = "ok" /\ a.keys # <<>> /\ (a.exp = 0 \/ a.exp >= s.now)
JwksGuards(s, a) == << G("key set answer", a.jwks = "ok", SkO), G("keys", a.jwks = "ok" => a.keys # <<>>, SkO), G("unexpired key set", a.jwks = "ok" => (a.exp = 0 \/ a.exp >= s.now), SkO) >>
Cached(s) == <<"sdk">> \in DOMAIN s.mem /\ s.mem[<<"sdk">>].exp > s.now

\* every response body is closed, whatever the outcome; an error names the one the server answered with
Closed(e) == << G("response bodies left open", e.r.left_open = 0, SkO) >>
Named(e, how) == When(how = "status", << G("error of the server", e.r.names_error, SkO) >>)

SnGuards(s, e) == << G("metadata", e.a.meta = "ok", SkO) >> \o JwksGuards(s, e.a)
SnFields(s, e) == LET a == e.a r == e.r IN
  << G("issuer", r.issuer = a.iss, SkO), G("client", r.client = a.cli, SkO), G("audience", r.audience = a.aud, SkO), G("metadata url", r.meta_url = a.iss \o "/.well-known/oauth-authorization-server", SkO),
     G("key set url", r.jwks_url = a.iss \o "/jwks", SkO), G("metadata of the server", r.served = [i \in 1..6 |-> a.iss \o << "", "/authorize", "/token", "/jwks", "/introspect", "/revoke" >>[i]], SkO) >> \o Closed(e)
SnPost(s, e) == IF e.r.ok THEN Mem(s, <<"sdk">>, [keys |-> e.a.keys, exp |-> e.a.exp]) ELSE s

SkGuards(s, e) == When(~Cached(s), JwksGuards(s, e.a))
SkFields(s, e) == LET a == e.a r == e.r IN Closed(e) \o
  IF Cached(s) THEN << G("cached keys", r.keys = s.mem[<<"sdk">>].keys /\ r.exp = s.mem[<<"sdk">>].exp, SkO) >>
  ELSE << G("keys of the server", r.keys = a.keys /\ r.exp = a.exp, SkO), G("fetched", r.fetched, SkO) >>
SnErr(s, e) == Closed(e)
SkErr(s, e) == << G("keys with an error", e.r.keys = <<>>, SkO) >> \o Closed(e) \o Named(e, e.a.jwks)
ScErr(s, e) == Closed(e) \o Named(e, e.a.answer)
SkPost(s, e) == IF e.r.ok /\ ~Cached(s) THEN Mem(s, <<"sdk">>, [keys |-> e.a.keys, exp |-> e.a.exp]) ELSE s

\* several callers at once: every one gets a key set the server handed out (or the one held), whole, and the client then holds one of them
Pairs(e) == { [keys |-> e.r.served[i].keys, exp |-> e.r.served[i].exp] : i \in DOMAIN e.r.served }
SpFields(s, e) == LET a == e.a r == e.r ok == IF Cached(s) THEN { s.mem[<<"sdk">>] } ELSE Pairs(e) IN
  << G("a panic among concurrent callers", \A i \in DOMAIN r.got : r.got[i].panic = "", SkO),
     G("fetched although held", Cached(s) => r.served = <<>>, SkO), G("callers fail although the server answers", ~a.once \/ Cached(s) => \A i \in DOMAIN r.got : r.got[i].ok, SkO),
     G("nobody gets the key set served", ~Cached(s) => \E i \in DOMAIN r.got : r.got[i].ok, SkO),
     G("each caller gets one key set, whole", \A i \in DOMAIN r.got : r.got[i].ok => [keys |-> r.got[i].keys, exp |-> r.got[i].exp] \in ok, SkO) >> \o Closed(e)
SpPost(s, e) == IF Cached(s) \/ Pairs(e) = {} THEN {s} ELSE { Mem(s, <<"sdk">>, x) : x \in Pairs(e) }

\* what the server receives
ReqFields(e, endpoint) == LET a == e.a r == e.r IN
  << G("endpoint", r.url = a.iss \o endpoint, SkO), G("method", r.method = "POST", SkO), G("assertion sent", r.sent_assertion = a.assertion, SkO),
     G("response bodies left open", r.left_open = 0, SkO), G("assertion type sent", r.sent_type = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer", SkO), G("content type", r.ctype = "application/x-www-form-urlencoded", SkO) >>
ScGuards(s, e) == << G("server answer", e.a.answer = "ok", SkO) >>
ScFields(s, e) == LET a == e.a r == e.r IN
  ReqFields(e, "/token") \o << G("grant sent", r.sent_grant = "client_credentials", SkO), G("access token", r.at = a.at, SkO), G("refresh token", r.rt = a.rt, SkO), G("token type", r.tt = a.tt, SkO) >>
SiFields(s, e) == LET a == e.a r == e.r IN
  ReqFields(e, "/introspect") \o << G("token sent", r.sent_token = a.token, SkO), G("status", (r.status = "ACTIVE") = a.active, SkO), G("value", r.value = a.token, SkO), G("issuer of the answer", r.issuer = a.iss, SkO) >>
  \o When(a.active, << G("token issuer", r.t_iss = a.t_iss, SkO), G("subject", r.t_sub = a.t_sub, SkO), G("audience", r.t_aud = a.t_aud, SkO), G("issuance", r.t_iat = a.t_iat, SkO), G("not before", r.t_nbf = a.t_nbf, SkO),
     G("expiry", r.t_exp = a.t_exp, SkO), G("identifier", r.t_jti = a.t_jti, SkO), G("client", r.t_client = a.t_client, SkO), G("scope", r.t_scope = a.t_scope, SkO), G("confirmation", r.t_jkt = a.t_jkt, SkO) >>)
\* assertion of the SDK presented to the server's private_key_jwt
SaGuards(s, e) == << G("key usable", e.a.key = "e384", SkO) >>
SaFields(s, e) == LET a == e.a r == e.r IN
  << G("issuer claim", r.iss = a.cli, SkO), G("subject claim", r.sub = a.cli, SkO), G("audience claim", r.aud = a.iss, SkO), G("expiry claim", r.exp = s.now + 30, SkO), G("issuance claim", r.iat = s.now, SkO),
     G("identifier claim", r.jti # "" /\ <<"aj", r.jti>> \notin DOMAIN s.mem, SkO), G("authenticated by the server", r.client = (IF a.srvkey = "e384" THEN a.cli ELSE ""), SkO \cup {"F01"}),
     G("authenticated at its last second", r.client_30 = (IF a.srvkey = "e384" THEN a.cli ELSE ""), SkO \cup {"F01"}), G("refused once expired", r.client_31 = "", SkO \cup {"F01"}) >>
SaPost(s, e) == IF e.r.ok THEN Mem([s EXCEPT !.now = @ + 31], <<"aj", e.r.jti>>, [is |-> "jti"]) ELSE s
=============================================================================
