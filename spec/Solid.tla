------------------------------- MODULE Solid -------------------------------
(***************************************************************************)
(* The authorization server of zntrio/solid (services + in-memory stores)   *)
(* as an executable transition system.                                      *)
(*                                                                          *)
(* A state is a record                                                      *)
(*   now   current instant, in seconds                                      *)
(*   adm   registrations changed since the start: client id -> ...          *)
(*   par   pushed authorization requests   <<issuer, request_uri>> -> ...   *)
(*   code  authorization codes             <<issuer, code>>        -> ...   *)
(*   dev   device flows                    <<issuer, device_code>> -> ...   *)
(*   tok   issued tokens                   <<issuer, value>>       -> ...   *)
(*   jti   registered DPoP proof ids       id -> expiry                     *)
(*   seen  every identifier ever issued                                     *)
(*   mem   what earlier operations on signed formats established (Formats)  *)
(*   multi TRUE when the behaviour uses several issuers                      *)
(*                                                                          *)
(* An event e is a record [op, a (arguments), r (response), f (fault)].     *)
(* Every operation is described by                                          *)
(*   - guards: named conditions a request must satisfy to be accepted, each *)
(*     with the ids of the properties it implements;                        *)
(*   - fields: named conditions on the response of an accepted request;     *)
(*   - Post:   the next state(s).                                           *)
(* The same operators drive exploration (SolidGen) and trace validation     *)
(* (SolidTrace).                                                            *)
(***************************************************************************)
EXTENDS Base, Formats, Refusals

CONSTANT Reg        \* initial client registry: client id -> registration
CONSTANT Resources  \* resource urns known by the server (token exchange audiences)

Lifetime(kind) ==
  CASE kind = "par"  -> 60
    [] kind = "code" -> 60
    [] kind = "dev"  -> 120
    [] kind = "jti"  -> 60
    [] kind = "at"   -> 3600
    [] kind = "rt"   -> 604800
    [] kind = "xt"   -> 60
    [] kind = "skew" -> 15

GAuthzCode == "authorization_code"
GClientCred == "client_credentials"
GDevice == "urn:ietf:params:oauth:grant-type:device_code"
GRefresh == "refresh_token"
GExchange == "urn:ietf:params:oauth:grant-type:token-exchange"
ATType == "urn:ietf:params:oauth:token-type:access_token"

MultiOwner(s) == IF s.multi THEN {"D10"} ELSE {}

\* letter case folding over the vocabulary of scope values used by the harness
Lower(w) ==
  CASE w \in {"openid", "Openid", "OpenID", "OPENID", "openID", "oPeNiD"} -> "openid"
    [] w \in {"offline_access", "OFFLINE_ACCESS", "Offline_Access", "Offline_access", "offline_ACCESS", "oFFline_aCCess"} -> "offline_access"
    [] OTHER -> w

HasWord(ws, w) == \E i \in DOMAIN ws : Lower(ws[i]) = w
Without(ws, w) == SelectSeq(ws, LAMBDA x : Lower(x) # w)

RECURSIVE Join(_)
Join(ws) == IF Len(ws) = 0 THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o " " \o Join(Tail(ws))

\* registrations are those of the moment of the request
Known(s, c) == IF c \in DOMAIN s.adm THEN s.adm[c].there ELSE c \in DOMAIN Reg
RegOf(s, c) == IF c \in DOMAIN s.adm THEN s.adm[c] ELSE Reg[c]

InitState(t0, multi) == [now |-> t0, multi |-> multi, adm |-> <<>>, par |-> <<>>, code |-> <<>>, dev |-> <<>>, tok |-> <<>>, jti |-> <<>>, seen |-> {}, mem |-> <<>>]

---------------------------------------------------------------------------
(* Authorization requests *)

RespTypes == {"code", "token"}
RespModes == {"query", "fragment", "form_post", "jwt", "form_post.jwt", "query.jwt", "fragment.jwt"}

\* 'jwt' is the default JWT mode of the response type
EffMode(q) == IF q.mode_set /\ q.mode = "jwt"
              THEN IF q.rtype = "code" THEN "query.jwt" ELSE "fragment.jwt"
              ELSE q.mode

EffWords(q) ==
  IF HasWord(q.scope_w, "openid") /\ HasWord(q.scope_w, "offline_access") /\ ~(q.prompt_set /\ q.prompt = "consent")
  THEN Without(q.scope_w, "offline_access") ELSE q.scope_w
EffScope(q) == IF HasWord(q.scope_w, "openid") THEN Join(EffWords(q)) ELSE q.scope

\* the request kept for an authorization
Normal(q) == [q EXCEPT !.mode = EffMode(q), !.scope_w = EffWords(q), !.scope = EffScope(q)]

AdmissionGuards(s, q) ==
  LET A == {"A01"} c == q.client_id known == Known(s, c) r == RegOf(s, c) IN
  << G("state", q.state_len >= 32, A),
     G("nonce", q.nonce_len >= 8, A),
     G("scope", q.scope # "", A),
     G("audience", q.aud # "", A),
     G("client_id", c # "", A),
     G("redirect_uri", q.redirect # "", A),
     G("redirect_uri syntax", q.redirect_valid, A),
     G("response_type", q.rtype \in RespTypes, A),
     G("code_challenge", q.chal_len = 43, A),
     G("code_challenge_method", q.method = "S256", A),
     G("response_mode", q.mode_set => q.mode \in RespModes, A),
     G("client known", known, A \cup {"A04"}),
     G("client grant", known => GAuthzCode \in Range(r.grants), A),
     G("client response_type", known => q.rtype \in Range(r.rtypes), A),
     G("client redirect_uri", known => q.redirect \in Range(r.redirects), A \cup {"B02"}),
     G("client response_mode", (known /\ q.mode_set) => EffMode(q) \in Range(r.rmodes), A) >>

Fresh(s, id, owners) == G("fresh identifier " \o id, id # "" /\ id \notin s.seen, owners)

(* Push: Authorization.Register *)
PushGuards(s, e) == LET a == e.a IN
  << G("issuer", a.iss # "", {"A01"}), G("client", a.cli_set, {"A04"}), G("request", a.rset, {"A01"}),
     G("nested request_uri", ~a.nested, {"A01", "A03"}) >>
  \o When(a.rset, AdmissionGuards(s, a.req)
       \o << G("request belongs to client", a.cli_set => a.req.client_id = a.cli, {"A04"}) >>)
PushFields(s, e) ==
  << Fresh(s, e.r.uri, {"A05", "G09"}),
     G("expires_in", e.r.expires = Lifetime("par"), {"A03", "A05"}),
     G("issuer", e.r.iss = e.a.iss, {"A05"}) >>
PushPost(s, e) ==
  { [s EXCEPT !.par = (<<e.a.iss, e.r.uri>> :> [req |-> Normal(e.a.req), exp |-> s.now + Lifetime("par"), used |-> FALSE]) @@ @,
              !.seen = @ \cup {e.r.uri}] }

(* Authorize *)
ParKey(e) == <<e.a.iss, e.a.ref>>
ParThere(s, e) == ParKey(e) \in DOMAIN s.par
ParLive(s, e) == ParThere(s, e) /\ ~s.par[ParKey(e)].used /\ s.now <= s.par[ParKey(e)].exp
AuthPre(s, e) == LET a == e.a IN
  << G("request", a.rset, {"A01"}), G("issuer", a.iss # "", {"A01"}), G("subject", a.sub # "", {"A01", "A05"}) >>
AuthRef(s, e) == LET a == e.a k == ParKey(e) IN
  When(a.rset /\ a.ref_set,
    << G("request_uri known", ParThere(s, e),
         {"A03"} \cup (IF \E x \in DOMAIN s.par : x[2] = a.ref THEN {"D10"} ELSE {})),
       G("request_uri unused", ParThere(s, e) => ~s.par[k].used, {"A03"}),
       G("request_uri alive", ParThere(s, e) => s.now <= s.par[k].exp, {"A03"}) >>)
AuthReq(s, e) == IF e.a.ref_set /\ ParThere(s, e) THEN s.par[ParKey(e)].req ELSE e.a.req
AuthGuards(s, e) == LET a == e.a q == AuthReq(s, e) pre == AuthPre(s, e) \o AuthRef(s, e) IN
  IF Failing(pre) # {} THEN pre
  ELSE pre \o << G("authorization belongs to client", a.cli_set => q.client_id = a.cli, {"A04"}) >> \o AdmissionGuards(s, q)
AuthFields(s, e) == LET q == Normal(AuthReq(s, e)) r == e.r O == {"A05"} P == IF e.a.ref_set THEN {"A03", "A05"} ELSE O IN
  << Fresh(s, r.code, {"A05", "G09"}),
     G("state", r.state = q.state, P), G("redirect_uri", r.redirect = q.redirect, P),
     G("client_id", r.client = q.client_id, P), G("response_mode", r.mode = (IF q.mode_set THEN q.mode ELSE ""), P),
     G("issuer", r.iss = e.a.iss, O), G("expires_in", r.expires = Lifetime("code"), O \cup {"B02"}) >>
Burn(s, e) == IF e.a.rset /\ e.a.ref_set /\ ParThere(s, e) THEN [s EXCEPT !.par[ParKey(e)].used = TRUE] ELSE s
AuthPost(s, e) ==
  IF e.r.ok
  THEN { [Burn(s, e) EXCEPT
            !.code = (<<e.a.iss, e.r.code>> :> [req |-> Normal(AuthReq(s, e)), sub |-> e.a.sub, iss |-> e.a.iss,
                                               exp |-> s.now + Lifetime("code"), used |-> FALSE]) @@ @,
            !.seen = @ \cup {e.r.code}] }
  ELSE IF Failing(AuthPre(s, e)) # {} THEN {s, Burn(s, e)} ELSE {Burn(s, e)}

(* PeekCode: the session stored behind a live code *)
PeekGuards(s, e) == LET k == <<e.a.iss, e.a.code>> IN
  << G("code stored", k \in DOMAIN s.code, {"A05", "D10"}),
     G("code unused", k \in DOMAIN s.code => ~s.code[k].used, {"B01"}),
     G("code alive", k \in DOMAIN s.code => s.now <= s.code[k].exp, {"B02"}) >>
PeekFields(s, e) == LET c == s.code[<<e.a.iss, e.a.code>>] IN
  << G("session subject", e.r.sub = c.sub, {"A05"}), G("session issuer", e.r.iss = c.iss, {"A05"}),
     G("session scope", e.r.req.scope = c.req.scope, {"A05", "A02", "A03"}),
     G("session request", \A f \in DOMAIN c.req : f \in {"scope", "scope_w"} \/ e.r.req[f] = c.req[f], {"A05", "A03"}) >>

---------------------------------------------------------------------------
(* Tokens *)

TokRec(type, iss, sub, cli, scope, aud, now, life, cs, jkt) ==
  [type |-> type, iss |-> iss, sub |-> sub, client |-> cli, scope |-> scope, aud |-> aud, iat |-> now, nbf |-> now + 1,
   exp |-> now + life, cnf_set |-> cs, jkt |-> jkt, status |-> "ACTIVE"]

\* response token t is the expected token x; own: properties owning the grant content
TokFields(s, t, x, own, exo) ==
  << G("token value", t.value # "" /\ t.value \notin s.seen, {"D08", "G09"}),
     G("token id", t.id # "" /\ t.id \notin s.seen, {"D08"}),
     G("token type", t.type = x.type, own),
     G("token issuer", t.iss = x.iss, own \cup MultiOwner(s)),
     G("token subject", t.sub = x.sub, own), G("token client", t.client = x.client, own),
     G("token scope", t.scope = x.scope, own), G("token audience", t.aud = x.aud, own),
     G("token issued_at", t.iat = x.iat, {"D08"}), G("token not_before", t.nbf = x.nbf, {"D08"}),
     G("token expiry", t.exp = x.exp, {"D08"} \cup exo), G("token status", t.status = x.status, {"D08"}),
     G("token confirmation", t.cnf_set = x.cnf_set /\ t.jkt = x.jkt, {"E03"} \cup exo) >>
Keep(t, x) == x @@ [id |-> t.id]
AddTok(s, iss, t, x) == [s EXCEPT !.tok = (<<iss, t.value>> :> Keep(t, x)) @@ @, !.seen = @ \cup {t.value, t.id}]

NoTok(r, own) == << G("no access token", ~r.at_set, own), G("no refresh token", ~r.rt_set, own) >>

\* Shape and gating guards common to every grant
GatePre(e) == LET a == e.a D == {"D07"} IN
  << G("request", a.rset, D), G("issuer", a.iss # "", D), G("client given", a.cli_set, D),
     G("grant_type supported", a.grant \in {GAuthzCode, GClientCred, GDevice, GRefresh, GExchange}, D),
     G("grant payload", a.payload = a.grant, D) >>
Gate(s, e) == LET a == e.a IN
  << G("client known", Known(s, a.cli), {"D07"}),
     G("issuer is a url", a.iss_valid, {"D07"}),
     G("grant registered", Known(s, a.cli) => a.grant \in Range(RegOf(s, a.cli).grants),
       {"D07"} \cup (CASE a.grant = GDevice -> {"C01"} [] a.grant = GRefresh -> {"D01"} [] a.grant = GExchange -> {"D05"}
                       [] a.grant = GClientCred -> {"D06"} [] OTHER -> {"B02"})) >>

(* authorization_code *)
CodeKey(e) == <<e.a.iss, e.a.code>>
CodeShape(e) == LET a == e.a IN
  << G("code given", a.code # "", {"B02"}), G("redirect_uri given", a.redirect # "", {"B02"}),
     G("code length", a.code_runes <= 1024, {"B02"}),
     G("verifier length", a.ver_len >= 43 /\ a.ver_len <= 128, {"B02", "G05"}) >>
CodeThere(s, e) == CodeKey(e) \in DOMAIN s.code
CodeLive(s, e) == CodeThere(s, e) /\ ~s.code[CodeKey(e)].used /\ s.now <= s.code[CodeKey(e)].exp
CodeLookup(s, e) == LET k == CodeKey(e) IN
  << G("code known", CodeThere(s, e), {"B02"} \cup (IF \E x \in DOMAIN s.code : x[2] = e.a.code THEN {"D10"} ELSE {})),
     G("code unused", CodeThere(s, e) => ~s.code[k].used, {"B01"}),
     G("code alive", CodeThere(s, e) => s.now <= s.code[k].exp, {"B02"}) >>
CodeBinding(s, e) == LET c == s.code[CodeKey(e)] a == e.a IN
  << G("client of the code", a.cli = c.req.client_id, {"B02"}),
     G("redirect_uri of the request", a.redirect = c.req.redirect, {"B02"}),
     G("redirect_uri registered", a.redirect \in Range(RegOf(s, a.cli).redirects), {"B02"}),
     G("code_verifier", a.ver_s256 = c.req.chal, {"B02", "G05"}) >>
CodeGuards(s, e) ==
  LET g1 == CodeShape(e) \o CodeLookup(s, e) IN IF Failing(g1) # {} THEN g1 ELSE g1 \o CodeBinding(s, e)
CodeExp(s, e) == LET c == s.code[CodeKey(e)] a == e.a q == c.req
                     openid == HasWord(q.scope_w, "openid") offline == openid /\ HasWord(q.scope_w, "offline_access") IN
  [at |-> openid, rt |-> offline,
   atx |-> TokRec("AT", a.iss, c.sub, a.cli, q.scope, q.aud, s.now, Lifetime("at"), a.cnf_set, a.jkt),
   rtx |-> TokRec("RT", a.iss, c.sub, a.cli, q.scope, q.aud, s.now, Lifetime("rt"), a.cnf_set, a.jkt)]

(* device_code *)
DevKey(e) == <<e.a.iss, e.a.dc>>
DevThere(s, e) == DevKey(e) \in DOMAIN s.dev
DevAlive(s, e) == DevThere(s, e) /\ s.now <= s.dev[DevKey(e)].exp
DevGuards(s, e) == LET k == DevKey(e) a == e.a IN
  << G("device_code given", a.dc # "", {"C01"}),
     G("device_code known", DevThere(s, e), {"C01"} \cup (IF \E x \in DOMAIN s.dev : x[2] = a.dc THEN {"D10"} ELSE {})),
     G("device_code alive", DevThere(s, e) => s.now <= s.dev[k].exp, {"C01"}),
     G("client of the device_code", DevThere(s, e) => s.dev[k].client = a.cli, {"C01"}),
     G("approved", DevThere(s, e) => s.dev[k].approved, {"C01"}) >>
DevExp(s, e) == LET d == s.dev[DevKey(e)] a == e.a IN
  [at |-> TRUE, rt |-> HasWord(d.scope_w, "offline_access"),
   atx |-> TokRec("AT", a.iss, d.sub, a.cli, d.scope, d.aud, s.now, Lifetime("at"), a.cnf_set, a.jkt),
   rtx |-> TokRec("RT", a.iss, d.sub, a.cli, d.scope, d.aud, s.now, Lifetime("rt"), a.cnf_set, a.jkt)]

(* refresh_token *)
RtKey(e) == <<e.a.iss, e.a.rt>>
RtGuards(s, e) == LET k == RtKey(e) there == k \in DOMAIN s.tok t == s.tok[k] a == e.a IN
  << G("refresh_token given", a.rt # "", {"D01"}),
     G("refresh_token known", there, {"D01"} \cup (IF \E x \in DOMAIN s.tok : x[2] = a.rt THEN {"D10"} ELSE {})),
     G("is a refresh token", there => t.type = "RT", {"D01"}),
     G("refresh_token active", there => t.status = "ACTIVE",
       {"D01"} \cup (IF there THEN (IF t.status = "ROTATED" THEN {"D02"} ELSE {"D03"}) ELSE {})),
     G("refresh_token unexpired", there => s.now <= t.exp, {"D01"}),
     G("client of the refresh_token", there => t.client = a.cli, {"D01"}),
     G("key of the refresh_token", (there /\ t.cnf_set) => (a.cnf_set /\ a.jkt = t.jkt), {"E03", "D01"}) >>
Rotates(s, t) == s.now + Lifetime("at") > t.exp
RtExp(s, e) == LET t == s.tok[RtKey(e)] IN
  [at |-> TRUE, rt |-> Rotates(s, t),
   atx |-> TokRec("AT", t.iss, t.sub, t.client, t.scope, t.aud, s.now, Lifetime("at"), t.cnf_set, t.jkt),
   rtx |-> TokRec("RT", t.iss, t.sub, t.client, t.scope, t.aud, s.now, Lifetime("rt"), t.cnf_set, t.jkt)]

(* client_credentials *)
CcGuards(s, e) == << G("confidential client", RegOf(s, e.a.cli).ctype \in {"CONFIDENTIAL", "CREDENTIALED"}, {"D06"}) >>
CcExp(s, e) == LET a == e.a IN
  [at |-> TRUE, rt |-> FALSE,
   atx |-> TokRec("AT", a.iss, a.cli, a.cli, IF a.scope_set THEN a.scope ELSE "", IF a.aud_set THEN a.aud ELSE "",
                  s.now, Lifetime("at"), a.cnf_set, a.jkt),
   rtx |-> <<>>]

(* token exchange *)
XtKey(e) == <<e.a.iss, e.a.st>>
XtGuards(s, e) == LET k == XtKey(e) there == k \in DOMAIN s.tok t == s.tok[k] a == e.a D == {"D05"} IN
  << G("subject_token given", a.st # "", D), G("subject_token_type", a.st_type = ATType, D),
     G("subject_token known", there, D \cup (IF \E x \in DOMAIN s.tok : x[2] = a.st THEN {"D10"} ELSE {})),
     G("subject_token is an access token", there => t.type = "AT", D),
     G("subject_token active", there => t.status = "ACTIVE", D \cup {"D03"}),
     G("subject_token unexpired", there => s.now <= t.exp, D),
     G("scope attenuated", (there /\ a.scope_set) => Range(a.scope_w) \subseteq Range(t.scope_w), D),
     G("audience is a known resource", a.aud_set => a.aud \in Resources, D) >>
XtExp(s, e) == LET t == s.tok[XtKey(e)] a == e.a
                   x == TokRec("AT", t.iss, t.sub, a.cli, IF a.scope_set THEN a.scope ELSE t.scope,
                               IF a.aud_set THEN a.aud ELSE t.aud, s.now, Lifetime("xt"), t.cnf_set, t.jkt) IN
  [at |-> TRUE, rt |-> FALSE, atx |-> [x EXCEPT !.exp = Min2(s.now + Lifetime("xt"), t.exp)], rtx |-> <<>>]

(* Token endpoint: dispatch *)
GrantOwner(g) == CASE g = GAuthzCode -> {"B03"} [] g = GDevice -> {"C01"} [] g = GRefresh -> {"D01"}
                   [] g = GClientCred -> {"D06"} [] g = GExchange -> {"D05"} [] OTHER -> {}
GrantGuards(s, e) ==
  CASE e.a.grant = GAuthzCode  -> CodeGuards(s, e) [] e.a.grant = GDevice -> DevGuards(s, e)
    [] e.a.grant = GRefresh    -> RtGuards(s, e)   [] e.a.grant = GExchange -> XtGuards(s, e)
    [] OTHER -> CcGuards(s, e)
GrantExp(s, e) ==
  CASE e.a.grant = GAuthzCode  -> CodeExp(s, e) [] e.a.grant = GDevice -> DevExp(s, e)
    [] e.a.grant = GRefresh    -> RtExp(s, e)   [] e.a.grant = GExchange -> XtExp(s, e)
    [] OTHER -> CcExp(s, e)
Gated(s, e) == Failing(GatePre(e)) = {} /\ Failing(Gate(s, e)) = {}
TokenGuards(s, e) ==
  IF Failing(GatePre(e)) # {} THEN GatePre(e)
  ELSE IF Failing(Gate(s, e)) # {} THEN Gate(s, e) ELSE GrantGuards(s, e)

\* scope words of an issued token, kept for exchange
WordsOf(s, e) ==
  CASE e.a.grant = GAuthzCode  -> s.code[CodeKey(e)].req.scope_w [] e.a.grant = GDevice -> s.dev[DevKey(e)].scope_w
    [] e.a.grant = GRefresh    -> s.tok[RtKey(e)].scope_w
    [] e.a.grant = GExchange   -> IF e.a.scope_set THEN e.a.scope_w ELSE s.tok[XtKey(e)].scope_w
    [] OTHER -> e.a.scope_w

RefreshOwners(e) == CASE e.a.grant = GAuthzCode -> {"B03", "A02"} [] e.a.grant = GDevice -> {"C01"}
                      [] e.a.grant = GRefresh -> {"D02"} [] e.a.grant = GClientCred -> {"D06"} [] OTHER -> {"D05"}
TokenFields(s, e) ==
  LET x == GrantExp(s, e) r == e.r own == GrantOwner(e.a.grant)
      exo == CASE e.a.grant = GExchange -> {"D05"} [] OTHER -> {} IN
  << G("access token presence", r.at_set = x.at, own), G("refresh token presence", r.rt_set = x.rt, RefreshOwners(e)) >>
  \o When(r.at_set /\ x.at, TokFields(s, r.at, x.atx, own, exo))
  \o When(r.rt_set /\ x.rt, TokFields(s, r.rt, x.rtx, RefreshOwners(e), IF e.a.grant = GRefresh THEN {"D02"} ELSE {}))
  \o When(r.at_set /\ r.rt_set, << G("distinct tokens", r.at.value # r.rt.value /\ r.at.id # r.rt.id, {"D08"}) >>)
  \o When(e.a.grant = GExchange,
       << G("issued_token_type", r.issued = ATType, {"D05"}), G("response issuer", r.iss = s.tok[XtKey(e)].iss, {"D05"}),
          G("response scope", r.scope = (IF x.atx.scope # s.tok[XtKey(e)].scope THEN x.atx.scope ELSE ""), {"D05"}) >>)

Consume(s, e) == IF CodeThere(s, e) THEN [s EXCEPT !.code[CodeKey(e)].used = TRUE] ELSE s
\* a refused request consumes the code when it is well-formed and reaches it
Reaches(s, e) == Gated(s, e) /\ e.a.grant = GAuthzCode /\ Failing(CodeShape(e)) = {} /\ CodeLive(s, e)
TokenPost(s, e) ==
  IF ~e.r.ok THEN { IF Reaches(s, e) THEN Consume(s, e) ELSE s }
  ELSE LET x == GrantExp(s, e) w == WordsOf(s, e)
           s1 == IF e.a.grant = GAuthzCode THEN Consume(s, e) ELSE s
           s2 == IF x.at THEN AddTok(s1, e.a.iss, e.r.at, x.atx @@ [scope_w |-> w]) ELSE s1
           s3 == IF x.rt THEN AddTok(s2, e.a.iss, e.r.rt, x.rtx @@ [scope_w |-> w]) ELSE s2
       IN { IF e.a.grant = GRefresh /\ x.rt THEN [s3 EXCEPT !.tok[RtKey(e)].status = "ROTATED"] ELSE s3 }

\* exact error codes the properties rely on
TokenErr(s, e) ==
  LET a == e.a IN
  IF Gated(s, e) /\ a.grant = GDevice /\ Failing(DevGuards(s, e)) # {} /\ Names(DevGuards(s, e)) = {"approved"}
  THEN << G("authorization_pending", e.r.err = "authorization_pending", {"C01"}) >>
  ELSE << G("not authorization_pending", e.r.err # "authorization_pending", {"C01"}) >>

---------------------------------------------------------------------------
(* Introspection and revocation *)

SvcGuards(s, e, own) == LET a == e.a IN
  << G("request", a.rset, own), G("issuer", a.iss # "" /\ a.iss_valid, own), G("client given", a.cli_set, own),
     G("token given", a.val # "", own), G("client known", a.cli_set => Known(s, a.cli), own) >>
IntroGuards(s, e) == SvcGuards(s, e, {"D04"})
IntroFields(s, e) ==
  LET k == <<e.a.iss, e.a.val>> there == k \in DOMAIN s.tok t == s.tok[k] r == e.r O == {"D04"} \cup MultiOwner(s) IN
  IF ~there
  THEN << G("unknown token", r.status \notin {"ACTIVE", "REVOKED"},
            O \cup (IF \E x \in DOMAIN s.tok : x[2] = e.a.val THEN {"D10"} ELSE {})),
          G("nothing disclosed", r.sub = "" /\ r.scope = "" /\ r.client = "" /\ r.id = "", O),
          G("value", r.value \in {e.a.val, ""}, O),
          G("usable", ~r.usable, O) >>
  ELSE << G("status", IF t.status = "ACTIVE" THEN r.status = "ACTIVE" ELSE r.status = "REVOKED",
            O \cup (IF t.status = "ACTIVE" THEN {"D03", "D02"} \cup (IF t.type = "AT" THEN {"D01"} ELSE {})
                    ELSE IF t.status = "ROTATED" THEN {"D02"} ELSE {"D03"})),
          G("metadata", /\ r.iss = t.iss /\ r.sub = t.sub /\ r.client = t.client /\ r.scope = t.scope /\ r.aud = t.aud
                        /\ r.iat = t.iat /\ r.nbf = t.nbf /\ r.exp = t.exp /\ r.id = t.id /\ r.type = t.type, O \cup {"B03"}),
          G("confirmation", r.cnf_set = t.cnf_set /\ r.jkt = t.jkt, O \cup {"E03"}),
          G("value not revealed", r.value = e.a.val \/ r.value \notin s.seen, O),
          G("usable", r.usable = (t.nbf <= s.now /\ s.now <= t.exp), O) >>

RevGuards(s, e) == LET k == <<e.a.iss, e.a.val>> there == k \in DOMAIN s.tok IN
  SvcGuards(s, e, {"D03"})
  \o << G("token known", there, {"D03"} \cup (IF \E x \in DOMAIN s.tok : x[2] = e.a.val THEN {"D10"} ELSE {})),
        G("token owner", (there /\ e.a.cli_set) => s.tok[k].client = e.a.cli, {"D03"}) >>
Revoked(s, k) == IF s.tok[k].status = "ACTIVE" THEN [s EXCEPT !.tok[k].status = "REVOKED"] ELSE s
RevPost(s, e) == IF e.r.ok THEN {Revoked(s, <<e.a.iss, e.a.val>>)} ELSE {s}

---------------------------------------------------------------------------
(* Device authorization *)

DaGuards(s, e) == LET a == e.a D == {"C01"} IN
  << G("request", a.rset, D), G("issuer", a.iss # "", D), G("client_id", a.cli # "", D), G("client known", Known(s, a.cli), D),
     G("grant registered", Known(s, a.cli) => GDevice \in Range(RegOf(s, a.cli).grants), D \cup {"D07"}) >>
DaFields(s, e) ==
  << Fresh(s, e.r.dc, {"C01", "G09"}), Fresh(s, e.r.uc, {"C02", "C01", "G09"}), G("expires_in", e.r.expires = Lifetime("dev"), {"C01"}),
     G("issuer", e.r.iss = e.a.iss, {"C01"}),
     G("polling interval", e.r.interval > 0 /\ e.r.interval <= Lifetime("dev"), {"C01"}) >>
DaPost(s, e) == LET a == e.a IN
  IF ~e.r.ok THEN {s} ELSE
  { [s EXCEPT !.dev = (<<a.iss, e.r.dc>> :> [uc |-> e.r.uc, client |-> a.cli, scope |-> IF a.scope_set THEN a.scope ELSE "",
                                             scope_w |-> IF a.scope_set THEN a.scope_w ELSE <<>>,
                                             aud |-> IF a.aud_set THEN a.aud ELSE "",
                                             exp |-> s.now + Lifetime("dev"), approved |-> FALSE, sub |-> ""]) @@ @,
              !.seen = @ \cup {e.r.dc, e.r.uc}] }

DvOf(s, e) == { k \in DOMAIN s.dev : k[1] = e.a.iss /\ s.dev[k].uc = e.a.uc }
DvGuards(s, e) == LET a == e.a ks == DvOf(s, e) C == {"C02"} IN
  << G("request", a.rset, C), G("issuer", a.iss # "", C), G("user_code given", a.uc # "", C), G("subject given", a.sub # "", C),
     G("user_code known", ks # {}, C \cup (IF \E k \in DOMAIN s.dev : s.dev[k].uc = a.uc THEN {"D10"} ELSE {})),
     G("user_code alive", \A k \in ks : s.now < s.dev[k].exp, C \cup {"C01"}),
     G("user_code pending", \A k \in ks : ~s.dev[k].approved, C) >>
DvApproved(s, e) == LET k == CHOOSE k \in DvOf(s, e) : TRUE IN
  [s EXCEPT !.dev[k].approved = TRUE, !.dev[k].sub = e.a.sub]
DvPost(s, e) == IF e.r.ok THEN {DvApproved(s, e)} ELSE {s}

---------------------------------------------------------------------------
(* DPoP proofs *)

PfShape(s, e) == LET a == e.a E == {"E01"} IN
  << G("method", a.htm_valid, E), G("url", a.htu_valid, E), G("proof syntax and algorithm", a.parse_ok, E),
     G("type", a.typ = "dpop+jwt", E), G("embedded key", a.key_ok, E), G("signature", a.sig_ok, E),
     G("claims", a.claims_ok, E), G("identifier", a.jti # "", E), G("method claim", a.c_htm = a.htm, E),
     G("url claim", a.c_htu = a.htu, E),
     G("not too old", a.iat >= s.now - Lifetime("skew"), E \cup {"E02"}), G("not in the future", a.iat <= s.now + Lifetime("skew"), E) >>
PfSeen(s, e) == e.a.jti \in DOMAIN s.jti /\ s.now <= s.jti[e.a.jti]
PfReplay(s, e) == << G("not replayed", ~PfSeen(s, e), {"E02"}) >>
PfToken(s, e) == LET a == e.a E == {"E01", "E03"} IN
  << G("token hash", a.tok_set => a.ath_ok, E), G("token key", (a.tok_set /\ a.cnf_set) => a.cnf = a.thumb, E) >>
PfGuards(s, e) == LET g1 == PfShape(s, e) IN
  IF Failing(g1) # {} THEN g1 ELSE g1 \o PfReplay(s, e) \o PfToken(s, e)
PfFields(s, e) == << G("thumbprint", e.r.thumb = e.a.thumb, {"E01", "E03"}) >>
PfBurn(s, e) == [s EXCEPT !.jti = (e.a.jti :> s.now + Lifetime("jti")) @@ @]
PfPost(s, e) ==
  IF e.r.ok THEN {PfBurn(s, e)}
  ELSE IF Failing(PfShape(s, e)) # {} \/ PfSeen(s, e) THEN {s}
  ELSE {s, PfBurn(s, e)}     \* a proof refused for its token may or may not burn its identifier

---------------------------------------------------------------------------
(* Administration: a registration changes, or disappears *)
AdmPost(s, e) == {[s EXCEPT !.adm = (e.a.id :> e.a) @@ @]}

(* Clock *)
AdvPost(s, e) == {[s EXCEPT !.now = @ + e.a.d]}

---------------------------------------------------------------------------
(* Uniform view of the operations *)

Guards(s, e) ==
  CASE e.op = "push" -> PushGuards(s, e) [] e.op = "authorize" -> AuthGuards(s, e) [] e.op = "peek" -> PeekGuards(s, e)
    [] e.op = "token" -> TokenGuards(s, e) [] e.op = "introspect" -> IntroGuards(s, e) [] e.op = "revoke" -> RevGuards(s, e)
    [] e.op = "devauth" -> DaGuards(s, e) [] e.op = "approve" -> DvGuards(s, e) [] e.op = "proof" -> PfGuards(s, e)
    [] OTHER -> FGuards(s, e)
Fields(s, e) ==
  CASE e.op = "push" -> PushFields(s, e) [] e.op = "authorize" -> AuthFields(s, e) [] e.op = "peek" -> PeekFields(s, e)
    [] e.op = "token" -> TokenFields(s, e) [] e.op = "introspect" -> IntroFields(s, e)
    [] e.op = "devauth" -> DaFields(s, e) [] e.op = "proof" -> PfFields(s, e)
    [] OTHER -> FFields(s, e)

\* Refusals: the failed conditions, whatever the order they are checked in, and the codes that may report them
Reported == {"push", "authorize", "token", "introspect", "revoke", "devauth", "approve"}
TokenRefusals(s, e) ==
  CodesFor("token", "", {}) \cup UNION { GateCodes(n) : n \in Names(GatePre(e)) \cup Names(Gate(s, e)) }
  \cup (IF Known(s, e.a.cli) THEN CodesFor("token", e.a.grant, Names(GrantGuards(s, e))) ELSE {})
PermittedCodes(s, e) ==
  CASE e.op = "token" -> TokenRefusals(s, e)
    [] e.op = "authorize" -> CodesFor(e.op, "", Names(AuthPre(s, e)) \cup Names(AuthRef(s, e)) \cup (IF e.a.rset THEN Names(AuthGuards(s, e)) ELSE {}))
    [] OTHER -> CodesFor(e.op, "", Names(Guards(s, e)))
\* the state echoed by an error is the one of the request it answers
ErrState(s, e) ==
  CASE e.op = "push" -> {""} \cup (IF e.a.rset THEN {e.a.req.state} ELSE {})
    [] e.op = "authorize" -> {""} \cup (IF ~e.a.rset THEN {}
                                       \* once the reference is resolved, the pushed request is the one answered
                                       ELSE IF Failing(AuthPre(s, e) \o AuthRef(s, e)) = {} /\ e.f.at # "par" THEN {AuthReq(s, e).state}
                                       ELSE {e.a.req.state, AuthReq(s, e).state})
    [] e.op = "token" /\ e.a.grant = GAuthzCode -> {""} \cup (IF CodeThere(s, e) THEN {s.code[CodeKey(e)].req.state} ELSE {})
    [] OTHER -> {""}
Refusal(s, e) ==
  When(e.op \in Reported,
    << G("error code " \o e.r.err, e.r.err \in PermittedCodes(s, e) \cup (IF "batch" \in DOMAIN e THEN {"server_error"} ELSE {}), {"L01"}),
       G("state of the error", e.r.estate \in ErrState(s, e), {"L01"}) >>)
FaultRefusal(s, e) ==
  When(e.op \in Reported,
    << G("error code " \o e.r.err \o " of a failure", e.r.err \in FaultCodes(e.op, e.f.at) \cup PermittedCodes(s, e), {"L01", "D09"}),
       G("state of the error", e.r.estate \in ErrState(s, e), {"L01"}) >>)

ErrFields(s, e) == (CASE e.op = "token" -> TokenErr(s, e) [] OTHER -> FErr(s, e)) \o Refusal(s, e)
Post(s, e) ==
  CASE e.op = "push" -> (IF e.r.ok THEN PushPost(s, e) ELSE {s}) [] e.op = "authorize" -> AuthPost(s, e)
    [] e.op = "token" -> TokenPost(s, e) [] e.op = "revoke" -> RevPost(s, e) [] e.op = "devauth" -> DaPost(s, e)
    [] e.op = "approve" -> DvPost(s, e) [] e.op = "proof" -> PfPost(s, e) [] e.op = "advance" -> AdvPost(s, e)
    [] e.op = "client" -> AdmPost(s, e)
    [] OTHER -> FPost(s, e)

\* properties concerned by a refusal of a request the specification accepts
AcceptOwners(s, e) ==
  MultiOwner(s) \cup
  CASE e.op = "push" -> {"A01"} [] e.op = "authorize" -> {"A01"} \cup (IF e.a.ref_set THEN {"A03"} ELSE {})
    [] e.op = "peek" -> {"A05"}
    [] e.op = "token" -> (CASE e.a.grant = GAuthzCode -> {"B02"} [] e.a.grant = GDevice -> {"C01", "C02"}
                            [] e.a.grant = GRefresh -> {"D01", "D02", "D03"} \cup (IF e.a.cnf_set THEN {"E03"} ELSE {})
                            [] e.a.grant = GClientCred -> {"D06"} [] OTHER -> {"D05"})
    [] e.op = "introspect" -> {"D04"} [] e.op = "revoke" -> {"D03"} [] e.op = "devauth" -> {"C01"}
    [] e.op = "approve" -> {"C01", "C02"} [] e.op = "proof" -> {"E01", "E02"} [] OTHER -> FOwner(e)

\* no credential in a failed response, no error in a successful one
CohOwner(e) == IF FOwner(e) # {} THEN FOwner(e) ELSE {"D09"} \cup (IF e.op = "proof" THEN {"E01"} ELSE {})
Coherence(e) ==
  << G("panic: " \o e.r.panic, e.r.panic = "", CohOwner(e)),
     G("credential in a failed response", ~e.r.ok => ~e.r.cred, CohOwner(e)),
     G("error in a successful response", e.r.ok => e.r.err = "", CohOwner(e)) >>

\* Mismatches of event e in state s: a sequence of failed conditions <<name, FALSE, owners>>
Mismatch(s, e) ==
  LET gs == Guards(s, e) bad == Failing(gs) # {} coh == Only(Coherence(e)) IN
  IF coh # <<>> THEN << <<coh[1][1], FALSE, coh[1][3] \cup (IF bad THEN Owners(gs) ELSE AcceptOwners(s, e))>> >>
  ELSE IF e.r.ok /\ bad THEN [i \in DOMAIN Only(gs) |-> <<"accepted although not: " \o Only(gs)[i][1], FALSE, Only(gs)[i][3]>>]
  ELSE IF ~e.r.ok /\ ~bad THEN << <<"refused although every guard holds: " \o e.r.err, FALSE, AcceptOwners(s, e)>> >>
  ELSE IF e.r.ok THEN Only(Fields(s, e)) ELSE Only(ErrFields(s, e))

---------------------------------------------------------------------------
(* Faults: f.at is the store or generator whose call failed, "" if none.    *)

Faulted(e) == e.f.at # ""
FaultPost(s, e) ==
  CASE e.op = "authorize" -> IF e.f.at = "par" THEN {s, Burn(s, e)}
                             ELSE IF Failing(AuthPre(s, e)) # {} THEN {s, Burn(s, e)} ELSE {Burn(s, e)}
    [] e.op = "token" -> IF Reaches(s, e)
                         THEN IF e.f.at = "code" THEN {s, Consume(s, e)}
                              ELSE IF e.f.at = "client" THEN {s} ELSE {Consume(s, e)}
                         ELSE IF e.a.grant = GRefresh /\ Gated(s, e) /\ Failing(RtGuards(s, e)) = {} /\ Rotates(s, s.tok[RtKey(e)])
                         THEN {s, [s EXCEPT !.tok[RtKey(e)].status = "ROTATED"]} ELSE {s}
    [] e.op = "revoke" -> IF Failing(RevGuards(s, e)) = {} THEN {s, Revoked(s, <<e.a.iss, e.a.val>>)} ELSE {s}
    [] e.op = "approve" -> IF Failing(DvGuards(s, e)) = {} THEN {s, DvApproved(s, e)} ELSE {s}
    [] e.op = "proof" -> IF Failing(PfShape(s, e)) = {} THEN {s, PfBurn(s, e)} ELSE {s}
    [] OTHER -> {s}

\* A store may hand back a record that is not what was put into it, or not any more: incomplete, stale, of another
\* client. What it describes is what the request is judged by: these must be refused.
MustRefuse(e) == LET w == e.f.alter d == e.f.at IN
  \/ (w = "blank" /\ e.op # "introspect")
  \/ (d = "client" /\ ((w = "nogrants" /\ e.op \in {"push", "authorize", "token", "devauth"}) \/ (w = "noredirects" /\ (e.op \in {"push", "authorize"} \/ (e.op = "token" /\ e.a.grant = GAuthzCode)))))
  \/ (d = "par" /\ e.op = "authorize" /\ (w = "otherclient" => e.a.cli_set))
  \/ (d = "code" /\ e.op = "token")
  \/ (d = "dev" /\ e.op = "token")
  \/ (d = "dev" /\ e.op = "approve" /\ w \in {"expired", "norequest", "noclient", "status"})
  \/ (d = "tok" /\ e.op = "token" /\ (w = "otherclient" => e.a.grant = GRefresh))
  \/ (d = "tok" /\ e.op = "revoke" /\ w \in {"nometadata", "otherclient"})
AlterOwners(s, e) == {"D09"} \cup (IF e.f.at = "client" THEN {"D07"} ELSE AcceptOwners(s, e))
AlterCodes(e) == {"server_error", IR, IG, "invalid_client", "unauthorized_client", "unsupported_grant_type", "invalid_token", "internal"}
                 \cup (IF e.f.alter = "expired" THEN {"token_expired", "expired_token"} ELSE {}) \cup (IF e.f.alter = "noscope" THEN {"invalid_scope"} ELSE {}) \cup (IF e.f.at = "res" THEN {"invalid_target"} ELSE {})
AlterMis(s, e) == LET coh == Only(Coherence(e)) IN
  IF coh # <<>> THEN coh
  ELSE IF e.r.ok THEN (IF MustRefuse(e) THEN << <<"accepted although the stored record read is altered: " \o e.f.alter, FALSE, AlterOwners(s, e)>> >>
                       ELSE IF e.op = "introspect" THEN <<>> ELSE Mismatch(s, e))
  ELSE When(e.op \in Reported, Only(<< G("error code " \o e.r.err \o " for an altered record", e.r.err \in AlterCodes(e) \cup PermittedCodes(s, e), {"L01"}) >>))
AlterPost(s, e) == IF e.r.ok THEN (IF e.op = "introspect" THEN {s} ELSE Post(s, e))
                   ELSE IF e.op = "token" THEN (IF Reaches(s, e) THEN {s, Consume(s, e)} ELSE {s})
                   ELSE IF e.op = "authorize" THEN FaultPost(s, e) ELSE {s}

FaultMis(s, e) == IF e.f.alter # "" THEN AlterMis(s, e) ELSE LET coh == Only(Coherence(e)) IN IF coh # <<>> THEN coh ELSE FaultRefusal(s, e)

\* Possible next states of one event; {} when the response is not one the specification permits
StepSet(s, e) ==
  IF e.f.alter # "" THEN (IF AlterMis(s, e) # <<>> THEN {} ELSE AlterPost(s, e))
  ELSE IF Faulted(e) /\ ~e.r.ok
  THEN IF Only(FaultMis(s, e)) # <<>> THEN {} ELSE FaultPost(s, e)
  ELSE IF Mismatch(s, e) # <<>> THEN {} ELSE Post(s, e)

\* After an event the specification does not permit, the states from which the rest of the behaviour is judged:
\* those the specification assigns to the outcome, where it assigns any
CoreOps == Reported \cup {"peek", "proof", "client"}
Recover(s, e) ==
  IF e.f.alter # "" \/ e.op \notin CoreOps \/ Only(Coherence(e)) # <<>> THEN {}
  ELSE IF Faulted(e) /\ ~e.r.ok THEN FaultPost(s, e)
  ELSE IF ~e.r.ok THEN Post(s, e)
  ELSE IF Failing(Guards(s, e)) # {} THEN {}
  ELSE IF e.op = "token" /\ (LET x == GrantExp(s, e) IN x.at # e.r.at_set \/ x.rt # e.r.rt_set) THEN {}
  ELSE Post(s, e)
=============================================================================
