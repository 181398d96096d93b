-------------------------------- MODULE Values --------------------------------
(***************************************************************************)
(* Identifiers, verifiable tokens, PKCE, pairwise subjects, structured      *)
(* tokens, introspection assertions, profile and utility types.             *)
(***************************************************************************)
EXTENDS Jose

Mem(s, k, v) == [s EXCEPT !.mem = (k :> v) @@ @]

(* Verifiable UUID tokens: memory maps every generated string to what it was generated from *)
VtO == {"G04"}
VgGuards(s, e) == LET a == e.a IN << G("token given", a.set, VtO), G("uuid source", a.src = "ok", VtO), G("prefix alphabet", a.pfx_ok, VtO) >>
VgFields(s, e) == LET a == e.a r == e.r IN
  << G("prefix", r.pre = (IF a.pfx = "" THEN "" ELSE a.pfx \o "_"), VtO), G("form", r.form, VtO), G("never repeats", <<"vt", r.val>> \notin DOMAIN s.mem, VtO) >>
VgPost(s, e) == IF e.r.ok THEN Mem(s, <<"vt", e.r.val>>, [uuid |-> e.a.uuid, key |-> e.a.key]) ELSE s
VxGuards(s, e) == LET k == <<"vt", e.a.val>> IN
  << G("generated token", k \in DOMAIN s.mem, VtO), G("key", k \in DOMAIN s.mem => s.mem[k].key = e.a.key, VtO) >>
VxFields(s, e) == << G("uuid", e.r.uuid = s.mem[<<"vt", e.a.val>>].uuid, VtO), G("Verify agrees", e.r.verify, VtO) >>
VxErr(s, e) == << G("Verify agrees on refusal", ~e.r.verify, VtO), G("uuid of a refused token", e.r.uuid = "", VtO) >>

(* PKCE *)
PkO == {"G05"}
PgFields(s, e) == LET r == e.r IN
  << G("length", r.len >= 43 /\ r.len <= 128, PkO), G("alphabet", r.charset, PkO), G("challenge", r.s256, PkO), G("validates", r.valid, PkO), G("never repeats", <<"pk", r.ver>> \notin DOMAIN s.mem, PkO) >>
PvGuards(s, e) == LET a == e.a IN << G("challenge given", a.chal # "", PkO), G("verifier given", a.ver # "", PkO), G("challenge encoding", a.chal_b64, PkO) >>
PvFields(s, e) == << G("answer", e.r.valid = (e.a.chal = e.a.ver_s256), PkO) >>
PvErr(s, e) == << G("true with an error", ~e.r.valid, PkO) >>

(* Pairwise subjects *)
PwO == {"G06"}
PwKey(e) == <<"pw", e.a.salt, e.a.sector, e.a.subject>>
PwKeys(s) == { k \in DOMAIN s.mem : k[1] = "pw" }
PwGuards(s, e) == LET a == e.a IN << G("salt length", a.salt_len >= 16 /\ a.salt_len <= 64, PwO), G("subject", a.subject # "", PwO) >>
PwFields(s, e) == LET r == e.r k == PwKey(e) IN
  << G("form", r.len = 43 /\ r.charset, PwO), G("stable", k \in DOMAIN s.mem => s.mem[k].out = r.out, PwO),
     G("distinct identifiers", \A j \in PwKeys(s) : j # k => s.mem[j].out # r.out, PwO) >>
PwErr(s, e) == << G("identifier with an error", e.r.out = "", PwO) >>

(* Structured tokens: JWT or CWT access tokens, refresh tokens and client assertions *)
GtO == {"G07"}
Urls == {"https://as1.example", "https://as1.example/x?y=1", "https://rs.example:8443/api"}
\* printable ASCII words used by the cases; anything else used there is not printable or absent
Printables == Urls \cup {"A", "B", "u1", "openid profile", "a b c", "not a url", "client-1", "urn:aud:1", "-._~!$&'()*+,;="}
Horizon(kind) == IF kind = "rt" THEN 1209600 ELSE 7200
GtGuards(s, e) == LET a == e.a ca == a.kind = "ca" IN
  << G("serializer", a.ser \in {"jwt", "cwt"}, GtO), G("token", a.set, GtO), G("token id", a.id # "", GtO), G("attributes", a.meta, GtO) >>
  \o When(a.set /\ a.meta,
  << G("audience", a.aud \in (IF ca THEN Urls ELSE Printables), GtO), G("issuer", a.iss \in (IF ca THEN Printables ELSE Urls), GtO), G("subject", a.sub \in Printables, GtO),
     G("issued at", a.iat # 0 /\ a.iat <= s.now, GtO), G("expiry", a.exp # 0 /\ a.exp >= a.iat /\ a.exp <= a.iat + Horizon(a.kind), GtO) >>
  \o (IF ca THEN << G("subject is the issuer", a.sub = a.iss, GtO) >>
      ELSE << G("client", a.client \in Printables, GtO), G("scope", a.scope \in Printables, GtO), G("not before", a.nbf # 0 /\ a.nbf >= a.iat /\ a.nbf <= a.exp, GtO) >>))
GtFields(s, e) == LET a == e.a r == e.r ca == a.kind = "ca" IN
  << G("issuer claim", r.iss = a.iss, GtO), G("subject claim", r.sub = a.sub, GtO), G("audience claim", r.aud = a.aud, GtO), G("issued at claim", r.iat = a.iat, GtO),
     G("not before claim", r.nbf = a.nbf, GtO), G("expiry claim", r.exp = a.exp, GtO), G("identifier claim", r.jti = a.id, GtO),
     G("client claim", r.client = (IF ca THEN "" ELSE a.client), GtO), G("scope claim", r.scope = (IF ca THEN "" ELSE a.scope), GtO),
     G("confirmation claim", r.jkt = (IF ca THEN "" ELSE a.jkt), GtO), G("no other claim", r.others = 0, GtO), G("verifies", r.verifies, GtO), G("type", r.typ = a.kind \o "+" \o a.ser \/ ca, GtO) >>

(* Introspection assertions *)
GiO == {"G08"}
GiGuards(s, e) == LET a == e.a IN << G("signer", a.ser = "jwt", GiO), G("token", a.set, GiO), G("attributes", a.meta, GiO) >>
GiActive(s, e) == LET a == e.a IN a.status = "ACTIVE" /\ a.nbf <= s.now /\ s.now <= a.exp
GiFields(s, e) == LET a == e.a r == e.r IN
  << G("issuer claim", r.iss = a.iss, GiO), G("issued at claim", r.iat = s.now, GiO), G("active", r.active = GiActive(s, e), GiO), G("verifies", r.verifies, GiO), G("type", r.typ = "token-introspection+jwt", GiO), G("no other claim", r.others = 0, GiO) >>
  \o (IF r.active
      THEN << G("token issuer", r.t_iss = a.iss, GiO), G("token audience", r.t_aud = a.aud, GiO), G("token issuance", r.t_iat = a.iat, GiO), G("token expiry", r.t_exp = a.exp, GiO),
              G("token client", r.t_client = a.client, GiO), G("token scope", r.t_scope = a.scope, GiO), G("token subject", r.t_sub = a.sub, GiO), G("token identifier", r.t_jti = a.id, GiO) >>
      ELSE << G("nothing disclosed of an inactive token", r.t_size = 1, GiO) >>)
\* token.IsUsable
UsFields(s, e) == LET a == e.a IN << G("usable", e.r.usable = (a.set /\ a.meta /\ a.nbf <= s.now /\ s.now <= a.exp), GiO \cup {"D04"}) >>

(* Generators: groups of characters separated by '-' or '.', after an optional prefix *)
GnO == {"G09"}
Shape(kind) ==
  CASE kind \in {"code", "dc"} -> << <<32, "alnum">> >> [] kind = "uri" -> << <<32, "alnum">> >> [] kind = "cid" -> << <<16, "alnum">> >>
    [] kind = "uc" -> << <<4, "cons">>, <<4, "cons">> >> [] kind = "num" -> << <<3, "digit">>, <<3, "digit">>, <<3, "digit">> >>
    [] kind = "opaque" -> << <<3, "alnum">>, <<28, "alnum">> >>
ShapeOk(kind, v) == /\ v.prefix = (IF kind = "uri" THEN "urn:solid:" ELSE "")
                    /\ v.sep = (CASE kind \in {"uc", "num"} -> "-" [] kind = "opaque" -> "." [] OTHER -> "")
                    /\ Len(v.groups) = Len(Shape(kind))
                    /\ \A i \in DOMAIN v.groups : v.groups[i].n = Shape(kind)[i][1] /\ v.groups[i][Shape(kind)[i][2]]
\* characters used by many values, positions that never change (prefix and separators), positions that always agree
Alpha(kind) == CASE kind \in {"code", "dc", "cid"} -> 62 [] kind = "uri" -> 63 [] kind = "uc" -> 21 [] kind = "num" -> 11 [] kind = "opaque" -> 63
Still(kind) == CASE kind = "uri" -> 10 [] kind = "uc" -> 1 [] kind = "num" -> 2 [] kind = "opaque" -> 1 [] OTHER -> 0
GnFields(s, e) == LET a == e.a r == e.r IN
  When(Len(r.vals) >= 40, << G("whole alphabet", r.spread.chars = Alpha(a.kind), GnO), G("every position varies", r.spread.still = Still(a.kind), GnO), G("independent positions", r.spread.twins = 0, GnO) >>) \o
  << G("form", \A i \in DOMAIN r.vals : ShapeOk(a.kind, r.vals[i]), GnO), G("accepted by its own validator", \A i \in DOMAIN r.vals : r.vals[i].valid, GnO),
     G("never repeats", Cardinality({ r.vals[i].v : i \in DOMAIN r.vals }) = Len(r.vals) /\ \A i \in DOMAIN r.vals : <<"id", r.vals[i].v>> \notin DOMAIN s.mem, GnO) >>
GnPost(s, e) == [s EXCEPT !.mem = [k \in { <<"id", e.r.vals[i].v>> : i \in DOMAIN e.r.vals } |-> [is |-> e.a.kind]] @@ @]
\* validators ignore surrounding blanks
VlGuards(s, e) == LET a == e.a IN << G("form", IF a.kind = "uri" THEN a.uri_form ELSE a.tlen = 32, GnO) >>

(* Strict profile *)
PrO == {"I01"}
Profile(n) ==
  CASE n = "web" -> [g |-> {"authorization_code"}, r |-> {"code"}] [] n = "native" -> [g |-> {"authorization_code", "refresh_token"}, r |-> {"code"}]
    [] n = "device" -> [g |-> {"urn:ietf:params:oauth:grant-type:device_code", "refresh_token"}, r |-> {"code"}]
    [] n = "service" -> [g |-> {"client_credentials"}, r |-> {"token"}]
PrKnown(n) == n \in {"web", "native", "device", "service"}
PrFields(s, e) == LET a == e.a r == e.r IN
  << G("application type known", r.known = PrKnown(a.name), PrO) >>
  \o When(PrKnown(a.name) /\ r.known,
  << G("grant types", Range(r.grants) = Profile(a.name).g, PrO), G("response types", Range(r.rtypes) = Profile(a.name).r, PrO), G("authentication methods", Range(r.auths) = {"private_key_jwt"}, PrO) >>)

(* Utility types: a.lo / a.item_lo are the case-folded values *)
TyO == {"K01"}
In(lo, x) == \E i \in DOMAIN lo : lo[i] = x
TyFields(s, e) == LET a == e.a r == e.r keep == { i \in DOMAIN a.lo : a.lo[i] # a.item_lo } IN
  << G("contains", r.contains = In(a.lo, a.item_lo), TyO), G("has one of", r.hasone = (\E j \in DOMAIN a.items_lo : In(a.lo, a.items_lo[j])), TyO),
     G("has all", a.items_lo # <<>> => r.hasall = (\A j \in DOMAIN a.items_lo : In(a.lo, a.items_lo[j])), TyO),
     G("remove", LET idx == SelectSeq([i \in DOMAIN a.arr |-> i], LAMBDA i : a.lo[i] # a.item_lo) IN r.removed = [i \in DOMAIN idx |-> a.arr[idx[i]]], TyO),
     G("add", r.added = (IF In(a.lo, a.item_lo) THEN a.arr ELSE Append(a.arr, a.item)), TyO) >>
EqFields(s, e) == << G("comparison", e.r.same = (e.a.x = e.a.y), TyO), G("byte comparison", e.r.same_bytes = (e.a.x = e.a.y), TyO) >>

(* Seeded randomness: the same stream as the reference source of that seed, whatever the interleaving *)
RnFields(s, e) == << G("stream", e.r.got = e.a.want, {"K02"}) >>
\* the process-wide generators are seeded from the whole range of seeds and stay in their ranges: a value of at least
\* 40 bits never comes twice, every bit of a 64-bit value takes both values
RgWide == {"Int63", "Uint64", "Int", "Perm", "Shuffle", "Reader", "Seed", "Float64"}
RgBits(w) == CASE w \in {"Uint64", "Reader", "Seed", "New"} -> 64 [] w \in {"Int63", "Int"} -> 63 [] w = "Uint32" -> 32 [] w = "Int31" -> 31 [] w = "Int63n" -> 40 [] w \in {"Int31n", "Intn", "Float32"} -> 20 [] w = "Float64" -> 52
               [] OTHER -> 1
RgFields(s, e) == LET a == e.a r == e.r IN
  << G("every caller draws", r.n = a.n, {"K02"}), G("range", r.in_range, {"K02"}), G("values vary", r.varying >= RgBits(a.what), {"K02"}), G("no value comes twice", a.what \in RgWide => r.distinct = a.n, {"K02"}) >>

(* Errors: registered codes, independent values *)
ErO == {"K03"}
ErFields(s, e) == LET a == e.a r == e.r IN
  << G("code", r.code = a.code, ErO), G("description", r.desc # "" /\ (a.desc # "" => r.desc = a.desc), ErO), G("state", r.state = a.state, ErO),
     G("built errors are independent", r.first_code = a.code /\ r.first_state = "" /\ r.first_desc # a.desc, ErO),
     G("fresh builder", r.fresh_state = "" /\ r.fresh_code = a.code /\ (a.desc # "" => r.fresh_desc # a.desc), ErO) >>

(* DPoP prover and the URL a proof is checked against *)
PvrGuards(s, e) == LET a == e.a IN << G("method", a.htm_ok, {"E01"}), G("url", a.htu_ok, {"E01"}), G("signer", a.ser = "ok", {"E01"}) >>
PvrFields(s, e) == LET a == e.a r == e.r IN
  << G("method claim", r.htm = a.htm, {"E01"}), G("url claim", a.abs => r.htu = a.clean, {"E01"}), G("issuance", r.iat = s.now, {"E01"}), G("token hash", r.ath = a.ath, {"E01"}), G("identifier", <<"pj", r.jti>> \notin DOMAIN s.mem /\ r.jti # "", {"E01"}),
     G("type", r.typ = "dpop+jwt", {"E01"}), G("embedded key", r.thumb = a.thumb, {"E01"}),
     G("accepted by the verifier", a.plain => r.accepted = (AlgOf(a.key) \in AlgSet("es")), {"E01"}) >>
\* a proof made by the prover is good for exactly the method and URL (query aside) it was made for
PuGuards(s, e) == LET a == e.a IN << G("method of the proof", a.pm = a.rm, {"E01"}), G("url of the proof", a.pwire = a.rwire, {"E01"}) >>
CuScheme(a) == IF a.fwd # "" THEN a.fwd ELSE IF a.tls THEN "https" ELSE "http"
CuFields(s, e) == LET a == e.a IN << G("url of the request", e.r.url = CuScheme(a) \o "://" \o a.host \o a.path, {"E01"}) >>
=============================================================================
