-------------------------------- MODULE Jose --------------------------------
(***************************************************************************)
(* Signed formats: keys and algorithms, JWT signing and verification, JARM  *)
(* responses, request objects, CWT, sign-then-encrypt.                      *)
(*                                                                          *)
(* A token is described by what it was made from: the name of its signing   *)
(* key, its header, its content and what was done to it afterwards          *)
(* ("none": nothing). Keys of different names are different keys; nobody    *)
(* but the holder of a key produces its signatures (the usual symbolic      *)
(* assumption).                                                             *)
(***************************************************************************)
EXTENDS Base

AlgOf(k) ==
  CASE k \in {"k1", "k2", "k3", "k4", "p1", "p2"} -> "ES256" [] k = "e384" -> "ES384" [] k = "e521" -> "ES512"
    [] k = "rs" -> "RS256" [] k = "ed" -> "EdDSA"
    [] k = "hs" -> "HS256"
    [] k = "hsk1" -> "HS256"      \* HMAC keyed with the public key k1: a classical confusion
    [] OTHER -> "?"
AlgSet(n) ==
  CASE n = "es" -> {"ES256", "ES384", "ES512"} [] n = "es384" -> {"ES384"} [] n = "all" -> {"ES256", "ES384", "ES512", "RS256", "EdDSA", "HS256"}
    [] n = "rs" -> {"RS256"} [] OTHER -> {}

\* ks: sequence of [k, use, kid]; a key designated by kid, when given
Verifies(ks, key, kid) == \E i \in DOMAIN ks : ks[i].k = key /\ ks[i].use # "enc" /\ (kid = "" \/ ks[i].kid = kid)

---------------------------------------------------------------------------
(* JWT verification with a key set (vclaims, jwk.ValidateToken, jwk.ValidateSignature) and with the embedded key *)
VO == {"G03"}
\* a token which embeds a private key is refused whatever verifies it
VGuards(s, e) == LET a == e.a IN
  << G("no embedded private key", a.jwk # "private", VO), G("unaltered", a.tamper = "none", VO), G("allowed algorithm", AlgOf(a.key) \in AlgSet(a.allowed), VO) >>
  \o (CASE e.op = "vclaims" -> << G("key set available", a.prov = "ok", VO), G("signed by a permitted key", Verifies(a.ks, a.key, a.kid), VO), G("claims are an object", a.payload = "json", VO) >>
        [] e.op = "vset" -> << G("key set", ~a.nilks, VO), G("token", ~a.niltok, VO), G("signed by a permitted key", Verifies(a.ks, a.key, ""), VO), G("claims are an object", a.payload = "json", VO) >>
        [] e.op = "vsig" -> << G("key set", ~a.nilks, VO), G("token", ~a.niltok, VO), G("signed by a permitted key", Verifies(a.ks, a.key, ""), VO) >>
        [] e.op = "vemb" -> << G("embedded public key", a.jwk # "none" /\ a.jwk # "private", VO), G("signed by the embedded key", a.jwk = a.key, VO), G("claims are an object", a.payload = "json", VO) >>)
\* the accessors describe the header
VAcc(s, e) == LET a == e.a r == e.r IN
  << G("parsed", r.parsed, VO), G("typ accessor", r.typ = a.typ, VO), G("kid accessor", r.kid = a.kid, VO), G("alg accessor", r.alg = AlgOf(a.key), VO),
     G("thumbprint accessor", r.thumb = a.thumb, VO) >>
VParses(e) == e.a.tamper = "none" /\ AlgOf(e.a.key) \in AlgSet(e.a.allowed) /\ e.a.jwk # "private"
VFields(s, e) == When(e.op # "vsig", << G("claims extracted", e.r.got = e.a.c, VO) >>) \o When(e.op \in {"vclaims", "vemb"}, VAcc(s, e))
VErr(s, e) == LET a == e.a IN
  When(a.payload = "json" \/ a.tamper # "none", << G("claims disclosed by a refused token", e.r.got = "", VO) >>)
  \o When(e.op \in {"vclaims", "vemb"} /\ VParses(e), VAcc(s, e))
  \o When(e.op \in {"vclaims", "vemb"} /\ a.tamper = "none" /\ AlgOf(a.key) \notin AlgSet(a.allowed), << G("parsed with a disallowed algorithm", ~e.r.parsed, VO), G("verified with a disallowed algorithm", ~e.r.verified, VO) >>)
  \o When(e.op = "vemb" /\ a.jwk = "none", << G("verified without embedded key", ~e.r.verified, VO) >>)

(* Signing *)
SignType(w) ==
  CASE w = "at" -> "at" [] w = "rt" -> "rt" [] w = "req" -> "oauth-authz-req" [] w = "jarm" -> "jarm" [] w = "dpop" -> "dpop"
    [] w = "ca" -> "client-assertion" [] w = "intro" -> "token-introspection" [] w = "meta" -> "oauth-authorization-server" [] w = "def" -> "custom"
SignGuards(s, e) == LET a == e.a O == IF a.form = "jwt" THEN VO ELSE {"G10"} IN
  << G("claims", a.claims = "ok", O), G("key provider", a.prov = "ok", O), G("key id", a.kid # "", O), G("private key", ~a.pub, O), G("algorithm of the key", a.alg = AlgOf(a.key), O) >>
SignFields(s, e) == LET a == e.a r == e.r O == IF a.form = "jwt" THEN VO ELSE {"G10"} IN
  << G("type", r.typ = SignType(a.w) \o "+" \o a.form, O), G("key id", r.kid = a.kid, O), G("algorithm", r.alg = a.alg, O), G("verifies with the public key", r.verifies, O),
     G("payload", r.payload = a.payload, O), G("content type", r.ctype = (IF a.form = "jwt" THEN "JWT" ELSE "CWT"), O),
     G("embedded key", r.embedded = (IF a.form = "jwt" /\ a.w = "dpop" THEN "public" ELSE "none"), O) >>

(* Sign then encrypt *)
EncGuards(s, e) == LET a == e.a O == {"G11"} IN << G("serializer", a.ser = "ok", O), G("encrypter", a.enc = "ok", O) >>
EncFields(s, e) == LET a == e.a r == e.r O == {"G11"} IN
  << G("result of the encryption", r.out = "enc(" \o r.seen \o ")", O), G("signed content is what is encrypted", r.seen = "signed(" \o a.claims \o ")", O),
     G("content type", r.ct = a.ct, O), G("additional data", r.aad = "urn:solid:token:sign-and-encrypt", O), G("own content type", r.ctype = "HYBRID", O) >>
EncErr(s, e) == << G("encrypter used although signing failed", e.a.ser # "ok" => e.r.seen = "", {"G11"}) >>

---------------------------------------------------------------------------
(* JARM *)
JO == {"G01"}
JeGuards(s, e) == LET a == e.a IN
  << G("issuer", a.iss # "", JO), G("response", a.rset, JO), G("signer", a.prov = "ok", JO) >>
  \o When(a.rset /\ ~a.errset, << G("client", a.cli # "", JO), G("code", a.code # "", JO), G("state", a.state # "", JO), G("lifetime", a.exp > 0, JO) >>)
JeContent(s, e) == LET a == e.a IN
  [iss |-> a.iss, aud |-> a.cli, kid |-> a.key, exp |-> s.now + (IF a.errset THEN 60 ELSE a.exp), state |-> (IF a.errset /\ a.state = "" THEN a.estate ELSE a.state), uri |-> (IF a.errset THEN a.uri ELSE ""), code |-> (IF a.errset THEN "" ELSE a.code),
   err |-> (IF a.errset THEN a.err ELSE ""), desc |-> (IF a.errset THEN a.desc ELSE "")]
JeFields(s, e) == LET c == JeContent(s, e) r == e.r IN
  << G("issuer claim", r.iss = c.iss, JO), G("audience claim", r.aud = c.aud, JO), G("expiry claim", r.exp = c.exp, JO), G("state claim", r.state = c.state, JO),
     G("code claim", r.code = c.code, JO), G("error claims", r.error = c.err /\ r.desc = c.desc /\ r.uri = c.uri, JO), G("type", r.typ = "jarm+jwt", JO) >>
JePost(s, e) == IF e.r.ok THEN [s EXCEPT !.mem = (<<"jarm", e.r.raw>> :> (JeContent(s, e) @@ [typ |-> "jarm+jwt", key |-> e.a.key])) @@ @] ELSE s

\* what is known of the presented value: made by the encoder, crafted, or neither (altered)
JdKnown(s, e) == e.a.tamper = "none" /\ (e.a.crafted \/ <<"jarm", e.a.raw>> \in DOMAIN s.mem)
JdContent(s, e) == IF e.a.crafted THEN e.a.content ELSE s.mem[<<"jarm", e.a.raw>>]
JdGuards(s, e) == LET a == e.a IN
  << G("audience given", a.aud # "", JO), G("authentic", JdKnown(s, e), JO \cup {"G03"}) >>
  \o When(JdKnown(s, e), LET c == JdContent(s, e) IN
     << G("type", c.typ = "jarm+jwt", JO), G("signature key", Verifies(a.ks, c.key, c.kid), JO \cup {"G03"}), G("algorithm", AlgOf(c.key) \in AlgSet("es"), JO \cup {"G03"}) >>
     \o (IF c.err = ""
         THEN << G("issuer", c.iss = a.diss, JO), G("audience", c.aud = a.aud, JO), G("lifetime", c.exp >= s.now, JO) >>
         ELSE << G("issuer", c.iss \in {"", a.diss}, JO), G("audience", c.aud \in {"", a.aud}, JO), G("lifetime", c.exp = 0 \/ c.exp >= s.now, JO) >>))
JdFields(s, e) == LET c == JdContent(s, e) r == e.r IN
  << G("state", r.state = c.state, JO), G("issuer", r.iss = c.iss, JO), G("error", r.error = c.err /\ (c.err # "" => r.desc = c.desc /\ r.uri = c.uri), JO) >>
  \o (IF c.err = "" THEN << G("code", r.code = c.code, JO) >> ELSE << G("no code with an error", r.code = "", JO), G("error description", r.desc = c.desc, JO) >>)

---------------------------------------------------------------------------
(* Request objects: encode, tamper, decode *)
RO == {"G02"}
RqGuards(s, e) == LET a == e.a IN
  << G("request", a.rset, RO), G("signer", a.prov = "ok", RO), G("unaltered", a.tamper = "none", RO \cup {"G03"}), G("allowed algorithm", AlgOf(a.key) \in AlgSet(a.allowed), RO \cup {"G03"}),
     G("signed by a permitted key", Verifies(a.ks, a.key, a.kid), RO \cup {"G03"}), G("known, well-typed parameters", a.extra = "none", RO) >>
RqFields(s, e) == << G("same request", e.r.req = e.a.req, RO) >>

=============================================================================
