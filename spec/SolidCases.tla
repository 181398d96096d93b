----------------------------- MODULE SolidCases -----------------------------
(***************************************************************************)
(* Case tables over the operations of Formats: signed formats, client       *)
(* authentication, helpers and the SDK client. Most tables take a case that *)
(* must succeed and all the combinations of two (thorough: three) of its    *)
(* deviations; a deviation changes one aspect, or a few that belong         *)
(* together. The verdict of a case is computed by SolidTrace from what was  *)
(* recorded: the tables say nothing about the expected results.             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Table == IOEnv.VERIF_SLICE
Thorough == IOEnv.VERIF_TIER = "thorough"

Adv(n) == [op |-> "advance", d |-> n]
Do(op, c) == [op |-> op, c |-> c]
Single(op, cases) == { << Do(op, c) >> : c \in cases }
\* all the cases at most n deviations away from the base
Dev1(B, D) == { x @@ B : x \in D } \cup {B}
Dev2(B, D) == { (x @@ y) @@ B : x \in D, y \in D }
Dev3(B, D) == { ((x @@ y) @@ z) @@ B : x \in D, y \in D, z \in D }
Dev(B, D) == IF Thorough THEN Dev3(B, D) ELSE Dev2(B, D)
Of(f, V) == { f :> v : v \in V }

Key(k) == [k |-> k, use |-> "sig", kid |-> k]
KeyU(k, u) == [k |-> k, use |-> u, kid |-> k]
KeyI(k, i) == [k |-> k, use |-> "sig", kid |-> i]
Keys1 == { <<>>, << Key("k2") >>, << KeyU("k1", "enc") >>, << KeyU("k1", "") >>, << KeyU("k1", "SIG") >>, << Key("k2"), Key("k1") >>, << KeyU("k1", "enc"), Key("k1") >>, << KeyI("k1", "") >>,
           << KeyI("k2", "k1"), Key("k1") >>, << Key("e384"), Key("k1"), Key("rs") >>, << KeyU("k2", "enc"), Key("k3") >>, << KeyI("k2", "k1") >>, << KeyI("k1", "k2"), KeyI("k2", "k1") >> }
Tampers == {"flipsig", "payload", "header", "trunc", "extend", "nosig", "twoparts", "extra", "algnone", "othersig", "garbage", "empty"}
OtherKeys == {"k2", "k3", "e384", "e521", "rs", "ed", "hs", "hsk1"}
\* another key, presented and listed
Swaps(f) == { (f :> k) @@ [ks |-> << Key(k) >>] : k \in {"k3", "e384", "e521", "rs", "ed"} } \cup { (f :> k) @@ [ks |-> << Key("k1"), KeyU(k, "enc") >>] : k \in {"k3", "e384"} }
            \cup { (f :> k) @@ [ks |-> << Key(k) >>, allowed |-> "all"] : k \in {"rs", "ed", "hs"} } \cup { (f :> "hsk1") @@ [allowed |-> "all"] }
Alloweds == {"es384", "rs", "all", "none"}

---------------------------------------------------------------------------
(* private_key_jwt *)
PkjBase == [req |-> TRUE, type |-> "jwt", as |-> "ok", iss |-> "A", sub |-> "A", aud |-> "https://as1.example", jti |-> "j1", exps |-> "num", exp |-> 30, key |-> "k1", allowed |-> "es",
            tamper |-> "none", ks |-> << Key("k1") >>, jst |-> "ok", cid |-> "", hkid |-> "", typ |-> "JWT", store |-> "ok"]
PkjDev ==
  { [req |-> FALSE] } \cup Of("type", {"attest", "saml", "JWT", "jwt ", "jw", "blank", "none"}) \cup Of("as", {"blank", "none"}) \cup Of("iss", {"", "B", "C", "D", "a", "A ", " A"}) \cup Of("sub", {"", "B", "C", "a", "A "})
  \cup { [iss |-> x, sub |-> x] : x \in {"", "B", "C", "D", "a"} } \cup { [iss |-> "B", sub |-> "B", key |-> "k2"], [iss |-> "B", key |-> "k2"], [sub |-> "B", key |-> "k2"], [iss |-> "C", sub |-> "C", key |-> "k2"] }
  \cup Of("aud", {"", "https://elsewhere.example"}) \cup Of("jti", {""}) \cup Of("exps", {"absent", "zero", "str", "neg", "frac", "huge"}) \cup Of("exp", {-86400, -30, -1, 0, 1, 86400})
  \cup Of("key", OtherKeys) \cup Of("allowed", Alloweds) \cup Of("tamper", Tampers) \cup Of("ks", Keys1) \cup Swaps("key") \cup Of("jst", {"none", "bad", "empty", "null"})
  \cup Of("cid", {"A", "B"}) \cup Of("hkid", {"k1", "k2"}) \cup Of("typ", {"", "dpop+jwt", "at+jwt"}) \cup Of("store", {"fail", "nothing"})
PkjTable(zz) == Single("pkj", Dev(PkjBase, PkjDev))
            \cup { << Do("pkj", PkjBase), Do("pkj", PkjBase), Adv(d), Do("pkj", [exp |-> x] @@ PkjBase) >> : d \in {1, 60, 100000}, x \in {-1, 0, 1} }
            \cup Single("ctx", { [outer |-> o, inject |-> i, cli |-> c] : o \in {"-", "A", "B"}, i \in BOOLEAN, c \in {"A", "B", ""} })

(* client attestation *)
AttBase == [req |-> TRUE, type |-> "attest", as |-> "ok", sep |-> "one", a_key |-> "k2", a_tamper |-> "none", a_iss |-> "B", a_sub |-> "A", a_exps |-> "num", a_exp |-> 300, a_nbfs |-> "num", a_nbf |-> -10,
            cnf |-> "p1", p_key |-> "p1", p_tamper |-> "none", p_iss |-> "A", p_aud |-> "https://as1.example", p_jti |-> "j1", p_exps |-> "num", p_exp |-> 60, p_nbfs |-> "num", p_nbf |-> -5,
            ks |-> << Key("k1") >>, jst |-> "ok", allowed |-> "es", store |-> "ok"]
AttDev ==
  { [req |-> FALSE] } \cup Of("type", {"jwt", "saml", "ATTEST", "attest ", "attes", "blank", "none"}) \cup Of("as", {"blank", "none"}) \cup Of("sep", {"none", "alone", "two", "swap", "popempty", "attempty", "dup"})
  \cup Of("a_key", {"k1", "k3", "p1", "p2", "e384", "rs", "hs"}) \cup Of("a_tamper", Tampers) \cup Of("a_iss", {"", "C", "D", "b", "B ", " B"}) \cup Of("a_sub", {"", "B", "C", "D", "a", "A ", " A"})
  \cup { [a_sub |-> x, p_iss |-> x] : x \in {"", "B", "C", "D"} } \cup { [a_iss |-> "A", a_key |-> "k1"], [a_iss |-> "A", a_key |-> "k1", a_sub |-> "B", p_iss |-> "B"], [a_iss |-> "A", a_key |-> "k2"] }
  \cup Of("a_exps", {"absent", "zero", "str", "neg", "frac", "huge"}) \cup Of("a_exp", {-86400, -1, 0, 1}) \cup Of("a_nbfs", {"absent"}) \cup Of("a_nbf", {0, 1, 86400})
  \cup Of("cnf", {"p2", "e384", "none", "nojwk", "bad", "null"}) \cup { [cnf |-> k, p_key |-> k] : k \in {"p2", "e384"} }
  \cup Of("p_key", {"p2", "k1", "k2", "e384", "rs", "hs"}) \cup Of("p_tamper", Tampers) \cup Of("p_iss", {"", "B", "D", "a", "A ", " A"}) \cup Of("p_aud", {""}) \cup Of("p_jti", {""})
  \cup Of("p_exps", {"absent", "zero", "str", "neg", "frac", "huge"}) \cup Of("p_exp", {-86400, -1, 0, 1}) \cup Of("p_nbfs", {"absent"}) \cup Of("p_nbf", {0, 1, 86400})
  \cup Of("ks", { <<>>, << Key("k2") >>, << KeyU("k1", "enc") >> }) \cup Of("jst", {"none", "bad", "empty", "null"}) \cup Of("allowed", {"es384", "rs", "all", "none"}) \cup Of("store", {"fail", "first", "second", "nothing"})
AttBaseA == [a_iss |-> "A", a_key |-> "k1", a_sub |-> "B", p_iss |-> "B"] @@ AttBase
AttDevA == Of("ks", Keys1) \cup Of("jst", {"none", "bad", "empty", "null"}) \cup Of("a_key", OtherKeys) \cup Of("allowed", Alloweds) \cup Of("a_tamper", Tampers) \cup Swaps("a_key") \cup Of("cnf", {"p2", "e384"}) \cup Of("store", {"first", "second", "nothing1", "nothing2"})
AttTable(zz) == Single("att", Dev2(AttBase, AttDev) \cup Dev(AttBaseA, AttDevA))

(* token verification *)
VBase == [ks |-> << Key("k1") >>, kid |-> "k1", key |-> "k1", tamper |-> "none", allowed |-> "es", prov |-> "ok", payload |-> "json", c |-> "v", typ |-> "JWT", jwk |-> "none", nilks |-> FALSE, niltok |-> FALSE]
VDev == Of("ks", Keys1) \cup Of("kid", {"", "k2", "K1", "nope"}) \cup Of("key", OtherKeys) \cup Of("tamper", Tampers) \cup Of("allowed", Alloweds) \cup Of("payload", {"notjson"}) \cup Of("c", {"", "€ ]}"})
        \cup Of("typ", {"", "at+jwt"}) \cup Of("jwk", {"k1", "k2", "private"}) \cup Swaps("key") \cup { x @@ [kid |-> ""] : x \in Swaps("key") } \cup { (x @@ [kid |-> x.key]) : x \in Swaps("key") }
VEmb == [jwk |-> "k1"] @@ VBase
VEmbDev == Of("jwk", {"none", "private", "k2", "e384"}) \cup Of("key", OtherKeys) \cup { [key |-> k, jwk |-> k] : k \in {"k2", "e384", "e521", "rs", "ed"} }
           \cup { [key |-> k, jwk |-> k, allowed |-> "all"] : k \in {"rs", "ed", "k2"} } \cup { [key |-> "hsk1", allowed |-> "all"] }
           \cup Of("tamper", Tampers) \cup Of("allowed", Alloweds) \cup Of("payload", {"notjson"}) \cup Of("kid", {"", "k2"}) \cup Of("typ", {"", "dpop+jwt"}) \cup Of("c", {"", "x y"})
VerifyTable(zz) ==
  Single("vclaims", Dev(VBase, VDev \cup Of("prov", {"err"}))) \cup Single("vemb", Dev(VEmb, VEmbDev))
  \cup Single("vset", Dev(VBase, VDev \cup { [nilks |-> TRUE], [niltok |-> TRUE] })) \cup Single("vsig", Dev(VBase, VDev \cup { [nilks |-> TRUE], [niltok |-> TRUE] }))

(* signing *)
SBase == [form |-> "jwt", w |-> "at", alg |-> "ES256", key |-> "k1", pub |-> FALSE, kid |-> "kid-1", prov |-> "ok", claims |-> "ok", c |-> "v"]
SignTable(zz) ==
  LET jw == {"at", "rt", "req", "jarm", "dpop", "ca", "intro", "meta"} cw == (jw \ {"meta"}) \cup {"def"}
      dev == { [pub |-> TRUE] } \cup Of("kid", {"", "k", "é"}) \cup Of("prov", {"err", "nil"}) \cup Of("claims", {"nil", "nilptr", "chan"}) \cup Of("c", {"", "€ ]}", "long value long value long value"})
      ja == { [alg |-> x] : x \in {"ES384", "ES512", "RS256", "EdDSA", "HS256", "none", ""} } \cup { [key |-> k] : k \in {"k2", "e384", "rs", "ed"} }
            \cup { [key |-> "e384", alg |-> "ES384"], [key |-> "e521", alg |-> "ES512"], [key |-> "rs", alg |-> "RS256"], [key |-> "ed", alg |-> "EdDSA"] } \cup Of("prov", {"nilfn"})
      ca == { [key |-> k, alg |-> "ES256"] : k \in {"k2", "rs", "ed"} } \cup { [key |-> "e384", alg |-> "ES384"], [key |-> "e521", alg |-> "ES512"] } IN
  UNION { Single("sign", Dev2([w |-> w] @@ SBase, dev \cup ja)) : w \in jw }
  \cup UNION { Single("sign", Dev2([w |-> w, form |-> "cwt"] @@ SBase, dev \cup ca)) : w \in cw }

EncryptTable(zz) == Single("encrypt", { [ser |-> x, enc |-> y, ct |-> ct, claims |-> c] : x \in {"ok", "fail", "nil", "nilptr"}, y \in {"ok", "fail", "nil", "nilptr"}, ct \in {"JWT", "CWT", ""}, c \in {"a", "", "b c"} })

(* JARM *)
\* near misses of the issuer and of the audience
NearIss == {"https://as1.example/", "HTTPS://as1.example", "https://AS1.example", "https://as1.example ", " https://as1.example", "https://as1.exampl", "https://as1.example.evil", "http://as1.example", "https://as1.example:443", "as1.example"}
NearCli == {"c1 ", " c1", "C1", "c", "c1/", "c11"}
JEnc == [estate |-> "", uri |-> "", iss |-> "I1", rset |-> TRUE, errset |-> FALSE, err |-> "", desc |-> "", cli |-> "c1", code |-> "the-code", state |-> "the-state", exp |-> 60, key |-> "k1", prov |-> "ok"]
JErr == [errset |-> TRUE, err |-> "access_denied", desc |-> "no"] @@ JEnc
JEncDev == Of("iss", {"-", "I2"} \cup NearIss) \cup Of("rset", {FALSE}) \cup Of("cli", {"", "c2"} \cup NearCli) \cup Of("code", {"", "other"}) \cup Of("state", {"", "€"}) \cup Of("exp", {0, 1, 600}) \cup Of("key", {"k2", "e384"}) \cup Of("prov", {"err", "nil"})
JErrDev == JEncDev \cup Of("err", {"invalid_request"}) \cup Of("desc", {"", "d"}) \cup Of("estate", {"error-state", "the-state"}) \cup Of("uri", {"https://errors.example/no"})
JDec == [ref |-> "jarm#last", diss |-> "I1", aud |-> "c1", ks |-> << Key("k1") >>, tamper |-> "none", crafted |-> FALSE]
JDecDev == Of("diss", {"I2", "I3"} \cup NearIss) \cup Of("aud", {"", "c2"} \cup NearCli) \cup Of("ks", { <<>>, << Key("k2") >>, << Key("k2"), Key("k1") >>, << KeyU("k1", "enc") >>, << Key("e384") >> }) \cup Of("tamper", Tampers)
JWorld(zz) == { << Do("jarmenc", x), Do("jarmdec", JDec), Do("jarmdec", [aud |-> "c2"] @@ JDec), Do("jarmdec", [ks |-> << Key("e384") >>] @@ JDec) >> : x \in Dev2(JEnc, JEncDev) \cup Dev2(JErr, JErrDev) }
JPair(zz) == { << Do("jarmenc", x), Adv(d), Do("jarmdec", y) >> : x \in {JEnc, JErr}, d \in {0, 59, 60, 61}, y \in Dev1(JDec, JDecDev) }
         \cup { << Do("jarmenc", x) >> \o SetToSeq({ Do("jarmdec", y) : y \in Dev2(JDec, JDecDev) }) : x \in {JEnc, JErr} }
         \cup { << Do("jarmenc", [iss |-> v[1], cli |-> v[2]] @@ x) >> \o SetToSeq({ Do("jarmdec", [diss |-> i, aud |-> c] @@ JDec) : i \in {"I1", v[1]}, c \in {"c1", v[2]} }) : x \in {JEnc, JErr}, v \in NearIss \X NearCli }
         \cup { << Do("jarmenc", JEnc), Do("jarmenc", [cli |-> "c2", code |-> "code-2", state |-> "state-2"] @@ JEnc), Do("jarmdec", JDec), Do("jarmdec", [ref |-> "jarm#1"] @@ JDec), Do("jarmdec", [aud |-> "c2"] @@ JDec) >> }
JCont == [iss |-> "I1", aud |-> "c1", exps |-> "num", exp |-> 60, code |-> "k", state |-> "s", err |-> "", desc |-> "", uri |-> "", typ |-> "jarm+jwt", kid |-> "k1", key |-> "k1"]
JContDev == Of("iss", {"", "I2", "https://as1.example/", "HTTPS://as1.example", "https://as1.example "}) \cup Of("aud", {"", "c2", "c1 ", "C1", "c"}) \cup Of("exps", {"absent"}) \cup Of("exp", {-100, -1, 0, 1}) \cup Of("code", {""}) \cup Of("state", {"", "€"}) \cup { [err |-> "access_denied", code |-> c, desc |-> d] : c \in {"", "k"}, d \in {"", "why"} }
            \cup Of("uri", {"https://errors.example/no"}) \cup Of("typ", {"", "JWT", "at+jwt", "JARM+JWT", "jarm+cwt"}) \cup Of("kid", {"", "k2"}) \cup Of("key", {"k2", "e384", "rs", "hsk1"})
JCraft(zz) == { << Do("jarmdec", [crafted |-> TRUE, content |-> x] @@ JDec) >> : x \in Dev3(JCont, JContDev) } \cup { << Do("jarmdec", [crafted |-> TRUE, content |-> x] @@ y) >> : x \in Dev1(JCont, JContDev), y \in Dev1(JDec, JDecDev) }
JarmTable(zz) == JWorld(0) \cup JPair(0) \cup JCraft(0)

(* request objects *)
RFields == {"scope", "response_type", "client_id", "redirect_uri", "state", "response_mode", "nonce", "display", "prompt", "max_age", "ui_locales", "id_token_hint", "acr_values", "request", "request_uri",
            "code_challenge", "code_challenge_method", "audience", "dpop_proof", "resource", "iss", "login_hint_token", "login_hint"}
RBase == [fields |-> << "*" >>, kind |-> "plain", rset |-> TRUE, prov |-> "ok", key |-> "k1", ks |-> << Key("k1") >>, kid |-> "k1", allowed |-> "es", tamper |-> "none", extra |-> "none"]
RKinds == {"plain", "unicode", "json", "empty", "number", "bool", "null", "space", "url", "escape", "long"}
RDev == Of("fields", { << "scope" >>, << "client_id", "state" >>, <<>> }) \cup Of("kind", {"json", "empty"}) \cup Of("rset", {FALSE}) \cup Of("prov", {"err", "nil"}) \cup Of("key", {"k2", "e384", "rs", "hs"})
        \cup Of("ks", Keys1) \cup Swaps("key") \cup { (x @@ [kid |-> x.key]) : x \in Swaps("key") } \cup Of("kid", {"", "k2"}) \cup Of("allowed", Alloweds) \cup Of("tamper", Tampers)
        \cup Of("extra", {"unknown", "camel", "typed", "list", "maxage", "nested", "array", "scalar"})
ReqTable(zz) ==
  Single("reqobj", { [fields |-> << f >>, kind |-> k] @@ RBase : f \in RFields, k \in RKinds }) \cup Single("reqobj", { [fields |-> << f, g >>, kind |-> k] @@ RBase : f \in RFields, g \in RFields, k \in {"plain", "unicode", "empty"} })
  \cup Single("reqobj", { [kind |-> k] @@ RBase : k \in RKinds }) \cup Single("reqobj", Dev(RBase, RDev))

---------------------------------------------------------------------------
(* verifiable tokens *)
VMuts == { "u:" \o ToString(i) : i \in 0..21 } \cup { "s:" \o ToString(i) : i \in {0, 1, 2, 3, 7, 15, 22, 29, 30, 31, 40, 44, 50, 57, 58} } \cup {"p:0", "p:4", "noprefix", "prefix:x", "prefix:sldat", "prefix:sldrt", "upper", "zero", "unzero", "overu", "overs",
          "moduu:1", "moduu:2", "moduu:3", "swap", "space", "lead", "nl", "double", "cut:1", "cut:2", "cut:20", "cut:60", "only", "empty", "sign", "plus", "unicode"}
Vx(m, k) == Do("vext", [mut |-> m, key |-> k])
VtTable(zz) ==
  { << Do("vgen", [uuid |-> u, src |-> "ok", via |-> v, key |-> k]), Vx("none", k), Vx("none", "other key") >> \o SetToSeq({ Vx(m, k) : m \in VMuts }) \o << Vx("none", k) >>
    : u \in {"v4", "v7", "ones", "small", "same", "zero"}, v \in {"at", "rt", "pt", "other"}, k \in {"key one", "k", "a key as long as the block of the hash function, or nearly so: it depends"} }
  \cup { << Do("vgen", [uuid |-> u, src |-> "ok", via |-> "raw", pfx |-> p, key |-> "key one"]), Vx("none", "key one") >> \o SetToSeq({ Vx(m, "key one") : m \in VMuts })
         : u \in {"v4", "small"}, p \in {"-", "a", "0", "sldat", "A", " a ", "a-b", "a_b", "é", "a b", "sld.at"} }
  \cup { << Do("vgen", [uuid |-> "v4", src |-> s, via |-> v, key |-> "key one"]), Vx("none", "key one") >> : s \in {"ok", "err"}, v \in {"raw", "at", "nil"} }
  \* one key, many tokens: parts of different tokens do not combine
  \cup { [i \in 1..40 |-> Do("vgen", [uuid |-> "v4", src |-> "ok", via |-> "at", key |-> "key one"])] \o [i \in 1..40 |-> Do("vext", [ref |-> "vt#" \o ToString(i), mut |-> "none", key |-> "key one"])] }

(* PKCE *)
Verifiers == {"v1", "v2", "v1.42", "v1.44", "v1.128"}
PkceTable(zz) ==
  { [i \in 1..12 |-> Do("pkcegen", [x |-> 0])] }
  \cup Single("pkceval", { [chal |-> c, ver |-> v, cmut |-> m] : c \in Verifiers \cup {"raw:v1", "plain:v1", "pad:v1", "short:v1", "-"}, v \in Verifiers \cup {"chal:v1", "-"}, m \in {"", "first", "mid", "cut", "half", "more", "bad", "swapcase"} })

(* pairwise subjects; the pairs whose plain concatenation coincide are separate *)
Salts == { [salt |-> "0123456789abcdef", slen |-> n] : n \in {0, 1, 15, 16, 17, 32, 64, 65, 128} } \cup { [salt |-> "another salt....", slen |-> n] : n \in {16, 32} } \cup { [salt |-> "0", slen |-> 16] }
Ids == { <<x, y>> : x \in {"https://one.example", "https://two.example", "", "ONE"}, y \in {"u1", "u2", "U1", "", " ", "é"} }
\* sectors and subjects that differ little
NearIds == { <<x, y>> : x \in {"https://one.example", "https://one.example/", "https://ONE.example", "https://one.example:443", "http://one.example", "one.example", "one.example.", " https://one.example", "https://one.example ",
                                "https://one.example%00", "https://one.example/cb", "https://one.example/cb?x=1", "https://one.example//", "one", "One", "öne", "u1", "N.64", "N.128", "N.129", "N.4000", "N.4001"},
                        y \in {"u1", "U1", "ú1", "u1 ", " u1", "%09u1%0A", "u1%00", "u 1", "u.1", "u1u1", "N.300", "N.301"} }
PairTable(zz) ==
  { LET q == SetToSeq({ Do("pair", [sector |-> i[1], subject |-> i[2]] @@ x) : i \in Ids, x \in Salts }) IN q \o q }
  \cup { SetToSeq({ Do("pair", [sector |-> i[1], subject |-> i[2], salt |-> "0123456789abcdef", slen |-> n]) : i \in NearIds, n \in {16, 64} }) }
  \cup { << Do("pair", [salt |-> "0123456789abcdef", slen |-> 32, sector |-> "ab", subject |-> "c"]), Do("pair", [salt |-> "0123456789abcdef", slen |-> 32, sector |-> "a", subject |-> "bc"]) >> }

(* structured tokens and introspection assertions *)
TBase == [kind |-> "at", ser |-> "jwt", set |-> TRUE, meta |-> TRUE, id |-> "token-1", iss |-> "https://as1.example", sub |-> "u1", aud |-> "urn:aud:1", client |-> "client-1", scope |-> "openid profile",
          iats |-> "num", iat |-> -10, nbfs |-> "num", nbf |-> -9, exps |-> "num", exp |-> 3000, jkt |-> "-", key |-> "k1", status |-> "ACTIVE"]
Words == {"https://as1.example", "https://rs.example:8443/api", "not a url", "é", "-._~!$&'()*+,;=", "-", "%09"}
TDev == { [set |-> FALSE], [meta |-> FALSE] } \cup Of("id", {"-"}) \cup Of("iss", {"-", "not a url", "https://rs.example:8443/api", "https://as1.example/x?y=1", "é", "/relative"})
        \cup Of("sub", {"-", "é", "-._~!$&'()*+,;="}) \cup Of("aud", {"-", "é", "https://as1.example"}) \cup Of("client", {"-", "é", "A"}) \cup Of("scope", {"-", "é", "a b c"})
        \cup Of("iats", {"zero"}) \cup Of("iat", {-3000, -1, 0, 1, 100}) \cup Of("nbfs", {"zero"}) \cup Of("nbf", {-4000, -11, -10, 0, 10, 2999, 3000, 3001}) \cup Of("exps", {"zero"})
        \cup Of("exp", {-5000, -11, -10, -9, -1, 0, 1, 7189, 7190, 7191, 1209589, 1209590, 1209591, 2000000}) \cup Of("jkt", {"jktA"}) \cup Of("key", {"e384"})
        \cup Of("status", {"REVOKED", "EXPIRED", "UNKNOWN"}) \cup { [iat |-> -3000, nbf |-> -2999, exp |-> -1] }
GtSers == {"jwt", "cwt", "fail", "nil", "nilptr"}
CaBase == [kind |-> "ca", iss |-> "client-1", sub |-> "client-1", aud |-> "https://as1.example"] @@ TBase
CaDev == TDev \cup { [iss |-> i, sub |-> u] : i \in {"A", "B"}, u \in {"a", "A ", "b", " B"} } \cup { [iss |-> "A", sub |-> "A"], [iss |-> "é", sub |-> "é"], [iss |-> "-", sub |-> "-"] } \cup Of("iss", {"A"}) \cup Of("sub", {"A"})
TokenTable(zz) ==
  UNION { Single("gtok", Dev2([kind |-> k, ser |-> f] @@ TBase, TDev)) : k \in {"at", "rt"}, f \in {"jwt", "cwt"} } \cup UNION { Single("gtok", Dev2([ser |-> f] @@ CaBase, CaDev)) : f \in {"jwt", "cwt"} }
  \cup Single("gtok", { [kind |-> k, ser |-> f] @@ x : k \in {"at", "rt", "ca"}, f \in {"fail", "nil", "nilptr"}, x \in Dev1(TBase, TDev) })
IntroTable(zz) == Single("gintro", Dev(TBase, TDev \cup Of("ser", {"fail", "nil", "nilptr"}))) \cup Single("usable", Dev2(TBase, TDev))
  \cup { << Do("gintro", [nbf |-> b, exp |-> x, status |-> st] @@ TBase), Adv(1), Do("usable", [nbf |-> b, exp |-> x] @@ TBase) >> : b \in {-1, 0, 1}, x \in {-1, 0, 1}, st \in {"ACTIVE", "REVOKED", "EXPIRED", "UNKNOWN"} }

(* generators *)
GenTable(zz) ==
  { << Do("gen", [kind |-> k, n |-> 200, par |-> p, iss |-> i]), Do("gen", [kind |-> k, n |-> 50, par |-> p, iss |-> "I1"]) >> : k \in {"code", "dc", "uri", "cid", "uc", "num", "opaque"} \ {"uc", "num"}, p \in BOOLEAN, i \in {"I1", "I2"} }
  \cup { << Do("gen", [kind |-> k, n |-> 40, par |-> p, iss |-> "I1"]) >> : k \in {"uc", "num"}, p \in BOOLEAN }
  \cup Single("validate", { [kind |-> k, n |-> n, pre |-> pre, suf |-> suf, iss |-> "I1", val |-> ""] : k \in {"code", "dc", "uri"}, n \in {1, 16, 31, 32, 33, 64, 1024}, pre \in {"", "urn:solid:", "urn:other:", "%20"}, suf \in {"", "%20", "%0A"} })
  \cup Single("validate", { [kind |-> k, n |-> 0, pre |-> "", suf |-> "", iss |-> "I1", val |-> v] : k \in {"code", "dc", "uri"}, v \in {"", " ", "urn:solid:", "urn:solid:x", "URN:SOLID:abcdefghijklmnopqrstuvwxyzABCDEF", "urn:solid:abcdefghijklmnopqrstuvwxyzABCDE-"} })

(* profile, utility types, randomness, errors *)
Names5 == {"web", "native", "device", "service"}
ProfileTable(zz) == { << Do("profile", [name |-> x]), Do("profile", [name |-> y]), Do("profile", [name |-> x]) >> : x \in Names5 \cup {"browser", "", "Web", "unknown"}, y \in Names5 }
Atoms == {"a", "A", "b", "é", "É", "", " a", "ab", "B"}
Lists == { <<>> } \cup { << x >> : x \in Atoms } \cup { << x, y >> : x \in Atoms, y \in Atoms } \cup { << x, y, z >> : x \in {"a", "A", "b", ""}, y \in {"a", "A", "b"}, z \in {"a", "B", "b"} }
         \cup { << "a", "a", "a", "b", "A", "a" >>, << "b", "a", "a", "B", "a" >> }
TypesTable(zz) == Single("strs", { [arr |-> l, item |-> i, items |-> m] : l \in Lists, i \in Atoms, m \in { <<>>, << "a" >>, << "b", "A" >>, << "x", "é" >>, << "a", "a", "b" >>, << "" >> } })
  \cup Single("equal", { [x |-> x, y |-> y] : x \in {"", "a", "A", "ab", "é", "É", "abc", "a b"}, y \in {"", "a", "A", "ab", "ba", "é", "abd", "a b", "a b "} })
Draws == {"Int63", "Uint32", "Uint64", "Int31", "Int", "Int63n", "Int31n", "Intn", "Float64", "Float32", "Perm", "NormFloat64", "ExpFloat64", "Shuffle", "Seed", "Read3", "Read8", "Read13"}
RandTable(zz) ==
  Single("rand", { [seed |-> s, seq |-> << x, y, z, x >>, par |-> FALSE, n |-> 0, reader |-> FALSE] : s \in {1, 42}, x \in Draws, y \in Draws, z \in {"Int63", "Read3", "Seed"} })
  \cup Single("rand", { [seed |-> s, seq |-> << x, y, z, x, y >>, par |-> FALSE, n |-> 0, reader |-> TRUE] : s \in {0, 1, 42, 2147483647}, x \in {"Read3", "Read8", "Read13"}, y \in {"Read3", "Read8", "Read13"}, z \in {"Read3", "Read8"} })
  \cup Single("rand", { [seed |-> s, seq |-> << x >>, par |-> TRUE, n |-> n, reader |-> FALSE] : s \in {1, 7, 42}, x \in {"Int63", "Uint32", "Uint64", "Int31", "Int", "Float64"}, n \in {64, 400} })
\* several callers of one generator: every method alone (the same values in some order) and beside every other one
ParDraws == Draws \ {"Seed", "Read3", "Read13"}
RandParTable(zz) ==
  Single("rand", { [seed |-> s, seq |-> << x >>, par |-> TRUE, n |-> n, reader |-> FALSE] : s \in {1, 7, 42}, x \in ParDraws, n \in {64, 400} })
  \cup Single("rand", { [seed |-> 5, seq |-> << x, y >>, par |-> TRUE, n |-> 64, reader |-> FALSE] : x \in Draws, y \in Draws })
  \cup Single("rglob", { [what |-> w, n |-> n] : w \in (ParDraws \ {"Read8"}) \cup {"Reader", "Seed", "New"}, n \in {200, 1000} })
Ctors == {<<"ServerError", "server_error">>, <<"InvalidRequest", "invalid_request">>, <<"InvalidScope", "invalid_scope">>, <<"InvalidGrant", "invalid_grant">>, <<"InvalidClient", "invalid_client">>,
          <<"UnauthorizedClient", "unauthorized_client">>, <<"UnsupportedGrantType", "unsupported_grant_type">>, <<"InvalidToken", "invalid_token">>, <<"AuthorizationPending", "authorization_pending">>,
          <<"Slowdown", "slow_down">>, <<"AccessDenied", "access_denied">>, <<"TokenExpired", "token_expired">>, <<"InvalidDPoPProof", "invalid_dpop_proof">>, <<"InvalidRedirectURI", "invalid_redirect_uri">>,
          <<"InvalidClientMetadata", "invalid_client_metadata">>, <<"InvalidSoftwareStatement", "invalid_software_statement">>, <<"UnapprovedSoftwareStatement", "unapproved_software_statement">>,
          <<"InvalidTarget", "invalid_target">>, <<"InsufficientUserAuthentication", "insufficient_user_authentication">>}
ErrTable(zz) == { << Do("rfcerr", [name |-> x[1], code |-> x[2], desc |-> d, state |-> st]), Do("rfcerr", [name |-> y[1], code |-> y[2], desc |-> "", state |-> ""]) >> : x \in Ctors, y \in Ctors, d \in {"", "my own"}, st \in {"", "st-1"} }

(* DPoP prover, URL of a request *)
Urls == {"https://as1.example/", "https://as1.example/a", "https://as1.example/A", "https://as1.example/a/", "https://as1.example/a/b", "https://as1.example/a%2Fb", "https://as1.example/a%2fb", "https://as1.example/a%20b", "https://as1.example/a+b",
         "https://as1.example/a%3Fx", "https://as1.example/a?x=1", "https://as1.example/a?x=2", "https://as1.example/a?", "https://as1.example:443/a", "https://as1.example:8443/a", "http://as1.example/a", "https://as2.example/a", "https://as1.example//a",
         "https://as1.example/a/../a", "https://as1.example/a;b", "https://as1.example/%61", "https://as1.example/a%25"}
ProverTable(zz) ==
  Single("prover", { [htm |-> m, htu |-> u, key |-> k, ser |-> "ok", tok |-> t] :
    m \in {"GET", "POST", "post", "TRACE", "FOO", "PATCH", "DELETE"}, u \in {"T", "https://as1.example/a/b", "https://as1.example/a%20b", "https://as1.example/a%2Fb?c", "https://as1.example/a?b=c", "https://as1.example/a#f", "/relative", "http://as1.example:8080/x", "https://as1.example", "nope"},
    k \in {"k1", "k2", "e384", "rs", "ed"}, t \in {"", "tok-1", "tok-2"} })
  \cup Single("prover", { [htm |-> m, htu |-> u, key |-> "k1", ser |-> x, tok |-> ""] : m \in {"POST", "FOO"}, u \in {"T", "/relative"}, x \in {"err", "nil", "nilptr"} })
  \cup Single("cleanurl", { [tls |-> x, fwd |-> f, host |-> h, target |-> t] : x \in BOOLEAN, f \in {"", "https", "http"}, h \in {"as1.example", "as1.example:8443", "localhost"}, t \in {"/", "/token", "/a/b?c=d&e=f", "/a%20b", "/a%2Fb", "/%7Ea", "/a%3Fb", "/a%25", "//a", "/a;b", "/a%2fb?x", "/a/b?x#y", "/token?"} })
  \cup Single("proofurl", { [pm |-> "GET", rm |-> "GET", purl |-> u, rurl |-> v] : u \in Urls, v \in Urls })
  \cup Single("proofurl", { [pm |-> m, rm |-> n, purl |-> "https://as1.example/a", rurl |-> "https://as1.example/a"] : m \in {"GET", "POST", "HEAD", "PUT"}, n \in {"GET", "POST", "HEAD", "PUT"} })

(* SDK client *)
KBase == [jwks |-> "ok", keys |-> << "k1", "k2" >>, exps |-> "num", exp |-> 300]
NBase == [iss |-> "I1", cli |-> "client-1", aud |-> "urn:aud:1", key |-> "e384", meta |-> "ok"] @@ KBase
KDev == Of("jwks", {"nokeys", "emptykeys", "nullkeys", "null", "object", "list", "notjson", "truncated", "emptybody", "status", "statusok", "statusbad", "err"})
        \cup Of("keys", { <<>>, << "k1" >>, << "e384", "rs", "ed", "k3" >> }) \cup Of("exps", {"none"}) \cup Of("exp", {-300, -1, 0, 1, 600})
NDev == KDev \cup Of("meta", {"null", "notjson", "truncated", "emptybody", "status", "statusok", "statusbad", "err"}) \cup Of("iss", {"I2"}) \cup Of("key", {"k1", "pub", "bad", "none"})
New == Do("sdknew", NBase)
Keys(x) == Do("sdkkeys", x @@ KBase)
CcBase == [assertion |-> "ey.J.x", answer |-> "ok", at |-> "at-1", rt |-> "rt-1", tt |-> "DPoP"]
Answers == {"notjson", "truncated", "emptybody", "status", "statusok", "statusbad", "err"}
IBase == [assertion |-> "ey.J.x", token |-> "tok-1", answer |-> "ok", active |-> TRUE, t_iss |-> "https://as1.example", t_sub |-> "u1", t_aud |-> "urn:aud:1", aud_list |-> FALSE, t_jti |-> "j-1", t_client |-> "c1",
          t_scope |-> "a b", t_jkt |-> "jktA", t_iats |-> "num", t_iat |-> -10, t_nbfs |-> "num", t_nbf |-> -9, t_exps |-> "num", t_exp |-> 100]
IDev == { [t_aud |-> x, aud_list |-> TRUE] : x \in {"urn:aud:1", "urn:aud:1 urn:aud:2"} } \cup Of("assertion", {"", "a b&c=d+e%41"}) \cup Of("token", {"", "t&x=y +%20é", "tok-2"}) \cup Of("answer", Answers) \cup { [active |-> FALSE] } \cup UNION { Of(f, {"", "other é&="}) : f \in {"t_iss", "t_sub", "t_aud", "t_jti", "t_client", "t_scope", "t_jkt"} }
        \cup UNION { Of(f, {"none"}) : f \in {"t_iats", "t_nbfs", "t_exps"} } \cup { [aud_list |-> TRUE] } \cup Of("t_exp", {-1, 0})
SdkTable(zz) ==
  { << Do("sdknew", x) >> : x \in Dev2(NBase, NDev) }
  \cup { << Do("sdknew", x @@ NBase), Keys(y), Adv(d), Keys(z), Keys(y) >> : x \in { [exp |-> e] : e \in {0, 1, 300} } \cup { [exps |-> "none"] }, y \in Dev1([keys |-> << "k3" >>], KDev), z \in { [keys |-> << "ed" >>, exp |-> 5], [jwks |-> "err"], [jwks |-> "nokeys"] }, d \in {0, 1, 299, 300, 301} }
  \cup { << New, Do("sdkcc", x), Do("sdkcc", CcBase) >> : x \in Dev2(CcBase, Of("assertion", {"", "a b&c=d+e%41"}) \cup Of("answer", Answers) \cup Of("at", {"x y"}) \cup Of("rt", {""}) \cup Of("tt", {"Bearer"})) }
  \cup { << New, Do("sdkintro", x) >> : x \in Dev2(IBase, IDev) }
  \cup { << Do("sdknew", [iss |-> i, key |-> k, cli |-> c] @@ NBase), Do("sdkassert", [srvkey |-> j]), Do("sdkassert", [srvkey |-> "e384"]) >> : i \in {"I1", "I2"}, k \in {"e384", "k1", "pub", "bad", "none"}, j \in {"e384", "k1"}, c \in {"client-1", "c 2"} }
\* concurrent callers: with nothing held any more, with a key set held, when only one request succeeds
SdkParTable(zz) ==
  { << Do("sdknew", [exp |-> x] @@ NBase), Adv(d), Do("sdkpar", [n |-> n, once |-> o]), Adv(f), Keys([keys |-> << "ed" >>]) >> : x \in {2, 300}, d \in {1, 2, 3}, n \in {1, 2, 6}, o \in BOOLEAN, f \in {0, 99, 101, 120} }
  \cup { << Do("sdknew", [exps |-> "none"] @@ NBase), Do("sdkpar", [n |-> n, once |-> FALSE]), Do("sdkpar", [n |-> n, once |-> FALSE]) >> : n \in {2, 3, 8} }

(* Messages: every field of every message with typical and extreme values, alone and together, through every pair of encodings *)
MS == INSTANCE Messages
X10(x) == x \o x \o x \o x \o x \o x \o x \o x \o x \o x
Long == X10(X10("ab"))
ValuesOf(f) ==
  CASE f.k = "string" -> {"", "a", "\"<\\\n& '{}", "é€", Long} [] f.k = "bytes" -> {"", "b=", "\n\t\"", Long} [] f.k = "bool" -> {"true", "false"}
    [] f.k = "enum" -> { MS!MReg.enums[f.t][i].n : i \in DOMAIN MS!MReg.enums[f.t] } [] f.k = "message" -> {""} [] f.k = "map" -> {"", "x", Long}
    [] OTHER -> {"0", "1", "127", "128", "16384", "4294967296", "18446744073709551615"}
EnumNo(f, v) == IF f.k # "enum" THEN 0 ELSE MS!MReg.enums[f.t][CHOOSE i \in DOMAIN MS!MReg.enums[f.t] : MS!MReg.enums[f.t][i].n = v].no
ME(t, p, v, key) == LET f == MS!Leaf(t, p) n == Len(p) IN
  [p |-> p, v |-> v, key |-> key, vno |-> EnumNo(f, v), no |-> [i \in 1..n |-> MS!At(t, p, i).no], js |-> [i \in 1..n |-> MS!At(t, p, i).js],
   ks |-> [i \in 1..n |-> MS!At(t, p, i).k], reps |-> [i \in 1..n |-> MS!At(t, p, i).p]]
\* a value of its own for every field
Own(f) == CASE f.k \in {"string", "bytes", "map"} -> "v_" \o f.n [] f.k = "bool" -> "true" [] f.k = "enum" -> MS!MReg.enums[f.t][Len(MS!MReg.enums[f.t])].n [] f.k = "message" -> "" [] OTHER -> ToString(1000 + f.no)
KeyOf(f) == IF f.k = "map" THEN "k_" \o f.n ELSE ""
Subs(t, p) == LET ft == MS!Leaf(t, p).t IN [i \in DOMAIN MS!FieldsOf(ft) |-> ME(t, Append(p, MS!FieldsOf(ft)[i].n), Own(MS!FieldsOf(ft)[i]), KeyOf(MS!FieldsOf(ft)[i]))]
FieldSettings(t, f, deep) == << ME(t, <<f.n>>, Own(f), KeyOf(f)) >> \o (IF f.k = "message" /\ f.p # "repeated" /\ deep THEN Subs(t, <<f.n>>) ELSE <<>>)
                             \o (IF f.p = "repeated" /\ f.k # "message" THEN << ME(t, <<f.n>>, "", ""), ME(t, <<f.n>>, Long, "") >> ELSE <<>>)
                             \o (IF f.p = "map" THEN << ME(t, <<f.n>>, "", ""), ME(t, <<f.n>>, Long, "fr") >> ELSE <<>>)
RECURSIVE AllFrom(_, _, _, _)
AllFrom(t, i, member, deep) == IF i > Len(MS!FieldsOf(t)) THEN <<>>
  ELSE LET f == MS!FieldsOf(t)[i] IN (IF f.of = "" \/ f.n = member THEN FieldSettings(t, f, deep) ELSE <<>>) \o AllFrom(t, i + 1, member, deep)
Members(t) == LET M == { f.n : f \in { MS!FieldsOf(t)[i] : i \in DOMAIN MS!FieldsOf(t) } } IN { n \in M : MS!Fld(t, n).of # "" }
OneEach(q) == \A i, j \in DOMAIN q : i # j => q[i].p # q[j].p
Codecs(q, oneof) == { <<"vt", "vt">>, <<"vt", "pb">>, <<"pb", "vt">>, <<"json", "json">>, <<"gojson", "gojson">>, <<"wire", "vt">>, <<"wire", "pb">> }
  \cup (IF oneof THEN {} ELSE { <<"proto", "json">>, <<"camel", "json">>, <<"doc", "gojson">> })
MsgSeq(t, q, oneof) == SetToSeq({ Do("msg", [type |-> t, set |-> q, enc |-> x[1], dec |-> x[2], unk |-> u, cut |-> 0 - 1]) : x \in Codecs(q, oneof), u \in BOOLEAN }
                               \ { Do("msg", [type |-> t, set |-> q, enc |-> x[1], dec |-> x[2], unk |-> TRUE, cut |-> 0 - 1]) : x \in { y \in Codecs(q, oneof) : y[2] \notin {"vt", "pb"} } })
Rev(t, q) == IF OneEach(q) THEN << Do("msg", [type |-> t, set |-> q, enc |-> "rev", dec |-> "vt", unk |-> FALSE, cut |-> 0 - 1]) >> ELSE <<>>
Conflict(t, f, g) == << ME(t, <<f.n>>, Own(f), ""), ME(t, <<g.n>>, Own(g), ""), ME(t, <<f.n>>, Own(f), "") >>
MsgTable(zz) ==
  UNION { { MsgSeq(t, <<>>, FALSE) }
          \cup { MsgSeq(t, AllFrom(t, 1, m, TRUE), FALSE) \o Rev(t, AllFrom(t, 1, m, TRUE)) : m \in Members(t) \cup {""} }
          \cup UNION { { MsgSeq(t, << ME(t, <<f.n>>, v, KeyOf(f)) >>, FALSE) : v \in ValuesOf(f) }
                        \* the last value counts
                        \cup (IF f.p \in {"single", "optional", "oneof"} /\ f.k # "message" THEN { MsgSeq(t, << ME(t, <<f.n>>, Own(f), ""), ME(t, <<f.n>>, v, "") >>, TRUE) : v \in ValuesOf(f) } ELSE {})
                        \cup (IF f.p = "repeated" /\ f.k = "message" THEN { MsgSeq(t, Subs(t, <<f.n>>), FALSE), MsgSeq(t, Subs(t, <<f.n>>) \o Subs(t, <<f.n>>), FALSE) } ELSE {})
                        \cup (IF f.k = "message" /\ f.p # "repeated" /\ Members(f.t) # {} THEN { MsgSeq(t, << ME(t, <<f.n, x>>, "", "") >>, FALSE) : x \in Members(f.t) } ELSE {})
                        : f \in { MS!FieldsOf(t)[i] : i \in DOMAIN MS!FieldsOf(t) } }
          \cup { MsgSeq(t, Conflict(t, MS!Fld(t, x), MS!Fld(t, y)), TRUE) : x, y \in Members(t) }
          \cup { << Do("msg", [type |-> t, set |-> AllFrom(t, 1, "", FALSE), enc |-> "vt", dec |-> d, unk |-> FALSE, cut |-> c]) >> : d \in {"vt", "pb"}, c \in 0..(IF Thorough THEN 400 ELSE 60) }
          : t \in MS!Types }
  \cup { MsgSeq("oidc.token.v1.Actor", << ME("oidc.token.v1.Actor", p, "x", ""), ME("oidc.token.v1.Actor", <<"subject">>, "top", "") >>, FALSE) :
          p \in { <<"act", "subject">>, <<"act", "act", "issuer">>, <<"act", "act", "act", "act", "client_id">> } }
  \cup UNION { { << Do("enum", [type |-> t, no |-> n]) >> : n \in 0..9 } : t \in DOMAIN MS!MReg.enums }
  \cup UNION { { << Do("rpc", [svc |-> s, method |-> m.n, in |-> m.in, set |-> q, rset |-> w, mode |-> o, icpt |-> c]) >> :
                  q \in { <<>>, AllFrom(m.in, 1, "", FALSE) }, w \in { <<>>, AllFrom(m.out, 1, "", TRUE) }, o \in {"ok", "err", "unimpl"}, c \in BOOLEAN }
                : <<s, m>> \in UNION { { <<s, MS!MReg.services[s][i]>> : i \in DOMAIN MS!MReg.services[s] } : s \in MS!Services } }

(* Long-lived objects: the signers, verifiers, ... of the harness serve all the cases of a behaviour. Here a case that succeeds comes before and after every deviation; *)
(* RaceLive makes calls at the same time. *)
Around(op, B, D) == LET q == SetToSeq({ d @@ B : d \in D }) IN [i \in 1..(2 * Len(q) + 1) |-> Do(op, IF i % 2 = 1 THEN B ELSE q[i \div 2])]
GiDev == TDev \cup Of("ser", {"fail", "nil", "nilptr"})
JCraftB == [crafted |-> TRUE, content |-> JCont] @@ JDec
JCraftD == { [content |-> (x @@ JCont)] : x \in JContDev } \cup JDecDev
SDev == { [pub |-> TRUE] } \cup Of("kid", {"", "k", "é"}) \cup Of("prov", {"err", "nil"}) \cup Of("claims", {"nil", "chan"}) \cup Of("c", {"", "€ ]}", "long value long value long value"}) \cup Of("key", {"k2", "k3"})
VgBase == [uuid |-> "same", src |-> "ok", via |-> "at", key |-> "key one"]
VgDev == Of("via", {"rt", "pt", "other", "nil"}) \cup Of("src", {"err"}) \cup { [via |-> "raw", pfx |-> p] : p \in {"-", "a", "sldat", "é"} } \cup Of("key", {"key two"})
LiveCases(op) ==
  CASE op = "pkj" -> <<PkjBase, PkjDev>> [] op = "att" -> <<AttBase, AttDev>> [] op = "vclaims" -> <<VBase, VDev>> [] op = "vemb" -> <<VEmb, VEmbDev>> [] op = "vset" -> <<VBase, VDev>>
    [] op = "jarmdec" -> <<JCraftB, JCraftD>> [] op = "jarmenc" -> <<JEnc, JEncDev \cup { JErr }>> [] op = "reqobj" -> <<RBase, RDev>> [] op = "gintro" -> <<TBase, GiDev>> [] op = "vgen" -> <<VgBase, VgDev>>
LiveOps == {"pkj", "att", "vclaims", "vemb", "vset", "jarmdec", "jarmenc", "reqobj", "gintro", "vgen"}
LiveSets == { <<x, LiveCases(x)[1], LiveCases(x)[2]>> : x \in LiveOps } \cup { <<"gtok", [kind |-> k, ser |-> f] @@ TBase, TDev>> : k \in {"at", "rt"}, f \in {"jwt", "cwt"} } \cup { <<"gtok", CaBase, CaDev>> }
            \cup { <<"prover", [htm |-> "POST", htu |-> "T", key |-> "k1", ser |-> "ok", tok |-> "tok-1"], Of("tok", {"", "tok-2"}) \cup Of("htm", {"GET", "FOO"}) \cup Of("htu", {"https://as1.example/a/b", "nope"}) \cup Of("key", {"k2", "e384"}) \cup Of("ser", {"err", "nil"})>>,
                   <<"pair", [sector |-> "https://one.example", subject |-> "u1", salt |-> "0123456789abcdef", slen |-> 32], Of("sector", {"https://two.example", "N.4000"}) \cup Of("subject", {"u2", "u3", "", "N.300"}) \cup Of("slen", {16, 64, 65})>> }
            \cup { <<"att", AttBaseA, AttDevA>> } \cup { <<"sign", [w |-> w, form |-> f] @@ SBase, SDev>> : w \in {"at", "rt", "req", "jarm", "dpop", "ca", "intro"}, f \in {"jwt", "cwt"} }
LiveTable(zz) == { Around(x[1], x[2], x[3]) : x \in LiveSets }
RaceLive(cs) == [op |-> "race", par |-> cs, sched |-> <<>>, n |-> 1]
\* distinct successes, a success and a deviation, two deviations
LiveRaces(op, B, D) == LET q == SetToSeq({ d @@ B : d \in D }) IN [i \in DOMAIN q |-> RaceLive(<< Do(op, B), Do(op, q[i]), Do(op, q[1 + ((i * 7) % Len(q))]), Do(op, B) >>)]
LiveParTable(zz) == { LiveRaces(x[1], x[2], x[3]) : x \in LiveSets }

---------------------------------------------------------------------------
Macros ==
  CASE Table = "pkj" -> PkjTable(0) [] Table = "att" -> AttTable(0) [] Table = "verify" -> VerifyTable(0) [] Table = "sign" -> SignTable(0) [] Table = "encrypt" -> EncryptTable(0) [] Table = "jarm" -> JarmTable(0)
    [] Table = "reqobj" -> ReqTable(0) [] Table = "vt" -> VtTable(0) [] Table = "pkce" -> PkceTable(0) [] Table = "pair" -> PairTable(0) [] Table = "tokens" -> TokenTable(0) [] Table = "intro" -> IntroTable(0)
    [] Table = "gen" -> GenTable(0) [] Table = "profile" -> ProfileTable(0) [] Table = "types" -> TypesTable(0) [] Table = "rand" -> RandTable(0) [] Table = "randpar" -> RandParTable(0) [] Table = "errors" -> ErrTable(0) [] Table = "prover" -> ProverTable(0)
    [] Table = "live" -> LiveTable(0) [] Table = "livepar" -> LiveParTable(0) [] Table = "messages" -> MsgTable(0) [] Table = "sdk" -> SdkTable(0) [] Table = "sdkpar" -> SdkParTable(0)

VARIABLE m
Init == m \in Macros
Next == UNCHANGED m
Emit == PrintT("MACRO " \o ToJson(m))
=============================================================================
