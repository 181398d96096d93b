------------------------------ MODULE SolidGen ------------------------------
(***************************************************************************)
(* Exploration of the specification: TLC visits every reachable state of a  *)
(* bounded slice (commands over a small alphabet), checks the invariants    *)
(* behind the properties on it, and prints, for every state, the shortest   *)
(* sequence of commands reaching it, the commands that leave it unchanged   *)
(* and those that change it. The printed behaviours are executed by the     *)
(* implementation and validated by SolidTrace.                              *)
(***************************************************************************)
EXTENDS Solid, Json, IOUtils, SequencesExt, FiniteSetsExt

RegFile == JsonDeserialize("registry.json")
GenReg == RegFile.clients
GenResources == { RegFile.resources[i] : i \in DOMAIN RegFile.resources }

Slice == IOEnv.VERIF_SLICE
Thorough == IOEnv.VERIF_TIER = "thorough"

VARIABLES s,      \* state of the specification
          g,      \* ghost history: what succeeded so far
          path    \* commands that led here (not part of the view)
vars == <<s, g, path>>
View == <<s, g>>

---------------------------------------------------------------------------
(* Commands are records of strings; absent fields have defaults.            *)

F(c, f, d) == IF f \in DOMAIN c THEN (IF c[f] = "-" THEN "" ELSE c[f]) ELSE d
Has(c, f) == f \in DOMAIN c /\ c[f] # "-"
BlankOr(v) == IF v = "blank" THEN "" ELSE v

Words(v) ==
  CASE v = "" -> <<>>
    [] v = "openid profile" -> <<"openid", "profile">>
    [] v = "openid offline_access" -> <<"openid", "offline_access">>
    [] v = "openid offline_access profile" -> <<"openid", "offline_access", "profile">>
    [] v = "profile openid" -> <<"profile", "openid">>
    [] v = "openid admin" -> <<"openid", "admin">>
    [] v = "a b" -> <<"a", "b">>
    [] v = "b a" -> <<"b", "a">>
    [] OTHER -> <<v>>

Num(v) == CASE v \in {"31", "w31", "q31"} -> 31 [] v = "32" -> 32 [] v \in {"7", "w7"} -> 7 [] v = "8" -> 8 [] v = "" -> 0 [] OTHER -> 40
VerLen(v) == CASE v = "" -> 0 [] v \in {"v1.42", "eu.42"} -> 42 [] v \in {"v1.129", "eu.129"} -> 129 [] v \in {"v1.128", "eu.128"} -> 128 [] OTHER -> 43

DefRedirect(cli) == IF (cli \in DOMAIN Reg) /\ Len(Reg[cli].redirects) > 0 THEN Reg[cli].redirects[1] ELSE "https://shared.example/cb"
Redirect(v, cli) ==
  CASE v = "r0" -> DefRedirect(cli)
    [] v = "r1" -> IF (cli \in DOMAIN Reg) /\ Len(Reg[cli].redirects) > 1 THEN Reg[cli].redirects[2] ELSE DefRedirect(cli)
    [] OTHER -> v

ReqOf(c) ==
  LET q == IF "q" \in DOMAIN c THEN c.q ELSE <<>>
      id == F(q, "client", F(c, "cli", "c1"))
      st == IF Has(q, "state") THEN Num(q.state) ELSE IF "state" \in DOMAIN q THEN 0 ELSE 32
      no == IF Has(q, "nonce") THEN Num(q.nonce) ELSE IF "nonce" \in DOMAIN q THEN 0 ELSE 8
      sc == F(q, "scope", "openid profile") IN
  [state |-> "s", state_len |-> st, nonce |-> "n", nonce_len |-> no, scope |-> sc, scope_w |-> Words(sc),
   aud |-> F(q, "aud", "urn:aud:1"), client_id |-> id, redirect |-> Redirect(F(q, "redirect", "r0"), id), redirect_valid |-> TRUE,
   rtype |-> F(q, "rtype", "code"), chal |-> F(q, "chal", "v1"), chal_len |-> 43, method |-> F(q, "method", "S256"),
   mode_set |-> Has(q, "mode"), mode |-> F(q, "mode", ""), prompt_set |-> Has(q, "prompt"), prompt |-> F(q, "prompt", ""), extra |-> ""]

GrantName(v) == CASE v = "ac" -> GAuthzCode [] v = "cc" -> GClientCred [] v = "dc" -> GDevice [] v = "rt" -> GRefresh [] v = "xt" -> GExchange [] OTHER -> v

Args(c) ==
  LET iss == F(c, "iss", "I1") cli == F(c, "cli", "c1") cs == ~("cli" \in DOMAIN c /\ c.cli = "-") IN
  CASE c.op = "push" -> [iss |-> iss, cli_set |-> cs, cli |-> cli, rset |-> TRUE, nested |-> FALSE, req |-> ReqOf(c)]
    [] c.op = "authorize" -> [iss |-> iss, sub |-> F(c, "sub", "u1"), cli_set |-> cs, cli |-> cli, rset |-> TRUE,
                              ref_set |-> Has(c, "ref"), ref |-> F(c, "ref", ""), req |-> ReqOf(c)]
    [] c.op = "peek" -> [iss |-> iss, code |-> F(c, "code", "")]
    [] c.op = "token" ->
         LET gr == GrantName(F(c, "grant", "ac")) v == F(c, "ver", "v1") sc == BlankOr(F(c, "scope", "")) IN
         [rset |-> TRUE, iss |-> iss, iss_valid |-> iss \notin {"", "bad", "rel"}, cli_set |-> cs, cli |-> cli, grant |-> gr,
          payload |-> IF "payload" \in DOMAIN c THEN GrantName(F(c, "payload", "")) ELSE gr,
          cnf_set |-> Has(c, "jkt"), jkt |-> F(c, "jkt", ""), scope_set |-> Has(c, "scope"), scope |-> sc, scope_w |-> Words(sc),
          aud_set |-> Has(c, "aud"), aud |-> BlankOr(F(c, "aud", "")), code |-> F(c, "code", ""), code_runes |-> 10, ver_len |-> VerLen(v),
          ver_s256 |-> v, redirect |-> Redirect(F(c, "redirect", "r0"), cli), dc |-> F(c, "dc", ""), rt |-> F(c, "rt", ""),
          st |-> F(c, "st", ""), st_type |-> F(c, "stt", ATType)]
    [] c.op \in {"introspect", "revoke"} ->
         [rset |-> TRUE, iss |-> iss, iss_valid |-> iss \notin {"", "bad", "rel"}, cli_set |-> cs, cli |-> cli, val |-> F(c, "val", "")]
    [] c.op = "devauth" ->
         LET sc == BlankOr(F(c, "scope", "")) IN
         [rset |-> TRUE, iss |-> iss, cli |-> cli, scope_set |-> Has(c, "scope"), scope |-> sc, scope_w |-> Words(sc),
          aud_set |-> Has(c, "aud"), aud |-> BlankOr(F(c, "aud", ""))]
    [] c.op = "approve" -> [rset |-> TRUE, iss |-> iss, uc |-> F(c, "uc", ""), sub |-> F(c, "sub", "u1")]
    [] c.op = "proof" ->
         LET k == F(c, "key", "k1") IN
         [htm |-> "POST", htm_valid |-> TRUE, htu |-> F(c, "htu", "T"), htu_valid |-> TRUE, parse_ok |-> TRUE, typ |-> "dpop+jwt", key_ok |-> TRUE,
          sig_ok |-> F(c, "dev", "") # "flipsig", claims_ok |-> TRUE, jti |-> F(c, "jti", "jti-1"), c_htm |-> "POST", c_htu |-> F(c, "chtu", "T"),
          iat |-> (IF "iat" \in DOMAIN c THEN s.now + c.iat ELSE s.now), tok_set |-> Has(c, "tok"),
          ath_ok |-> Has(c, "tok") /\ F(c, "ath", "") = F(c, "tok", ""), cnf_set |-> Has(c, "cnf"), cnf |-> F(c, "cnf", ""), thumb |-> k]
    [] c.op = "store" -> c.c
    [] OTHER -> [d |-> c.d]

---------------------------------------------------------------------------
(* The response the specification gives to a command: identifiers are named *)
(* after the order of their creation, as in the scripts.                    *)

Ref(kind, n) == kind \o "#" \o ToString(n + 1)
CountTok(type) == Cardinality({ k \in DOMAIN s.tok : s.tok[k].type = type })

Base == [ok |-> FALSE, err |-> "refused", panic |-> "", cred |-> FALSE]
Good == [ok |-> TRUE, err |-> "", panic |-> "", cred |-> FALSE]
TokResp(x, value, id) == x @@ [value |-> value, id |-> id]
NoTokResp == [value |-> "", id |-> ""]

Respond(e) ==
  IF Failing(Guards(s, e)) # {} THEN Base
  ELSE CASE e.op = "push" -> Good @@ [uri |-> Ref("uri", Cardinality(DOMAIN s.par)), expires |-> 60, iss |-> e.a.iss]
         [] e.op = "authorize" ->
              LET q == Normal(AuthReq(s, e)) IN
              Good @@ [code |-> Ref("code", Cardinality(DOMAIN s.code)), state |-> q.state, redirect |-> q.redirect, client |-> q.client_id,
                       mode |-> q.mode, iss |-> e.a.iss, expires |-> 60]
         [] e.op = "token" ->
              LET x == GrantExp(s, e) na == CountTok("AT") nr == CountTok("RT") IN
              Good @@ [at_set |-> x.at, at |-> IF x.at THEN TokResp(x.atx, Ref("at", na), Ref("atid", na)) ELSE NoTokResp,
                       rt_set |-> x.rt, rt |-> IF x.rt THEN TokResp(x.rtx, Ref("rt", nr), Ref("rtid", nr)) ELSE NoTokResp]
         [] e.op = "devauth" -> Good @@ [dc |-> Ref("dc", Cardinality(DOMAIN s.dev)), uc |-> Ref("uc", Cardinality(DOMAIN s.dev)), expires |-> 120, iss |-> e.a.iss]
         [] e.op = "proof" -> Good @@ [thumb |-> e.a.thumb]
         [] e.op = "store" ->
              LET x == IF e.a.kind = "cli" /\ e.a.f = "reg" THEN Ref("cli", Cardinality({ k \in DOMAIN s.mem : k[2] = "cli" })) ELSE "" IN
              Good @@ StResp(s, e) @@ [id |-> x, obj_id |-> x]
         [] OTHER -> Good

EventOf(c) == LET e == [op |-> c.op, a |-> Args(c), f |-> [at |-> "", alter |-> ""]] IN e @@ [r |-> Respond(e)]

---------------------------------------------------------------------------
(* Ghost history, compared with the state by the invariants                 *)

NoGhost == [uses |-> <<>>, root |-> <<>>, dead |-> {}, appr |-> <<>>, st |-> <<>>]
Bump(f, k) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = @ + 1] ELSE (k :> 1) @@ f
Root(k) == IF k \in DOMAIN g.root THEN g.root[k] ELSE [sub |-> "?", jkt |-> "?", client |-> "?", words |-> {}]

Ghost(e) ==
  IF ~e.r.ok THEN g
  ELSE CASE e.op = "authorize" ->
              LET g1 == IF e.a.ref_set THEN [g EXCEPT !.uses = Bump(@, <<e.a.iss, e.a.ref>>)] ELSE g
                  q == AuthReq(s, e) IN
              [g1 EXCEPT !.root = (<<e.a.iss, e.r.code>> :> [sub |-> e.a.sub, jkt |-> "", client |-> q.client_id, words |-> Range(EffWords(q))]) @@ @]
         [] e.op = "approve" -> [g EXCEPT !.uses = Bump(@, <<e.a.iss, e.a.uc>>), !.appr = (<<e.a.iss, e.a.uc>> :> e.a.sub) @@ @]
         [] e.op = "revoke" -> [g EXCEPT !.dead = @ \cup {<<e.a.iss, e.a.val>>}]
         [] e.op = "token" ->
              LET src == CASE e.a.grant = GAuthzCode -> <<e.a.iss, e.a.code>> [] e.a.grant = GDevice -> <<e.a.iss, e.a.dc>>
                           [] e.a.grant = GRefresh -> <<e.a.iss, e.a.rt>> [] e.a.grant = GExchange -> <<e.a.iss, e.a.st>> [] OTHER -> <<"", "">>
                  r0 == CASE e.a.grant = GAuthzCode -> [Root(src) EXCEPT !.jkt = e.a.jkt]
                          [] e.a.grant = GDevice -> [sub |-> g.appr[<<e.a.iss, s.dev[src].uc>>], jkt |-> e.a.jkt, client |-> s.dev[src].client,
                                                     words |-> Range(s.dev[src].scope_w)]
                          [] e.a.grant = GClientCred -> [sub |-> e.a.cli, jkt |-> e.a.jkt, client |-> e.a.cli, words |-> Range(e.a.scope_w)]
                          [] OTHER -> Root(src)
                  r1 == IF e.a.grant = GExchange THEN [r0 EXCEPT !.client = e.a.cli] ELSE r0
                  g1 == IF e.a.grant = GAuthzCode \/ (e.a.grant = GRefresh /\ e.r.rt_set) THEN [g EXCEPT !.uses = Bump(@, src)] ELSE g
                  g2 == IF e.a.grant = GRefresh /\ e.r.rt_set THEN [g1 EXCEPT !.dead = @ \cup {src}] ELSE g1
                  g3 == IF e.r.at_set THEN [g2 EXCEPT !.root = (<<e.a.iss, e.r.at.value>> :> r1) @@ @] ELSE g2
              IN IF e.r.rt_set THEN [g3 EXCEPT !.root = (<<e.a.iss, e.r.rt.value>> :> r1) @@ @] ELSE g3
         [] e.op = "store" ->
              LET key(f) == <<f, e.a.kind, e.a.iss, e.a.id>> IN
              (CASE e.a.f = "reg" /\ e.a.kind = "jti" ->
                      LET at == <<"at", e.a.id>> g1 == [g EXCEPT !.st = (at :> s.now) @@ @] IN
                      IF at \in DOMAIN g.st /\ s.now - g.st[at] <= 60 THEN [g1 EXCEPT !.st = Bump(@, key("again"))] ELSE g1
                 [] e.a.f = "del" /\ e.a.kind = "jti" -> [g EXCEPT !.st = [x \in DOMAIN @ \ {<<"at", e.a.id>>} |-> @[x]]]
                 [] e.a.f = "reg" \/ (e.a.f = "del" /\ e.a.kind # "dev") \/ (e.a.f = "val" /\ e.a.status # "PENDING") \/ e.a.f = "revoke" -> [g EXCEPT !.st = Bump(@, key(e.a.f))]
                 [] OTHER -> g)
         [] OTHER -> g

(* Invariants *)
\* never more deletions, approvals or revocations than registrations; an identifier is registered once per minute
SingleWin == \A k \in DOMAIN g.st : k[1] \in {"del", "val", "revoke", "again"} =>
               LET r == <<"reg", k[2], k[3], k[4]>> IN r \in DOMAIN g.st /\ g.st[k] <= g.st[r]                       \* H01
SingleUse == \A k \in DOMAIN g.uses : g.uses[k] <= 1                                            \* A03, B01, C02, D02
DeadForever == \A k \in g.dead : k \in DOMAIN s.tok /\ s.tok[k].status # "ACTIVE"               \* D02, D03
RootKept == \A k \in DOMAIN s.tok : /\ s.tok[k].sub = Root(k).sub /\ s.tok[k].client = Root(k).client \* B03, C01, C02, D01, D05
                                    /\ Range(s.tok[k].scope_w) \subseteq Root(k).words           \* D05
KeyKept == \A k \in DOMAIN s.tok : s.tok[k].jkt = Root(k).jkt                                   \* E03
HomeIssuer == \A k \in DOMAIN s.tok : s.tok[k].iss = k[1]                                       \* D10
Windows == \A k \in DOMAIN s.tok : LET t == s.tok[k] IN                                         \* D08
             t.nbf = t.iat + 1 /\ t.exp - t.iat <= (IF t.type = "RT" THEN 604800 ELSE 3600)
OfflineOnly == \A k \in DOMAIN s.tok : s.tok[k].type = "RT" => HasWord(s.tok[k].scope_w, "offline_access") \* B03, C01, A02, D06
Invariants == SingleUse /\ DeadForever /\ RootKept /\ KeyKept /\ HomeIssuer /\ Windows /\ OfflineOnly /\ SingleWin

---------------------------------------------------------------------------
(* Slices *)

C(op) == [op |-> op]
Refs(kind, n) == { kind \o "#" \o ToString(i) : i \in 1..n }
NPar == Cardinality(DOMAIN s.par)
NCode == Cardinality(DOMAIN s.code)
NDev == Cardinality(DOMAIN s.dev)
NAt == CountTok("AT")
NRt == CountTok("RT")
Adv(ds) == { [op |-> "advance", d |-> d] : d \in ds }
Lim(n, S) == IF n THEN S ELSE {}

\* pushed requests: use, reuse, foreign use, expiry
ParCmds ==
  Lim(NPar < 2, { [op |-> "push", cli |-> "c1", iss |-> i, q |-> [scope |-> "openid profile"]] : i \in {"I1", "I2"} })
  \cup Lim(NPar < 2, { [op |-> "push", cli |-> "c2", iss |-> "I1", q |-> [client |-> x]] : x \in {"c1", "c2"} })
  \cup { [op |-> "authorize", iss |-> i, cli |-> c, ref |-> r, q |-> [scope |-> "openid offline_access", prompt |-> "consent"]]
         : i \in {"I1", "I2"}, c \in {"c1", "c2", "-"}, r \in Refs("uri", NPar) \cup {"uri#9", "urn:solid:AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"} }
  \cup { [op |-> "peek", code |-> r, iss |-> "I1"] : r \in Refs("code", NCode) }
  \cup Adv({60, 1})

\* authorization codes
CodeCmds ==
  Lim(NCode < 2, { [op |-> "authorize", cli |-> "c1", sub |-> "u1", q |-> [scope |-> sc, prompt |-> "consent", redirect |-> "r1"]]
                   : sc \in {"openid", "openid offline_access"} })
  \cup Lim(NCode < 2, { [op |-> "authorize", cli |-> "c2", sub |-> "u2", q |-> [scope |-> "a b", chal |-> "v2", redirect |-> "r1"]] })
  \cup { [op |-> "token", grant |-> "ac", iss |-> i, cli |-> c, code |-> r, redirect |-> rd, ver |-> v]
         : i \in {"I1", "I2"}, c \in {"c1", "c2"}, r \in Refs("code", NCode) \cup {"code#9"},
           rd \in {"https://shared.example/cb", "r0"}, v \in {"v1", "v2"} }
  \cup { [op |-> "token", grant |-> "ac", cli |-> c, code |-> r, redirect |-> "https://shared.example/cb", ver |-> v]
         : c \in {"c8", "c11", "c10"}, r \in Refs("code", NCode), v \in {"v1", "v1.42", "v1.129", "-"} }
  \cup { [op |-> "introspect", val |-> r] : r \in Refs("at", NAt) \cup Refs("rt", NRt) }
  \cup Adv({59, 1})

\* device flow
DevCmds ==
  Lim(NDev < 2, { [op |-> "devauth", cli |-> c, iss |-> i, scope |-> sc] : c \in {"c1"}, i \in {"I1", "I2"}, sc \in {"openid offline_access"} })
  \cup Lim(NDev < 2, { [op |-> "devauth", cli |-> c, iss |-> "I1", scope |-> "a b", aud |-> "urn:aud:1"] : c \in {"c5", "c3"} })
  \cup { [op |-> "approve", iss |-> i, uc |-> r, sub |-> u] : i \in {"I1", "I2"}, r \in Refs("uc", NDev) \cup {"dc#1"}, u \in {"u1", "u2"} }
  \cup Lim(NAt < 2, { [op |-> "token", grant |-> "dc", iss |-> i, cli |-> c, dc |-> r] : i \in {"I1", "I2"}, c \in {"c1", "c5", "c2"}, r \in Refs("dc", NDev) \cup {"uc#1"} })
  \cup Adv({119, 1})

\* tokens: refresh, rotation, revocation, exchange, introspection
TokInit == << [op |-> "authorize", cli |-> "c1", sub |-> "u1", q |-> [scope |-> "openid offline_access", prompt |-> "consent"]],
              [op |-> "token", grant |-> "ac", cli |-> "c1", code |-> "code#1"] >>
TokCmds ==
  Lim(NAt < 3, { [op |-> "token", grant |-> "rt", cli |-> c, iss |-> i, rt |-> r]
                 : c \in {"c1", "c2"}, i \in {"I1", "I2"}, r \in Refs("rt", NRt) \cup {"at#1", "rt#9"} })
  \cup Lim(NAt < 3, { [op |-> "token", grant |-> "xt", cli |-> c, iss |-> i, st |-> r] : c \in {"c9", "c1"}, i \in {"I1", "I2"}, r \in Refs("at", NAt) \cup {"rt#1"} })
  \cup { [op |-> "revoke", cli |-> c, iss |-> i, val |-> r] : c \in {"c1", "c9"}, i \in {"I1", "I2"}, r \in Refs("at", NAt) \cup Refs("rt", NRt) }
  \cup { [op |-> "introspect", cli |-> c, iss |-> i, val |-> r] : c \in {"c1", "c2"}, i \in {"I1", "I2"}, r \in Refs("at", NAt) \cup Refs("rt", NRt) \cup {"at#9"} }
  \cup Adv({60, 3540, 601200})

\* key binding
KeyInit == << [op |-> "authorize", cli |-> "c1", sub |-> "u1", q |-> [scope |-> "openid offline_access", prompt |-> "consent"]] >>
KeyCmds ==
  { [op |-> "token", grant |-> "ac", cli |-> "c1", code |-> "code#1", jkt |-> j] : j \in {"jktA", "-"} }
  \cup Lim(NAt < 4, { [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> r, jkt |-> j] : r \in Refs("rt", NRt), j \in {"jktA", "jktB", "-"} })
  \cup Lim(NAt < 4, { [op |-> "token", grant |-> "xt", cli |-> "c9", st |-> r, jkt |-> j] : r \in Refs("at", NAt), j \in {"jktA", "jktB", "-"} })
  \cup Lim(NAt < 4, { [op |-> "token", grant |-> "cc", cli |-> "c4", jkt |-> j] : j \in {"jktA", "-"} })
  \cup { [op |-> "introspect", val |-> r] : r \in Refs("at", NAt) \cup Refs("rt", NRt) }
  \cup Adv({601201})

\* proofs
ProofCmds ==
  { [op |-> "proof", jti |-> j, key |-> k, iat |-> i, htu |-> u, chtu |-> u] : j \in {"j1", "j2"}, k \in {"k1", "k2"}, i \in {0, 15, -15, 16, -16}, u \in {"T", "R"} }
  \cup { [op |-> "proof", jti |-> j, chtu |-> "R"] : j \in {"j1", "j2"} }
  \cup { [op |-> "proof", jti |-> j, dev |-> "flipsig"] : j \in {"j1", "j2"} }
  \cup { [op |-> "proof", jti |-> j, tok |-> "tokA", ath |-> a, cnf |-> k] : j \in {"j1", "j2"}, a \in {"tokA", "tokB"}, k \in {"k1", "k2"} }
  \cup Adv({14, 1, 30})

\* in-memory stores used directly; I3 extends I1 by "/x": the concatenations with identifiers collide
St(kind, f, iss, id) == [op |-> "store", c |-> [kind |-> kind, f |-> f, iss |-> iss, id |-> id, id2 |-> "", v |-> "", status |-> "", sexp |-> 0, nil |-> FALSE]]
StX(c, x) == [c EXCEPT !.c = x @@ @]
StKeys == { <<"I1", "p">>, <<"I1", "/xp">>, <<"I3", "p">> }
StMapCmds(kind) ==
  UNION { { StX(St(kind, "reg", k[1], k[2]), [v |-> v]) : v \in (IF k = <<"I1", "p">> THEN {"v1", "v2"} ELSE {"v1"}) } \cup { St(kind, f, k[1], k[2]) : f \in {"get", "del"} } : k \in StKeys }
  \cup Adv({60, 1})
StDevKeys == { <<"I1", "u", "d">>, <<"I1", "/xu", "/xd">>, <<"I3", "u", "d">> }
StDevCmds ==
  UNION { { StX(St("dev", "reg", k[1], k[2]), [v |-> "v1", id2 |-> k[3], status |-> "PENDING"]) }
          \cup { StX(St("dev", "val", k[1], k[2]), [v |-> "v2", id2 |-> k[3], status |-> x, sexp |-> 77]) : x \in (IF k[2] = "/xu" THEN {"VALIDATED"} ELSE {"VALIDATED", "PENDING"}) }
          \cup { St("dev", f, k[1], k[2]) : f \in {"getu", "del"} } \cup { St("dev", "getd", k[1], k[3]) } : k \in StDevKeys }
  \cup Adv({119, 1})
StTokKeys == { <<"I1", "t", "w">>, <<"I1", "/xt", "/xw">>, <<"I3", "t", "w">> }
StTokCmds ==
  UNION { { StX(St("tok", "reg", k[1], k[2]), [v |-> v, id2 |-> k[3], status |-> "ACTIVE"]) : v \in (IF k[2] = "/xt" THEN {"v1"} ELSE {"v1", "v2"}) }
          \cup { St("tok", f, k[1], k[2]) : f \in {"get", "del", "revoke"} } \cup { St("tok", "getv", k[1], x) : x \in {k[2], k[3]} } : k \in StTokKeys }
  \cup { StX(St("tok", "reg", "I1", "t"), [nil |-> TRUE]) } \cup Adv({1000000})
StJtiCmds == { St("jti", f, "", id) : f \in {"reg", "exists", "del"}, id \in {"j1", "j2", "J1"} } \cup Adv({59, 60, 1})
NCli == Cardinality({ k \in DOMAIN s.mem : k[2] = "cli" })
StCliCmds == Lim(NCli < 4, { StX(St("cli", "reg", "", n), [v |-> v]) : n \in {"App One", "APP ONE", "élan", "other"}, v \in {"v1"} })
  \cup { St("cli", "get", "", r) : r \in Refs("cli", NCli) \cup {"cli#9", "App One"} } \cup { St("cli", "getn", "", n) : n \in {"app one", "ÉLAN", "Other", "nobody"} }
  \cup { St("res", "get", "", r) : r \in {"urn:example:backend-api", "urn:example:cooperation-context", "urn:example:Backend-api", "", "urn:example"} } \cup Adv({1000000})

Prefix == CASE Slice = "token" -> TokInit [] Slice = "key" -> KeyInit [] OTHER -> <<>>
Cmds == CASE Slice = "par" -> ParCmds [] Slice = "code" -> CodeCmds [] Slice = "device" -> DevCmds [] Slice = "token" -> TokCmds
          [] Slice = "key" -> KeyCmds [] Slice = "proof" -> ProofCmds
          [] Slice = "stpar" -> StMapCmds("par") [] Slice = "stcode" -> StMapCmds("code") [] Slice = "stdev" -> StDevCmds [] Slice = "sttok" -> StTokCmds
          [] Slice = "stjti" -> StJtiCmds [] Slice = "stcli" -> StCliCmds [] OTHER -> {}
Depth == LET x == IF Thorough THEN 1 ELSE 0 IN
  CASE Slice = "par" -> 4 + x [] Slice = "code" -> 3 + x [] Slice = "device" -> 4 + x [] Slice = "token" -> 3 + x [] Slice = "key" -> 4 + x
    [] Slice = "proof" -> 3 + x [] Slice \in {"stpar", "stcode", "stdev", "sttok"} -> 4 + x [] Slice = "stjti" -> 5 + x [] Slice = "stcli" -> 3 + x [] OTHER -> 1
NowBound == CASE Slice = "par" -> 61 [] Slice = "code" -> 61 [] Slice = "device" -> 121 [] Slice = "token" -> 700000 [] Slice = "key" -> 700000
              [] Slice = "proof" -> 120 [] Slice \in {"stpar", "stcode"} -> 122 [] Slice = "stdev" -> 241 [] Slice \in {"sttok", "stcli"} -> 1000000
              [] Slice = "stjti" -> 122 [] OTHER -> 0

---------------------------------------------------------------------------
Init == /\ s = InitState(1000, Slice \in {"par", "code", "device", "token", "stpar", "stcode", "stdev", "sttok"})
        /\ g = NoGhost
        /\ path = <<>>

Do(c) == LET e == EventOf(c) IN
  /\ s' \in (IF c.op = "advance" THEN AdvPost(s, e) ELSE Post(s, e))
  /\ g' = Ghost(e)
  /\ path' = Append(path, c)

Allowed(c) == c.op = "advance" => s.now + c.d <= 1000 + NowBound

Unchanging(c) == LET e == EventOf(c) IN c.op # "advance" /\ Post(s, e) = {s} /\ Ghost(e) = g
Available == IF Len(path) < Len(Prefix) THEN {Prefix[Len(path) + 1]} ELSE { c \in Cmds : Allowed(c) }

Next == /\ Len(path) < Len(Prefix) + Depth
        /\ \E c \in Available : ~Unchanging(c) /\ Do(c)
Spec == Init /\ [][Next]_vars

\* printed once per distinct state
Emit ==
  LET loops == { c \in Available : Unchanging(c) } edges == { c \in Available : ~Unchanging(c) } IN
  Len(path) < Len(Prefix) \/ PrintT("SCRIPT " \o ToJson([path |-> path, loops |-> SetToSeq(loops), edges |-> SetToSeq(edges)]))
\* every refusal has a code to report it, and a token request that is not refused for want of approval never "authorization_pending"
Coded == \A c \in Available : LET e == EventOf(c) IN
           (e.op \in Reported /\ ~e.r.ok) =>
             /\ PermittedCodes(s, e) # {}                                                           \* L01
             /\ "authorization_pending" \in PermittedCodes(s, e) => "approved" \in Names(DevGuards(s, e)) \* C01
Inv == Invariants /\ Coded /\ Emit
=============================================================================
