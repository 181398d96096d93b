---------------------------- MODULE SolidTables ----------------------------
(***************************************************************************)
(* Case tables over the operations of Solid: short command sequences, one   *)
(* per combination of the enumerated dimensions. TLC enumerates them; the   *)
(* verdict of every case is the one SolidTrace computes on its execution.   *)
(* "x#last" designates the artefact created by the last attempt.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Table == IOEnv.VERIF_SLICE
Thorough == IOEnv.VERIF_TIER = "thorough"

Clients == {"c1", "C1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10", "c11"}
Anyone == Clients \cup {"ghost", "blank", "-"}
Grants == {"ac", "cc", "dc", "rt", "xt"}

Adv(n) == [op |-> "advance", d |-> n]
Auth(q) == [op |-> "authorize", cli |-> "c1", q |-> q]
Openid == [scope |-> "openid offline_access a b", prompt |-> "consent"]
\* c1 gets a code, then tokens
Login == Auth(Openid)
Redeem == [op |-> "token", grant |-> "ac", cli |-> "c1", code |-> "code#last"]
Intro(r) == [op |-> "introspect", cli |-> "c1", val |-> r]

\* subjects whose values are easily confused
Subs == {"u1", "U1", " u1", "u1 ", "u1%0A", "u", "ü1", "u1|u2", "c1"}
\* the artefact with something around it
Near(r) == { r \o x : x \in {"", "|suf:%20", "|pre:%20", "|suf:%0A", "|upper", "|suf:x", "|trim:1", "|cut:1", "|suf:/", "|suf:="} }

---------------------------------------------------------------------------
(* Authorization requests *)

QDev ==
  {[state |-> v] : v \in {"-", "1", "31", "32", "33", "64", "w31", "w32", "q31", "q32"}} \cup {[nonce |-> v] : v \in {"-", "1", "7", "8", "9", "64", "w7", "w8", "q8"}}
  \cup {[scope |-> v] : v \in {"-", "x", "openid"}} \cup {[aud |-> v] : v \in {"-", "x"}}
  \cup {[client |-> v] : v \in {"-", "c1", "c2", "ghost", "C1", "c1 "}}
  \cup {[redirect |-> v] : v \in {"-", "r1", "r2", "r3", "https://shared.example/CB", "https://shared.example/cb/", "https://shared.example/cb?x=1", "/cb", "shared.example/cb",
                                  "https://shared.example/cb#f", "HTTPS://shared.example/cb", "https://shared.example:443/cb", "https://c2.example/cb", "https://c1.example/", "not a url"}}
  \cup {[rtype |-> v] : v \in {"-", "token", "id_token", "code token", "CODE", "none"}}
  \cup {[chal |-> v] : v \in {"-", "short:v1", "pad:v1", "plain:v1", "plain:v1.42", "plain:v1.44", "v9.128", "eu.43"}}
  \cup {[method |-> v] : v \in {"-", "plain", "s256", "S512", "S256 ", " S256", "S", "S2", "S25", "S2566", "SHA256", "SHA-256", "PLAIN"}}
  \cup {[mode |-> v] : v \in {"query", "fragment", "form_post", "jwt", "query.jwt", "fragment.jwt", "form_post.jwt", "web_message", "JWT", "blank", "Query"}}
  \cup {[state |-> a, nonce |-> b] : a \in {"31", "32"}, b \in {"7", "8"}}
  \cup {[extra |-> "x", mode |-> "query"], [extra |-> "y", prompt |-> "login"]}

ScopeVals == {"openid", "openid profile", "openid offline_access", "offline_access openid", "openid offline_access a offline_access", "openid OFFLINE_ACCESS",
              "OPENID offline_access", "openid  offline_access   a", "a offline_access b", "offline_access", "offline_access OFFLINE_ACCESS openid Offline_Access x", "openid oFFline_aCCess b c",
              "openid offline_access2", "openid xoffline_access", "openid offline-access", "openid,offline_access", "openid2 offline_access", "openid offline_acces"}
Prompts == {"-", "consent", "login", "CONSENT", "consent login", "none", "blank", " consent", "select_account"}

AuthzTable(zz) ==
  { <<[op |-> o, cli |-> c, q |-> q]>> : o \in {"push", "authorize"}, c \in {"c1", "c2"}, q \in QDev }
  \cup { <<[op |-> "authorize", cli |-> "-", q |-> q @@ [client |-> "c1"]]>> : q \in QDev }
  \cup { <<[op |-> "push", cli |-> "c1", q |-> q], [op |-> "authorize", cli |-> "c1", ref |-> "uri#last", q |-> [scope |-> "a"]], [op |-> "peek", code |-> "code#last"]>> : q \in QDev }
  \cup { <<[op |-> o, cli |-> c, q |-> [rtype |-> t, mode |-> m]]>> :
           o \in {"push", "authorize"}, c \in Clients, t \in {"code", "token"}, m \in {"-", "query", "fragment", "form_post", "jwt", "query.jwt", "fragment.jwt", "form_post.jwt"} }
  \cup { <<[op |-> "push", cli |-> "c1", q |-> [nested |-> "urn:solid:x"]]>> } \cup { <<[op |-> o, cli |-> "c1", nil |-> TRUE]>> : o \in {"push", "authorize"} }
  \cup { <<[op |-> o, cli |-> "c1", iss |-> i]>> : o \in {"push", "authorize"}, i \in {"-", "bad", "I2"} }
  \cup { <<[op |-> "authorize", cli |-> "c1", sub |-> u], [op |-> "peek", code |-> "code#last"]>> : u \in {"-"} \cup Subs }

ScopeTable(zz) ==
  { <<Auth([scope |-> sc, prompt |-> p]), [op |-> "peek", code |-> "code#last"], Redeem>> : sc \in ScopeVals, p \in Prompts }
  \cup { <<[op |-> "push", cli |-> "c1", q |-> [scope |-> sc, prompt |-> p]], [op |-> "authorize", cli |-> "c1", ref |-> "uri#last", q |-> [scope |-> "a", prompt |-> "consent"]],
           [op |-> "peek", code |-> "code#last"], Redeem>> : sc \in ScopeVals, p \in Prompts }

\* whose request is it
BindTable(zz) ==
  { <<[op |-> "push", cli |-> a, q |-> [client |-> b, redirect |-> "https://shared.example/cb"]], [op |-> "authorize", cli |-> c, ref |-> "uri#last", q |-> [client |-> d]],
      [op |-> "authorize", cli |-> a, ref |-> "uri#last"]>> : a \in {"c1", "c2", "C1"}, b \in {"c1", "c2", "C1"}, c \in {"c1", "c2", "C1", "-", "ghost"}, d \in {"c1", "c2"} }
  \cup { <<[op |-> "authorize", cli |-> a, q |-> [client |-> b, redirect |-> "https://shared.example/cb"]]>> : a \in Anyone, b \in {"c1", "C1", "c2", "c8", "c11"} }
  \cup { <<[op |-> "push", cli |-> a, claims |-> k, q |-> [client |-> b, redirect |-> "https://shared.example/cb"]]>> : a \in Anyone, b \in {"c1", "C1", "c2", "c8", "c11"}, k \in {"c1", "c8"} }

\* times of a pushed request, values around it
ParTable(zz) ==
  { <<[op |-> "push", cli |-> "c1", q |-> [mode |-> "jwt", extra |-> "x"]], Adv(d), [op |-> "authorize", cli |-> "c1", iss |-> i, ref |-> r, q |-> [scope |-> "a"]],
      [op |-> "peek", code |-> "code#last", iss |-> i], [op |-> "authorize", cli |-> "c1", ref |-> "uri#last"], [op |-> "authorize", cli |-> "c1", ref |-> "uri#last"]>>
    : d \in {0, 1, 30, 59, 60, 61, 120}, i \in {"I1", "I2", "I3"},
      r \in {"uri#last", "uri#last|suf:x", "uri#last|trim:1", "uri#last|pre:%20", "uri#last|suf:%20", "uri#last|suf:%0A", "uri#last|upper", "uri#last|cut:1"} }
  \* the request fails after the reference was used
  \cup { <<[op |-> "push", cli |-> "c1", q |-> Openid], [op |-> "authorize", cli |-> c, ref |-> "uri#last", sub |-> u, iss |-> i], [op |-> "authorize", cli |-> "c1", ref |-> "uri#last"]>>
         : c \in Anyone, u \in {"u1", "-"}, i \in {"I1", "I2", "-"} }

---------------------------------------------------------------------------
(* Token endpoint *)

GateTable(zz) ==
  \* shape and gating; the artefacts stay usable
  { <<Login, [op |-> "token", grant |-> gr, payload |-> p, cli |-> c, code |-> "code#last"], Redeem>> :
      gr \in Grants \cup {"password", "AUTHORIZATION_CODE", "-", "implicit"}, p \in {"ac", "cc", "xt", "-"}, c \in {"c1", "c4", "c10", "ghost", "-"} }
  \cup { <<Login, Redeem, [op |-> "token", grant |-> gr, payload |-> p, cli |-> "c1", rt |-> "rt#last", st |-> "at#last"]>> : gr \in Grants \cup {"password"}, p \in {"rt", "xt", "dc"} }
  \* which clients may use which grant, whatever they claim
  \cup { <<[op |-> "authorize", cli |-> "-", q |-> [client |-> "c1", redirect |-> "https://shared.example/cb"] @@ Openid],
           [op |-> "token", grant |-> "ac", cli |-> c, claims |-> k, code |-> "code#last", redirect |-> "https://shared.example/cb"],
           [op |-> "token", grant |-> "ac", cli |-> "c1", code |-> "code#last", redirect |-> "https://shared.example/cb"]>> : c \in Anyone, k \in {"c1", "c8"} }
  \cup { <<[op |-> "devauth", cli |-> c, scope |-> "a"], [op |-> "devauth", cli |-> "c1", scope |-> "a"], [op |-> "approve", uc |-> "uc#last"],
           [op |-> "token", grant |-> "dc", cli |-> c, claims |-> k, dc |-> "dc#last", dcli |-> "c1"], [op |-> "token", grant |-> "dc", cli |-> "c1", dc |-> "dc#last"]>> : c \in Anyone, k \in {"c1", "c8"} }
  \cup { <<Login, Redeem, [op |-> "token", grant |-> "rt", cli |-> c, claims |-> k, rt |-> "rt#1"], [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> "rt#1"]>> : c \in Anyone, k \in {"c1", "c8"} }
  \cup { <<Login, Redeem, [op |-> "token", grant |-> "xt", cli |-> c, claims |-> k, st |-> "at#1"], Intro("at#1")>> : c \in Anyone, k \in {"c1", "c8"} }
  \cup { <<[op |-> "token", grant |-> "cc", cli |-> c, claims |-> k, scope |-> sc, aud |-> a, jkt |-> j], Intro("at#last")>> :
           c \in Anyone, k \in {"c1", "c3"}, sc \in {"-", "a b", "openid offline_access", "blank"}, a \in {"-", "urn:aud:1"}, j \in {"-", "jktA"} }
  \cup { <<Login, [op |-> "token", grant |-> gr, iss |-> i, cli |-> "c1", code |-> "code#last"], Redeem>> : gr \in Grants, i \in {"-", "bad", "rel", "I2"} }
  \cup { <<Login, [op |-> "token", grant |-> gr, nil |-> TRUE, cli |-> "c1", code |-> "code#last"], Redeem>> : gr \in Grants }
  \cup { <<Login, Redeem, [op |-> o, nil |-> n, iss |-> i, cli |-> c, val |-> v], Intro("at#1"), Intro("rt#1")>> :
           o \in {"introspect", "revoke"}, n \in BOOLEAN, i \in {"I1", "I2", "-", "bad", "rel"}, c \in {"c1", "c2", "ghost", "-"}, v \in {"at#1", "rt#1", "-", "nope"} }

CodeTable(zz) ==
  { <<Auth([redirect |-> rd, chal |-> v] @@ Openid), Adv(d), [op |-> "token", grant |-> "ac", cli |-> "c1", code |-> "code#last", redirect |-> rd2, ver |-> v2, jkt |-> "jktA"],
      [op |-> "token", grant |-> "ac", cli |-> "c1", code |-> "code#last", redirect |-> rd, ver |-> v], Intro("at#last")>> :
      rd \in {"r1"}, v \in {"v1", "v1.128"}, d \in {0, 59, 60, 61},
      rd2 \in {"r1", "r0", "-", "https://shared.example/CB", "https://shared.example/cb/", "https://c2.example/cb"},
      v2 \in {"v1", "v1.128", "v2", "v1.42", "v1.44", "v1.129", "-", "chal:v1", "chal:v1.128", "case:v1", "sp:v1", "cut:v1"} }
  \* lengths are counted in bytes
  \cup { <<Auth([chal |-> v] @@ Openid), [op |-> "token", grant |-> "ac", cli |-> "c1", code |-> "code#last", ver |-> v]>> : v \in {"eu.42", "eu.43", "eu.44", "eu.128", "eu.129"} }
  \* challenges that are not the one of the verifier, though made of it
  \cup { <<Auth([chal |-> v] @@ Openid), [op |-> "token", grant |-> "ac", cli |-> "c1", code |-> "code#last", ver |-> w]>> :
      v \in {"v1", "low:v1", "std:v1", "plain:v1", "chal:v1", "v3", "std:v3", "low:v3"}, w \in {"v1", "v3", "chal:v1", "case:v1", "chal:v3"} }
  \* what a redemption asks for is no concern of the token
  \cup { <<Auth([scope |-> sc, prompt |-> "consent"]), [op |-> "token", grant |-> "ac", cli |-> "c1", code |-> "code#last", scope |-> rq, aud |-> a, st |-> "x", rt |-> "y"], Intro("at#last"), Intro("rt#last")>> :
      sc \in {"openid a", "openid offline_access a", "a"}, rq \in {"-", "blank", "a", "openid", "openid offline_access a b", "offline_access"}, a \in {"-", "blank", "urn:aud:9"} }
  \* everywhere, subjects are kept as they are
  \cup { <<[op |-> "authorize", cli |-> "c1", sub |-> u, q |-> Openid], Redeem, Intro("at#last"), [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> "rt#last"],
           [op |-> "token", grant |-> "xt", cli |-> "c9", st |-> "at#last"], [op |-> "devauth", cli |-> "c1", scope |-> "a"], [op |-> "approve", uc |-> "uc#last", sub |-> u],
           [op |-> "token", grant |-> "dc", cli |-> "c1", dc |-> "dc#last"], Intro("at#last")>> : u \in Subs }
  \cup { <<Login, [op |-> "token", grant |-> "ac", cli |-> "c1", code |-> r], Redeem, Redeem>> :
      r \in Near("code#last") \cup {"-", "nope", "a|rep:1024", "a|rep:1025", "€|rep:1024", "€|rep:1025"} }
  \cup { <<[op |-> "authorize", cli |-> "-", q |-> [client |-> c, redirect |-> "https://shared.example/cb"] @@ Openid],
           [op |-> "token", grant |-> "ac", cli |-> d, iss |-> i, code |-> "code#last", redirect |-> "https://shared.example/cb"],
           [op |-> "token", grant |-> "ac", cli |-> c, code |-> "code#last", redirect |-> "https://shared.example/cb"]>> :
      c \in {"c1", "C1", "c2", "c11"}, d \in {"c1", "C1", "c2", "c8", "c10", "c11"}, i \in {"I1", "I2"} }
  \cup { <<[op |-> "authorize", cli |-> "c1", sub |-> u, q |-> [scope |-> sc, aud |-> a, prompt |-> "consent"]], [op |-> "token", grant |-> "ac", cli |-> "c1", code |-> "code#last", jkt |-> j],
           Intro("at#last"), [op |-> "introspect", iss |-> "I2", val |-> "at#last"], Intro("rt#last"), [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> "rt#last", jkt |-> j]>> :
      u \in {"u1", "u2"}, sc \in {"openid", "openid offline_access", "a b", "offline_access", "OPENID OFFLINE_ACCESS"}, a \in {"urn:aud:1", "x"}, j \in {"-", "jktA"} }

DeviceTable(zz) ==
  { <<[op |-> "devauth", cli |-> c, scope |-> sc, aud |-> a], [op |-> "token", grant |-> "dc", cli |-> c, dc |-> "dc#last"], [op |-> "approve", uc |-> "uc#last", sub |-> "u2"],
      [op |-> "token", grant |-> "dc", cli |-> c, dc |-> "dc#last", jkt |-> j], Intro("at#last"), Intro("rt#last")>> :
      c \in Anyone \ {"-"}, sc \in {"-", "blank", "openid", "offline_access", "openid Offline_Access a"}, a \in {"-", "urn:aud:1"}, j \in {"-", "jktA"} }
  \cup { <<[op |-> "devauth", cli |-> "c1", scope |-> "a offline_access"], Adv(d1), [op |-> "approve", uc |-> "uc#last"], Adv(d2), [op |-> "token", grant |-> "dc", cli |-> "c1", dc |-> "dc#last"],
           Adv(d3), [op |-> "token", grant |-> "dc", cli |-> "c1", dc |-> "dc#last"], [op |-> "approve", uc |-> "uc#last", sub |-> "u3"]>> :
      d1 \in {0, 59, 60, 61, 119, 120, 121}, d2 \in {0, 1, 59, 60, 61, 119, 120}, d3 \in {0, 1, 60} }
  \cup { <<[op |-> "devauth", cli |-> "c1", scope |-> "a"], [op |-> "approve", uc |-> r, iss |-> i, sub |-> u], [op |-> "token", grant |-> "dc", cli |-> "c1", dc |-> "dc#last"],
           [op |-> "approve", uc |-> "uc#last", sub |-> "u2"], [op |-> "approve", uc |-> "uc#last", sub |-> "u3"], [op |-> "token", grant |-> "dc", cli |-> "c1", dc |-> "dc#last"]>> :
      r \in {"uc#last", "-", "nope", "dc#last", "uc#last|upper", "uc#last|suf:x", "uc#last|trim:1", "uc#last|pre:%20"}, i \in {"I1", "I2", "-"}, u \in {"u1", "-"} }
  \cup { <<[op |-> "devauth", cli |-> "c1", scope |-> "a"], [op |-> "approve", uc |-> "uc#last"], [op |-> "token", grant |-> "dc", cli |-> c, iss |-> i, dc |-> r, dcli |-> k],
           [op |-> "token", grant |-> "dc", cli |-> "c1", dc |-> "dc#last"]>> :
      c \in {"c1", "C1", "c2", "c5", "c11"}, i \in {"I1", "I2"}, r \in {"dc#last", "uc#last", "-", "dc#last|upper", "dc#last|suf:x"}, k \in {"c1", "c2"} }
  \cup { <<[op |-> "devauth", cli |-> "c1", scope |-> sc, aud |-> "urn:aud:1"], [op |-> "approve", uc |-> "uc#last"],
           [op |-> "token", grant |-> "dc", cli |-> "c1", dc |-> "dc#last", scope |-> rq, aud |-> a, rt |-> "y"], Intro("at#last"), Intro("rt#last")>> :
      sc \in {"-", "a b", "a offline_access"}, rq \in {"-", "blank", "a", "offline_access", "a b c", "openid offline_access"}, a \in {"-", "blank", "urn:aud:9"} }
  \cup { <<[op |-> "devauth", cli |-> "c1", scope |-> "a"], [op |-> "approve", uc |-> r, sub |-> "u1"], [op |-> "token", grant |-> "dc", cli |-> "c1", dc |-> d], [op |-> "approve", uc |-> "uc#last", sub |-> "u2"],
           [op |-> "token", grant |-> "dc", cli |-> "c1", dc |-> d], [op |-> "token", grant |-> "dc", cli |-> "c1", dc |-> "dc#last"]>> : r \in Near("uc#last"), d \in Near("dc#last") }
  \cup { <<[op |-> o, nil |-> TRUE]>> : o \in {"devauth", "approve"} } \cup { <<[op |-> "devauth", cli |-> c, iss |-> "-"]>> : c \in {"c1", "-"} }

RefreshTable(zz) ==
  { <<Login, [op |-> "token", grant |-> "ac", cli |-> "c1", code |-> "code#last", jkt |-> j], Adv(d), [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> "rt#last", jkt |-> k],
      [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> "rt#1", jkt |-> j], Intro("rt#1"), [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> "rt#2", jkt |-> j]>> :
      j \in {"-", "jktA"}, k \in {"-", "jktA", "jktB"}, d \in {0, 1, 601199, 601200, 601201, 604799, 604800, 604801} }
  \cup { <<Login, Redeem, [op |-> "token", grant |-> "rt", cli |-> c, iss |-> i, rt |-> r], [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> "rt#1"]>> :
      c \in {"c1", "C1", "c2", "c3", "c10", "c4"}, i \in {"I1", "I2"}, r \in {"rt#1", "at#1", "-", "nope", "rt#1|upper", "rt#1|suf:x", "rt#1|trim:1", "rtid#1", "rt#1|pre:%20"} }
  \cup { <<Login, Redeem, [op |-> "revoke", cli |-> c, val |-> v, iss |-> i], [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> "rt#1"], Intro("rt#1"), Intro("at#1"),
           [op |-> "token", grant |-> "xt", cli |-> "c9", st |-> "at#1"], [op |-> "revoke", cli |-> "c1", val |-> "rt#1"], [op |-> "revoke", cli |-> "c1", val |-> "rt#1"],
           [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> "rt#1"], Intro("rt#1")>> :
      c \in Anyone, v \in {"rt#1", "at#1", "rtid#1", "atid#1", "nope", "-"}, i \in {"I1", "I2", "-", "bad"} }
  \cup { <<Login, Redeem, [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> "rt#1", scope |-> sc, aud |-> a], Intro("at#2")>> : sc \in {"-", "a", "openid z", "blank", "openid"}, a \in {"-", "urn:aud:9", "blank"} }
  \* values around a token
  \cup { <<Login, Redeem, Intro(r), Intro(a), [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> r], [op |-> "token", grant |-> "xt", cli |-> "c1", st |-> a], [op |-> "revoke", cli |-> "c1", val |-> a],
           [op |-> "revoke", cli |-> "c1", val |-> r], Intro("rt#1"), Intro("at#1")>> : r \in Near("rt#1"), a \in Near("at#1") }
  \* chains of rotations, and what the tokens derived before a revocation become
  \cup { <<Login, Redeem, Adv(601201), [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> "rt#1"], Adv(d), [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> "rt#2"],
           [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> "rt#1"], [op |-> "revoke", cli |-> "c1", val |-> "rt#2"], [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> "rt#2"],
           Intro("rt#1"), Intro("rt#2"), Intro("rt#3"), Intro("at#3"), [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> "rt#3"]>> : d \in {1, 601201, 604801} }

ExchangeTable(zz) ==
  { <<Auth([scope |-> sc, prompt |-> "consent"]), Redeem, [op |-> "token", grant |-> "xt", cli |-> "c9", st |-> "at#last", scope |-> rq, aud |-> a], Intro("at#last")>> :
      sc \in {"openid", "openid a b", "openid a a"}, rq \in {"-", "blank", "a", "b a", "a b", "openid", "openid a b", "a c", "c", "OPENID", "a,b", "openid a b c", "a a"},
      a \in {"-", "blank", "urn:aud:1", "urn:example:backend-api", "urn:example:cooperation-context", "nope", "URN:example:backend-api"} }
  \cup { <<Login, [op |-> "token", grant |-> "ac", cli |-> "c1", code |-> "code#last", jkt |-> j], Adv(d), [op |-> "token", grant |-> "xt", cli |-> c, st |-> "at#1", jkt |-> k],
           [op |-> "token", grant |-> "xt", cli |-> "c9", st |-> "at#2"], Intro("at#2"), Intro("at#1")>> :
      j \in {"-", "jktA"}, k \in {"-", "jktA", "jktB"}, c \in {"c9", "c1"}, d \in {0, 3539, 3540, 3541, 3599, 3600, 3601} }
  \cup { <<Login, Redeem, [op |-> "token", grant |-> "xt", cli |-> c, iss |-> i, st |-> r, stt |-> y], Intro("at#last")>> :
      c \in {"c9", "c2", "c3"}, i \in {"I1", "I2"}, r \in {"at#1", "rt#1", "-", "nope", "at#1|upper", "at#1|suf:x", "atid#1"},
      y \in {"urn:ietf:params:oauth:token-type:access_token", "-", "urn:ietf:params:oauth:token-type:refresh_token", "urn:ietf:params:oauth:token-type:id_token", "access_token"} }
  \cup { <<Login, Redeem, [op |-> "revoke", cli |-> "c1", val |-> v], [op |-> "token", grant |-> "xt", cli |-> "c9", st |-> "at#1"],
           [op |-> "token", grant |-> "xt", cli |-> "c9", st |-> "at#2"], [op |-> "revoke", cli |-> c, val |-> "at#2"], Intro("at#2"), [op |-> "token", grant |-> "xt", cli |-> "c9", st |-> "at#2"]>> :
      v \in {"at#1", "rt#1"}, c \in {"c1", "c9"} }

---------------------------------------------------------------------------
(* Registrations, and their changes: every check is about the registration of the moment *)

RModes == {"query", "fragment", "form_post", "jwt", "query.jwt", "fragment.jwt", "form_post.jwt"}
Adm(c, r) == [op |-> "client", cli |-> c, reg |-> r]
Back == [op |-> "client", cli |-> "c1"]
Full == <<"ac", "cc", "dc", "rt", "xt">>
Regs == { [grants |-> SelectSeq(Full, LAMBDA x : x # gr)] : gr \in Grants } \cup { [grants |-> <<gr>>] : gr \in Grants }
        \cup { [grants |-> x] : x \in { <<>>, <<"authorization_code ", " refresh_token", "client_credentials urn:ietf:params:oauth:grant-type:device_code">>,
                                      <<"code", "refresh", "device_code", "token-exchange">>, <<"*">>, <<"">> } }
        \cup { [ctype |-> x] : x \in {"PUBLIC", "UNKNOWN", "CREDENTIALED"} }
        \cup { [redirects |-> x] : x \in { <<>>, <<"https://c1.example/CB">>, <<"https://c1.example/cb/">>, <<"https://c1.example/">>, <<"https://c1.example/cb">>, <<"https://c1.example/cb?">>, <<"*">>, <<"">>, <<"https://other.example/cb">> } }
        \cup { [rtypes |-> x] : x \in { <<>>, <<"token">>, <<"code token">>, <<"">>, <<"code">>, <<"cod">>, <<"codes">> } }
        \cup { [rmodes |-> x] : x \in { <<>>, <<"quer">>, <<"">> } }
Busy == <<Login, Redeem, Login, [op |-> "push", cli |-> "c1", q |-> Openid], [op |-> "devauth", cli |-> "c1", scope |-> "a"], [op |-> "approve", uc |-> "uc#1"]>>
RegOps == { Login, Auth([mode |-> "query"] @@ Openid), [op |-> "authorize", cli |-> "-", q |-> [client |-> "c1"]], [op |-> "authorize", cli |-> "c1", ref |-> "uri#1"], [op |-> "push", cli |-> "c1", q |-> Openid],
            [op |-> "token", grant |-> "ac", cli |-> "c1", code |-> "code#2"], [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> "rt#1"], [op |-> "token", grant |-> "xt", cli |-> "c1", st |-> "at#1"],
            [op |-> "token", grant |-> "cc", cli |-> "c1", scope |-> "a"], [op |-> "token", grant |-> "dc", cli |-> "c1", dc |-> "dc#1"], [op |-> "devauth", cli |-> "c1", scope |-> "a"],
            Intro("at#1"), [op |-> "revoke", cli |-> "c1", val |-> "rt#1"], [op |-> "peek", code |-> "code#2"] }
RegTable(zz) ==
  { <<Adm("c1", [rmodes |-> r]), [op |-> o, cli |-> "c1", q |-> [rtype |-> y, mode |-> m]]>> :
      r \in { <<x>> : x \in RModes \cup {"", "quer", "query fragment"} } \cup { SetToSeq(RModes \ {x}) : x \in RModes }, o \in {"push", "authorize"}, y \in {"code", "token"}, m \in {"-"} \cup RModes }
  \cup { <<Adm("c1", [rtypes |-> r]), [op |-> o, cli |-> "c1", q |-> [rtype |-> y]]>> :
      r \in { <<>>, <<"code">>, <<"token">>, <<"code token">>, <<"id_token">>, <<"">>, <<"token", "code">> }, o \in {"push", "authorize"}, y \in {"code", "token", "CODE", "id_token", "code token", "-"} }
  \cup { <<Adm("c1", [redirects |-> <<x>>]), [op |-> o, cli |-> "c1", q |-> [redirect |-> y]], [op |-> "token", grant |-> "ac", cli |-> "c1", code |-> "code#last", redirect |-> z]>> :
      o \in {"push", "authorize"}, x, y, z \in {"https://c1.example/cb", "https://c1.example/cb/", "https://c1.example/CB", "https://c1.example", "https://c1.example/cb?x=1", "http://c1.example/cb", "https://c1.example:443/cb"} }
  \cup { Busy \o <<Adm("c1", r), x, Back, x>> : r \in Regs, x \in RegOps }
  \cup { Busy \o <<[op |-> "client", cli |-> "c1", nil |-> TRUE], x, Back, x>> : x \in RegOps }
  \cup { Busy \o <<[op |-> "client", cli |-> "c1", nil |-> TRUE], x @@ [claims |-> "c1"]>> : x \in { y \in RegOps : "cli" \in DOMAIN y /\ y.cli # "-" } }
  \* newly registered clients
  \cup { <<[op |-> "token", grant |-> "cc", cli |-> c, scope |-> "a"], Adm(c, [ctype |-> y, grants |-> <<"cc", "dc">>]), [op |-> "token", grant |-> "cc", cli |-> d, scope |-> "a"], Intro("at#last"), [op |-> "devauth", cli |-> d]>> :
      c \in {"new", "c1", "ghost"}, d \in {"new", "NEW", "new ", "c1", "ghost"}, y \in {"CONFIDENTIAL", "CREDENTIALED", "PUBLIC", "UNKNOWN"} }

---------------------------------------------------------------------------
(* DPoP proofs *)

Devs == {"", "typ", "typcase", "notyp", "nojwk", "noath", "athplain", "strayath", "nojti", "iatfloat", "jtinum", "noiat", "htmcase", "wrongkey", "flipsig", "flippayload", "trunc",
         "typ:", "typ:dpop", "typ:dpop+jw", "typ:dpop+jwts", "typ:dpop+jwt ", "typ:application/dpop+jwt", "typ:JWT", "alg", "es384", "hs", "none", "private", "empty", "garbage", "notjson", "prover"}
NearHtu == {"https://as1.example/token ", " https://as1.example/token", "https://as1.example/toke", "https://as1.example/tokens", "https://as1.example/TOKEN", "HTTPS://as1.example/token", "https://AS1.example/token",
            "https://as1.example:443/token", "http://as1.example/token", "https://as1.example/token#", "https://as1.example/token?", "https://as1.example//token", "https://as1.example/./token", "https://as1.example/%74oken",
            "https://as1.example", "/token", "token", "https://as1.example/token/../token"}
Pf(j) == [op |-> "proof", jti |-> j]
ProofTable(zz) ==
  { <<[op |-> "proof", jti |-> "d-" \o d \o k, dev |-> d, key |-> k], [op |-> "proof", jti |-> "d-" \o d \o k, key |-> k]>> : d \in Devs, k \in {"k1", "k2"} }
  \cup { <<[op |-> "proof", jti |-> "t-" \o d \o a \o c, dev |-> d, tok |-> "tokA", ath |-> a, cnf |-> c]>> : d \in Devs, a \in {"tokA", "tokB", ""}, c \in {"", "k1", "k2", "other", "-"} }
  \cup { <<[op |-> "proof", jti |-> "a-" \o d \o c, dev |-> "ath:" \o d, tok |-> "tokA", ath |-> "tokA", cnf |-> c]>> : d \in {"lower", "upper", "cut", "pad", "blank", "std", "hex", "twice", "none"}, c \in {"", "k1"} }
  \cup { <<[op |-> "proof", jti |-> "c-" \o c, tok |-> "tokA", ath |-> "tokA", cnf |-> c]>> : c \in {"lower:k1", "cut:k1", "pad:k1", "k1", "k2"} }
  \cup { <<[op |-> "proof", jti |-> "n" \o n, chtu |-> n]>> : n \in NearHtu }
  \cup { <<[op |-> "proof", jti |-> "m" \o m \o n, htm |-> m, chtm |-> n]>> : m \in {"GET", "POST", "post", "FOO", "-", "PATCH", "QUERY"}, n \in {"GET", "POST", "post", "-", "PATCH", "POST ", " POST", "POS", "POSTS"} }
  \cup { <<[op |-> "proof", jti |-> "u" \o m \o n, htu |-> m, chtu |-> n]>> : m \in {"T", "T/", "Tq", "R", "Th", "TU", "bad", "-"}, n \in {"T", "T/", "Tq", "R", "Th", "TU", "-"} }
  \cup { <<[op |-> "proof", jti |-> "i" \o ToString(i), iat |-> i]>> : i \in {-100, -17, -16, -15, -14, -1, 0, 1, 14, 15, 16, 17, 100, 3600} }
  \* replays: same proof, same identifier, in time
  \cup { <<[op |-> "proof", jti |-> "r" \o ToString(i) \o "-" \o ToString(d) \o u, iat |-> i, same |-> "x" \o ToString(i) \o "-" \o ToString(d) \o u], Adv(d),
           [op |-> "proof", same |-> "x" \o ToString(i) \o "-" \o ToString(d) \o u, htu |-> u], [op |-> "proof", jti |-> "r" \o ToString(i) \o "-" \o ToString(d) \o u, key |-> "k2"], Adv(d),
           [op |-> "proof", jti |-> "r" \o ToString(i) \o "-" \o ToString(d) \o u, key |-> "k1"]>> :
           i \in {-15, 0, 15}, d \in {0, 1, 15, 29, 30, 31, 59, 60, 61}, u \in {"T", "R"} }
  \cup { <<[op |-> "proof", jti |-> "f" \o d, dev |-> d], [op |-> "proof", jti |-> "f" \o d], [op |-> "proof", jti |-> "f" \o d]>> : d \in Devs \ {""} }
  \cup { <<[op |-> "proof", jti |-> j], [op |-> "proof", jti |-> k]>> : j \in {"Aa", "b ", "c"}, k \in {"aA", "b", "C", "c "} }

---------------------------------------------------------------------------
(* Issuer isolation with overlapping values: "I1" \o "/xV" = "I3" \o "V"    *)

OverlapTable(zz) ==
  { <<[op |-> "push", cli |-> "c1", iss |-> "I1", q |-> Openid], [op |-> "authorize", cli |-> "c1", iss |-> i, ref |-> r], [op |-> "authorize", cli |-> "c1", iss |-> "I1", ref |-> "uri#last"]>>
    : i \in {"I2", "I3"}, r \in {"uri#last", "uri#last|cut:2"} }
  \cup { <<Login, [op |-> "token", grant |-> "ac", cli |-> "c1", iss |-> i, code |-> r], [op |-> "peek", iss |-> i, code |-> r], Redeem, Intro("at#last"),
           [op |-> "introspect", iss |-> i, val |-> v], [op |-> "revoke", cli |-> "c1", iss |-> i, val |-> v], [op |-> "token", grant |-> "rt", cli |-> "c1", iss |-> i, rt |-> w],
           [op |-> "token", grant |-> "xt", cli |-> "c1", iss |-> i, st |-> v], Intro("at#last"), [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> "rt#1"]>>
         : i \in {"I2", "I3"}, r \in {"code#last", "code#last|cut:2"}, v \in {"at#1", "at#1|cut:2"}, w \in {"rt#1", "rt#1|cut:2"} }
  \cup { <<[op |-> "devauth", cli |-> "c1", scope |-> "a"], [op |-> "approve", iss |-> i, uc |-> u], [op |-> "token", grant |-> "dc", cli |-> "c1", iss |-> i, dc |-> d],
           [op |-> "token", grant |-> "dc", cli |-> "c1", dc |-> "dc#last"], [op |-> "approve", uc |-> "uc#last", sub |-> "u2"], [op |-> "token", grant |-> "dc", cli |-> "c1", iss |-> i, dc |-> d],
           [op |-> "token", grant |-> "dc", cli |-> "c1", dc |-> "dc#last"]>> : i \in {"I2", "I3"}, u \in {"uc#last", "uc#last|cut:2"}, d \in {"dc#last", "dc#last|cut:2"} }

---------------------------------------------------------------------------
(* Failures of dependencies, before or after their effect *)

Fl(c, at, k, m) == c @@ [fault |-> [at |-> at, k |-> k, mode |-> m]]
Modes == {"before", "after", "wrapped"}
StFaults(ats, k) == { <<at, i, m>> : at \in ats, i \in 1..k, m \in Modes }
TokenFaults == StFaults({"client.Get", "code.Get", "code.Delete", "dev.GetByDeviceCode", "tok.GetByValue", "tok.Revoke", "tok.Delete", "tok.Get", "res.GetByURI", "tok.Create"}, 2)
               \cup { <<at, 1, m>> : at \in {"gen.at.Generate", "gen.rt.Generate"}, m \in {"before", "blank"} }
FaultTable(zz) ==
  { LET c == [op |-> "push", cli |-> "c1", q |-> Openid] IN <<Fl(c, f[1], f[2], f[3]), c, [op |-> "authorize", cli |-> "c1", ref |-> "uri#last"]>>
    : f \in StFaults({"client.Get", "par.Register", "gen.uri.Generate"}, 1) }
  \cup { LET c == [op |-> "authorize", cli |-> "c1", ref |-> "uri#last", q |-> Openid] IN
         <<[op |-> "push", cli |-> "c1", q |-> Openid], Fl(c, f[1], f[2], f[3]), [op |-> "peek", code |-> "code#last"], c, c, Redeem>>
         : f \in StFaults({"client.Get", "par.Get", "par.Delete", "gen.code.Generate", "code.Register"}, 1) }
  \cup { LET c == [op |-> "authorize", cli |-> "c1", ref |-> "uri#last", sub |-> "u2", q |-> q] IN
         <<[op |-> "push", cli |-> "c1", q |-> Openid], Fl(c, f[1], f[2], f[3]), c>>
         : f \in StFaults({"client.Get", "par.Get", "par.Delete", "gen.code.Generate", "code.Register"}, 1), q \in { [state |-> "33", scope |-> "a"], [state |-> "-", client |-> "c2"] } }
  \cup { LET c == Login IN <<Fl(c, f[1], f[2], f[3]), c, Redeem>> : f \in StFaults({"client.Get", "gen.code.Generate", "code.Register"}, 1) }
  \cup { <<Auth([scope |-> sc, prompt |-> "consent"]), Fl(Redeem, f[1], f[2], f[3]), [op |-> "peek", code |-> "code#last"], Redeem, Redeem, Intro("at#last"), Intro("rt#last")>>
         : f \in TokenFaults, sc \in {"openid offline_access", "openid", "a"} }
  \cup { LET c == [op |-> "token", grant |-> "dc", cli |-> "c1", dc |-> "dc#last"] IN
         <<[op |-> "devauth", cli |-> "c1", scope |-> "a offline_access"], Fl(c, f[1], f[2], f[3]), [op |-> "approve", uc |-> "uc#last"], Fl(c, f[1], f[2], f[3]), c, Intro("rt#last")>>
         : f \in TokenFaults }
  \cup { LET c == [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> "rt#1"] IN
         <<Login, Redeem, Adv(d), Fl(c, f[1], f[2], f[3]), Intro("rt#1"), c, c, Intro("rt#1"), [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> "rt#2"]>>
         : f \in TokenFaults, d \in {0, 601201} }
  \cup { LET c == [op |-> "token", grant |-> "xt", cli |-> "c9", st |-> "at#1", aud |-> a] IN
         <<Login, Redeem, Fl(c, f[1], f[2], f[3]), Intro("at#1"), c, Intro("at#last")>> : f \in TokenFaults, a \in {"-", "urn:example:backend-api"} }
  \cup { LET c == [op |-> "token", grant |-> "cc", cli |-> "c4", scope |-> "a"] IN <<Fl(c, f[1], f[2], f[3]), c, Intro("at#last")>> : f \in TokenFaults }
  \cup { LET c == [op |-> "revoke", cli |-> "c1", val |-> "rt#1"] IN
         <<Login, Redeem, Fl(c, f[1], f[2], f[3]), Intro("rt#1"), [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> "rt#1"], c, Intro("rt#1"), [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> "rt#1"]>>
         : f \in StFaults({"client.Get", "tok.GetByValue", "tok.Revoke", "tok.Get"}, 1) }
  \cup { LET c == Intro("rt#1") IN <<Login, Redeem, Fl(c, f[1], f[2], f[3]), c>> : f \in StFaults({"client.Get", "tok.GetByValue"}, 1) }
  \cup { LET c == [op |-> "devauth", cli |-> "c1", scope |-> "a"] IN <<Fl(c, f[1], f[2], f[3]), c, [op |-> "approve", uc |-> "uc#last"]>>
         : f \in StFaults({"client.Get", "gen.dc.Generate", "gen.uc.Generate", "dev.Register"}, 1) }
  \cup { LET c == [op |-> "approve", uc |-> "uc#last", sub |-> "u2"] IN
         <<[op |-> "devauth", cli |-> "c1", scope |-> "a"], Fl(c, f[1], f[2], f[3]), [op |-> "token", grant |-> "dc", cli |-> "c1", dc |-> "dc#last"], [op |-> "approve", uc |-> "uc#last", sub |-> "u3"],
           [op |-> "token", grant |-> "dc", cli |-> "c1", dc |-> "dc#last"]>> : f \in StFaults({"dev.GetByUserCode", "dev.Validate", "dev.Delete"}, 1) }
  \cup { LET c == [op |-> "proof", jti |-> "ft-" \o f[1] \o f[3]] IN <<Fl(c, f[1], f[2], f[3]), c, c>> : f \in StFaults({"jti.Exists", "jti.Register"}, 1) }

---------------------------------------------------------------------------
(* Stores that hand back incomplete, stale or foreign records               *)

Al(c, at, w) == Fl(c, at, 1, IF w = "blank" THEN "blank" ELSE "alter:" \o w)
ClientAlts == { <<"client.Get", w>> : w \in {"nogrants", "noredirects", "blank"} }
ParAlts == { <<"par.Get", w>> : w \in {"nostate", "noscope", "nochallenge", "plain", "noredirect", "otherclient", "blank"} }
CodeAlts == { <<"code.Get", w>> : w \in {"norequest", "plain", "nomethod", "nochallenge", "noredirect", "otherclient", "blank"} }
DevAlts(m) == { <<m, w>> : w \in {"expired", "norequest", "noclient", "nosubject", "status", "otherclient", "blank"} }
TokAlts == { <<"tok.GetByValue", w>> : w \in {"nometadata", "expired", "otherclient", "status", "revoked", "type", "blank"} }
AlterTable(zz) ==
  { LET c == [op |-> o, cli |-> "c1", q |-> Openid] IN <<Al(c, f[1], f[2]), c>> : o \in {"push", "authorize"}, f \in ClientAlts }
  \cup { LET c == [op |-> "authorize", cli |-> x, ref |-> "uri#last", q |-> [client |-> "c1"] @@ Openid] IN
         <<[op |-> "push", cli |-> "c1", q |-> Openid], Al(c, f[1], f[2]), [op |-> "peek", code |-> "code#last"], c>> : x \in {"c1", "-"}, f \in ParAlts \cup ClientAlts }
  \cup { LET c == [Redeem EXCEPT !.cli = x] IN
         <<Auth([scope |-> sc, prompt |-> "consent"]), Al(c, f[1], f[2]), Redeem, Intro("at#last")>> : x \in {"c1"}, f \in CodeAlts \cup ClientAlts, sc \in {"openid offline_access", "openid", "a"} }
  \cup { LET c == [ver |-> v] @@ Redeem IN <<Login, Al(c, f[1], f[2]), Redeem>> : v \in {"v2", "chal:v1"}, f \in CodeAlts }
  \cup { LET c == [op |-> "token", grant |-> "dc", cli |-> x, dc |-> "dc#last"] IN
         <<[op |-> "devauth", cli |-> "c1", scope |-> "a offline_access"], Al(c, f[1], f[2]), [op |-> "approve", uc |-> "uc#last"], Al(c, f[1], f[2]), [c EXCEPT !.cli = "c1"]>>
         : x \in {"c1"}, f \in DevAlts("dev.GetByDeviceCode") \cup ClientAlts }
  \cup { LET c == [op |-> "approve", uc |-> "uc#last", sub |-> "u2"] p == [op |-> "token", grant |-> "dc", cli |-> "c1", dc |-> "dc#last"] IN
         <<[op |-> "devauth", cli |-> "c1", scope |-> "a"], Al(c, f[1], f[2]), p, c, p>> : f \in { g \in DevAlts("dev.GetByUserCode") : g[2] # "otherclient" } }
  \cup { LET c == [op |-> "token", grant |-> "rt", cli |-> x, rt |-> "rt#1"] IN
         <<Login, Redeem, Adv(d), Al(c, f[1], f[2]), Intro("rt#1"), [c EXCEPT !.cli = "c1"], Intro("rt#1")>> : x \in {"c1"}, f \in TokAlts \cup ClientAlts, d \in {0, 601201} }
  \cup { LET c == [op |-> "token", grant |-> "xt", cli |-> "c9", st |-> "at#1", aud |-> a] IN
         <<Login, Redeem, Al(c, f[1], f[2]), Intro("at#1"), c>> : f \in TokAlts \cup ClientAlts \cup {<<"res.GetByURI", "blank">>}, a \in {"-", "urn:example:backend-api"} }
  \cup { LET c == [op |-> "token", grant |-> "cc", cli |-> "c4", scope |-> "a"] IN <<Al(c, f[1], f[2]), c>> : f \in ClientAlts }
  \cup { LET c == [op |-> "revoke", cli |-> x, val |-> v] IN <<Login, Redeem, Al(c, f[1], f[2]), Intro(v), [c EXCEPT !.cli = "c1"], Intro(v)>> : x \in {"c1"}, v \in {"rt#1", "at#1"}, f \in TokAlts \cup ClientAlts }
  \cup { LET c == Intro(v) IN <<Login, Redeem, Al(c, f[1], f[2]), c>> : v \in {"rt#1", "at#1"}, f \in TokAlts \cup ClientAlts }
  \cup { LET c == [op |-> "devauth", cli |-> "c1", scope |-> "a"] IN <<Al(c, f[1], f[2]), c>> : f \in ClientAlts }

---------------------------------------------------------------------------
(* Concurrent requests: every schedule of two requests with at most three   *)
(* switches, of three with at most three, at the granularity of dependency  *)
(* calls (which are atomic; ConcStores explores inside them).               *)

Rep(i, n) == [k \in 1..n |-> i]
\* the schedule ends by completing the requests in order
Sched2 == { Rep(i, a) \o Rep(1 - i, b) : i \in {0, 1}, a \in 1..8, b \in 1..8 }
Sched3 == { Rep(i, a) \o Rep(j, b) \o Rep(3 - i - j, c) : i, j \in {0, 1, 2}, a \in {2, 3, 4, 6}, b \in {2, 3, 4, 6}, c \in {2, 3, 5} }
Par(cs, sc) == [op |-> "par", par |-> cs, sched |-> sc]

Wrong == [op |-> "token", grant |-> "ac", cli |-> "c1", code |-> "code#last", ver |-> "v2"]
Thief == [op |-> "token", grant |-> "ac", cli |-> "c2", code |-> "code#last"]
Ref(c) == [op |-> "authorize", cli |-> c, ref |-> "uri#last"]
Ok(s) == [op |-> "approve", uc |-> "uc#last", sub |-> s]
Poll == [op |-> "token", grant |-> "dc", cli |-> "c1", dc |-> "dc#last"]
Rt(n) == [op |-> "token", grant |-> "rt", cli |-> "c1", rt |-> n]
Xt == [op |-> "token", grant |-> "xt", cli |-> "c9", st |-> "at#1"]
Rev(v) == [op |-> "revoke", cli |-> "c1", val |-> v]
Old == <<Login, Redeem, Adv(601201)>>
Young == <<Login, Redeem>>
RtEnd == <<Intro("rt#1"), Rt("rt#1"), Rt("rt#2"), Rt("rt#3")>>
PushIt == <<[op |-> "push", cli |-> "c1", q |-> Openid]>>
Flow == <<[op |-> "devauth", cli |-> "c1", scope |-> "a offline_access"]>>
\* <<commands before, concurrent requests, commands after>>
ConcSets ==
  { <<(<<Login>>), cs, <<Redeem, Intro("at#1")>> >> : cs \in { <<Redeem, Redeem>>, <<Redeem, Wrong>>, <<Thief, Redeem>>, <<Redeem, Redeem, Redeem>>, <<Wrong, Redeem, Thief>> } }
  \cup { <<PushIt, cs, <<Ref("c1"), [op |-> "peek", code |-> "code#1"], Redeem>> >> : cs \in { <<Ref("c1"), Ref("c1")>>, <<Ref("c1"), Ref("c2")>>, <<Ref("c2"), Ref("c1"), Ref("c1")>> } }
  \cup { <<Flow, cs, <<Poll, Ok("u3"), Poll>> >> : cs \in { <<Ok("u1"), Ok("u2")>>, <<Ok("u1"), Poll>>, <<Ok("u1"), Ok("u2"), Poll>>, <<Ok("u1"), Ok("u2"), Ok("u1")>> } }
  \cup { <<Old, cs, RtEnd>> : cs \in { <<Rt("rt#1"), Rt("rt#1")>>, <<Rt("rt#1"), Rev("rt#1")>>, <<Rt("rt#1"), Rt("rt#1"), Rt("rt#1")>>, <<Rt("rt#1"), Rev("rt#1"), Intro("rt#1")>> } }
  \cup { <<Young, cs, RtEnd \o <<Intro("at#1"), Xt>> >> : cs \in { <<Rt("rt#1"), Rev("rt#1")>>, <<Xt, Rev("at#1")>>, <<Intro("at#1"), Rev("at#1")>>, <<Rev("rt#1"), Rev("rt#1")>> } }
ProofSets == { <<x, y>> : x \in {"k1", "k2"}, y \in {"T", "R"} }
ConcTable(zz) ==
  { c[1] \o <<Par(c[2], sc)>> \o c[3] : c \in { x \in ConcSets : Len(x[2]) = 2 }, sc \in Sched2 }
  \cup { c[1] \o <<Par(c[2], sc)>> \o c[3] : c \in { x \in ConcSets : Len(x[2]) = 3 }, sc \in Sched3 }
  \cup { LET p(k, u) == [op |-> "proof", jti |-> "cc", key |-> k, htu |-> u, chtu |-> u] IN
         <<Par(<<p("k1", "T"), p(x[1], x[2])>>, sc), p("k1", "T"), Adv(31), p("k1", "T")>> : x \in ProofSets, sc \in { y \in Sched2 : Len(y) <= 8 } }
  \cup { LET p(k) == [op |-> "proof", jti |-> "cd", key |-> k] IN <<Par(<<p("k1"), p("k1"), p("k2")>>, sc), p("k1")>> : sc \in { y \in Sched3 : Len(y) <= 9 } }

(* Real concurrency: the same batches, and direct use of the stores, on real goroutines; n repeats the race *)
Race(cs, n) == [op |-> "race", par |-> cs, sched |-> << >>, n |-> n]
RaceN == 1..(IF Thorough THEN 400 ELSE 12)
S(kind, f, id, x) == [op |-> "store", c |-> x @@ [kind |-> kind, f |-> f, iss |-> "I1", id |-> id, id2 |-> "", v |-> "", status |-> "", sexp |-> 0, nil |-> FALSE]]
E0 == [v |-> ""]
StoreRaces ==
  UNION { LET r(v) == S(k, "reg", "p", [v |-> v]) d == S(k, "del", "p", E0) q == S(k, "get", "p", E0) IN
          { << <<r("v1")>>, b, <<q, d, q>> >> : b \in { <<d, d, d, d>>, <<d, q, r("v2"), d>>, <<r("v2"), r("v3"), q, q, d>>, <<d, d, r("v2"), q, d>> } } : k \in {"par", "code"} }
  \cup (LET r(v) == S("dev", "reg", "u", [v |-> v, id2 |-> "d", status |-> "PENDING"]) w(v) == S("dev", "val", "u", [v |-> v, id2 |-> "d", status |-> "VALIDATED", sexp |-> 70])
           d == S("dev", "del", "u", E0) gu == S("dev", "getu", "u", E0) gd == S("dev", "getd", "d", E0) IN
       { << <<r("v1")>>, b, <<gu, gd, w("v9"), gu, gd>> >> : b \in { <<w("v2"), w("v3"), w("v4"), w("v5")>>, <<w("v2"), w("v3"), gu, gd, w("v4")>>, <<w("v2"), d, gu, gd>>, <<w("v2"), w("v3"), d, d>>, <<w("v2"), r("v3"), gu, gd>> } })
  \cup (LET r(v) == S("tok", "reg", "t", [v |-> v, id2 |-> "w", status |-> "ACTIVE"]) o(i) == S("tok", "reg", i, [v |-> "v1", id2 |-> i, status |-> "ACTIVE"])
           d == S("tok", "del", "t", E0) rv == S("tok", "revoke", "t", E0) q == S("tok", "get", "t", E0) w == S("tok", "getv", "w", E0) IN
       { << <<r("v1")>>, b, <<q, w, rv, q, d, w>> >> : b \in { <<rv, rv, rv, rv>>, <<rv, d, q, w>>, <<d, d, rv, w>>, <<r("v2"), q, w, rv>>, <<o("a"), o("b"), q, w, o("c")>>, <<d, r("v2"), rv, w>> } })
  \cup (LET r == S("jti", "reg", "j", E0) d == S("jti", "del", "j", E0) q == S("jti", "exists", "j", E0) o(i) == S("jti", "reg", i, E0) IN
       { << <<>>, b, <<q, r, q>> >> : b \in { <<r, r, r, r, r>>, <<r, d, r, q>>, <<r, o("j2"), o("j2"), r, q>> } })
  \cup (LET r(n) == S("cli", "reg", n, [v |-> "v1"]) q(i) == S("cli", "get", i, E0) gn == S("cli", "getn", "app one", E0) IN
       { << <<r("App One")>>, b, <<q("cli#1"), q("cli#2"), q("cli#3"), q("cli#4"), gn>> >> : b \in { <<r("App One"), r("APP ONE"), r("other"), gn>>, <<r("other"), q("cli#1"), gn, r("APP ONE"), gn>> } })
RaceTable(zz) == { c[1] \o <<Race(c[2], n)>> \o c[3] : c \in StoreRaces, n \in RaceN } \cup { c[1] \o <<Race(c[2], n)>> \o c[3] : c \in ConcSets, n \in { x \in RaceN : x % 2 = 0 } }

(* Chosen interleavings of store operations, stopped at every operation of the caches inside *)
Inter2 == LET Z == {0, 1} IN { Rep(i, a) \o Rep(1 - i, b) \o Rep(i, c) \o Rep(1 - i, d) : i \in Z, a, b \in 1..3, c, d \in {0, 1, 2} }
Inter3 == { Rep(i, a) \o Rep(j, b) \o Rep(3 - i - j, c) \o Rep(i, 4) : i, j \in {0, 1, 2}, a \in 1..4, b \in 1..4, c \in {2, 5} }
DeepPairs ==
  UNION { LET r(v) == S(k, "reg", "p", [v |-> v]) d == S(k, "del", "p", E0) q == S(k, "get", "p", E0) IN
          { << <<r("v1")>>, <<x, y>>, <<q, d, q>> >> : x, y \in {d, q, r("v2"), r("v3")} } \cup { << <<>>, <<r("v2"), y>>, <<q, d, q>> >> : y \in {d, q, r("v3")} } : k \in {"par", "code"} }
  \cup (LET r(v) == S("dev", "reg", "u", [v |-> v, id2 |-> "d", status |-> "PENDING"]) w(v) == S("dev", "val", "u", [v |-> v, id2 |-> "d", status |-> "VALIDATED", sexp |-> 70])
            d == S("dev", "del", "u", E0) gu == S("dev", "getu", "u", E0) gd == S("dev", "getd", "d", E0) IN
        { << <<r("v1")>>, <<x, y>>, <<gu, gd, w("v9"), gu, gd>> >> : x \in {w("v2"), r("v3")}, y \in {w("v4"), d, gu, gd, r("v5")} })
  \cup (LET r == S("jti", "reg", "j", E0) d == S("jti", "del", "j", E0) q == S("jti", "exists", "j", E0) IN { << <<>>, <<r, y>>, <<q, r, q>> >> : y \in {r, d, q} })
DeepTriples ==
  UNION { LET r(v) == S(k, "reg", "p", [v |-> v]) d == S(k, "del", "p", E0) q == S(k, "get", "p", E0) IN { << <<r("v1")>>, b, <<q, d, q>> >> : b \in { <<d, d, d>>, <<d, r("v2"), q>>, <<d, d, q>> } } : k \in {"par", "code"} }
  \cup (LET r(v) == S("dev", "reg", "u", [v |-> v, id2 |-> "d", status |-> "PENDING"]) w(v) == S("dev", "val", "u", [v |-> v, id2 |-> "d", status |-> "VALIDATED", sexp |-> 70])
            d == S("dev", "del", "u", E0) gu == S("dev", "getu", "u", E0) gd == S("dev", "getd", "d", E0) IN
        { << <<r("v1")>>, b, <<gu, gd, w("v9"), gu, gd>> >> : b \in { <<w("v2"), w("v3"), gd>>, <<w("v2"), d, gu>>, <<w("v2"), gu, gd>>, <<r("v2"), gu, gd>> } })
  \cup (LET r == S("jti", "reg", "j", E0) d == S("jti", "del", "j", E0) q == S("jti", "exists", "j", E0) IN { << <<>>, b, <<q, r, q>> >> : b \in { <<r, r, r>>, <<r, d, r>>, <<r, r, q>> } })
DeepTable(zz) == { c[1] \o <<Par(c[2], sc)>> \o c[3] : c \in DeepPairs, sc \in Inter2 } \cup { c[1] \o <<Par(c[2], sc)>> \o c[3] : c \in DeepTriples, sc \in Inter3 }

---------------------------------------------------------------------------
Macros == CASE Table = "authz" -> AuthzTable(0) [] Table = "scope" -> ScopeTable(0) [] Table = "bind" -> BindTable(0) [] Table = "partimes" -> ParTable(0)
            [] Table = "gate" -> GateTable(0) [] Table = "codes" -> CodeTable(0) [] Table = "devices" -> DeviceTable(0) [] Table = "refresh" -> RefreshTable(0)
            [] Table = "exchange" -> ExchangeTable(0) [] Table = "proofs" -> ProofTable(0) [] Table = "overlap" -> OverlapTable(0) [] Table = "faults" -> FaultTable(0) [] Table = "altered" -> AlterTable(0)
            [] Table = "reg" -> RegTable(0) [] Table = "conc" -> ConcTable(0) [] Table = "race" -> RaceTable(0) [] Table = "deep" -> DeepTable(0)
            [] OTHER -> {}

VARIABLE m
Init == m \in Macros
Next == FALSE /\ UNCHANGED m
Emit == PrintT("MACRO " \o ToJson(m))
=============================================================================
