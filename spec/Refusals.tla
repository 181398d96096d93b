------------------------------ MODULE Refusals ------------------------------
(***************************************************************************)
(* Which OAuth error codes may report a failed condition of an operation    *)
(* of Solid. When the code the implementation chose and the one the RFC     *)
(* recommends differ, both are permitted.                                   *)
(***************************************************************************)
EXTENDS Base

IR == "invalid_request"
IG == "invalid_grant"

AuthzCodes(n) ==
  CASE n = "client grant" -> {"unsupported_grant_type", "unauthorized_client", IR}
    [] n \in {"client known", "client", "request belongs to client", "authorization belongs to client"} -> {IR, "invalid_client", "unauthorized_client"}
    [] n \in {"response_type", "client response_type"} -> {IR, "unsupported_response_type"}
    [] n = "scope" -> {IR, "invalid_scope"}
    [] OTHER -> {IR}

GateCodes(n) ==
  CASE n \in {"client given", "client known"} -> {"invalid_client"}
    [] n = "grant_type supported" -> {IG, "unsupported_grant_type"}
    [] n = "grant registered" -> {"unsupported_grant_type", "unauthorized_client"}
    [] n = "grant payload" -> {IG, IR}
    [] n \in {"issuer", "issuer is a url"} -> {"server_error", IR}
    [] OTHER -> {IR}

GrantCodes(g, n) ==
  CASE g = "authorization_code" -> {IG}
    [] g = "urn:ietf:params:oauth:grant-type:device_code" ->
         (CASE n = "approved" -> {"authorization_pending"}
            [] n = "device_code alive" -> {IR, IG, "expired_token"} [] OTHER -> {IR, IG})
    [] g = "refresh_token" -> (CASE n = "key of the refresh_token" -> {"invalid_dpop_proof", IG} [] OTHER -> {IR, IG})
    [] g = "client_credentials" -> {"invalid_client", "unauthorized_client"}
    [] OTHER -> (CASE n = "audience is a known resource" -> {"invalid_target"} [] n = "scope attenuated" -> {"invalid_scope"} [] OTHER -> {IR, IG})

SvcCodes(n) == CASE n \in {"client given", "client known"} -> {"invalid_client"} [] OTHER -> {IR}
\* revoking somebody else's token; an unknown one is refused without a code
RevokeCodes(n) == CASE n = "token owner" -> {IG} [] n = "token known" -> {"internal", IR, IG} [] OTHER -> SvcCodes(n)
DeviceCodes(n) ==
  CASE n = "grant registered" -> {"unsupported_grant_type", "unauthorized_client"} [] n = "client known" -> {IR, "invalid_client"} [] OTHER -> {IR}
ApproveCodes(n) == CASE n = "user_code alive" -> {IR, "expired_token", "token_expired", "server_error"} [] OTHER -> {IR}

CodesOf(op, grant, n) ==
  CASE op \in {"push", "authorize"} -> AuthzCodes(n) [] op = "introspect" -> SvcCodes(n) [] op = "revoke" -> RevokeCodes(n)
    [] op = "devauth" -> DeviceCodes(n) [] op = "approve" -> ApproveCodes(n) [] OTHER -> GrantCodes(grant, n)
CodesFor(op, grant, names) == UNION { CodesOf(op, grant, n) : n \in names }

\* a failed dependency is the server's problem; some operations hide it
FaultCodes(op, at) ==
  {"server_error"} \cup (CASE op = "devauth" /\ at = "client" -> {IR} [] op = "revoke" /\ at = "tok" -> {"internal"} [] OTHER -> {})
=============================================================================
