#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

AZ="server/services/authorization/service.go"
TK="server/services/token/"
ST="server/storage/inmemory/"

p("A01","Authorization requests are admitted exactly when well-formed and permitted",
"An authorization request (pushed or direct) is accepted if and only if state (at least 32 bytes), nonce (at least 8 bytes), scope, audience, client_id, redirect_uri, response_type, a 43-byte code_challenge and code_challenge_method S256 are all given, redirect_uri is a syntactically valid URI, response_type is code or token, response_mode (when given) is a supported one, and the client exists, may use the authorization_code grant, and has registered that response_type, that response_mode ('jwt' standing for query.jwt with code and fragment.jwt with token) and, character for character, that redirect_uri. A refused request leaves no pushed request and no authorization code behind.",
["inputs","configurations"],"every combination of request attributes (absent, too short, boundary length, unsupported, unregistered, case variant) and every client registration",
"Unit tests pin one deviation at a time from one request and one client with mocked storage; they never check that combinations of deviations, boundary lengths, case variants or other client registrations give the same verdict, nor that both entry points agree.",
[AZ],[("validate","server/services/authorization/service.go:validate"),("validateClientCapabilities","server/services/authorization/service.go:validateClientCapabilities"),("Authorize / Register","server/services/authorization/service.go")])

p("A02","offline_access survives an OpenID request only with prompt=consent",
"When an authorization request with the openid scope asks for offline_access (any number of times, in any letter case), the scope kept for the authorization contains offline_access if and only if the request's prompt is exactly 'consent'; all other requested scope values are kept in order. Consequently a code obtained from an OpenID request without prompt=consent never yields a refresh token.",
["inputs","histories"],"every scope list (order, duplicates, letter case) and prompt value, followed through pushed request, authorization and token exchange",
"The unit tests use one scope list with one occurrence; duplicates, case variants and the end-to-end consequence at the token endpoint are not covered.",
[AZ,"sdk/types/string_array.go",TK+"grant_authorization_code.go"],[("offline_access stripping","server/services/authorization/service.go:validate"),("StringArray.Contains / Remove","sdk/types/string_array.go"),("refresh token emission","server/services/token/grant_authorization_code.go")])

p("A03","A pushed request_uri authorizes at most once, within 60 s, at its own issuer",
"A request_uri returned by a successful push can be used by at most one authorization attempt — successful or not, sequential or concurrent — and only at the issuer it was pushed to and within its announced lifetime of 60 seconds; an unknown, malformed, expired, used or foreign request_uri is refused. The authorization granted through a request_uri follows the parameters that were pushed, whatever other parameters accompany the reference.",
["histories","schedules","inputs"],"every sequence and interleaving of pushes, authorization attempts and clock advances, over several issuers and clients",
"The tests mock the storage, so single use, expiry, isolation and races are properties of code no test runs together.",
[AZ,ST+"authorization_request.go","sdk/generator/request_uri.go"],[("burn after read","server/services/authorization/service.go:Authorize"),("single-winner Delete","server/storage/inmemory/authorization_request.go:Delete"),("request_uri syntax","sdk/generator/request_uri.go")],
[("authorizationRequestStorage.backend","pushed requests by issuer and request_uri")])

p("A04","An authorization request is only accepted for the client presenting it",
"A pushed authorization request is accepted only when its client_id is the authenticated client's, and an authorization made in the context of a client (direct or through a request_uri) is granted only when the authorization request names that same client. Nothing is registered or issued otherwise.",
["inputs","histories"],"every pair of presenting client and client named by the request, for direct requests and for request_uris pushed by either client",
"Only one mismatching pair is tested for pushes and none for authorizations.",
[AZ],[("Register client association","server/services/authorization/service.go:Register"),("Authorize client association","server/services/authorization/service.go:Authorize")])

p("A05","Authorization responses and codes reflect the authorized request faithfully",
"A successful authorization returns a fresh, non-empty code together with the state, redirect_uri, client and response_mode of the authorized request, the issuer it was addressed to and a 60 second lifetime; the session behind the code carries the authenticated subject and exactly the authorized request (after offline_access and response_mode normalisation), whatever becomes of the request object afterwards. Codes and request_uris are never repeated.",
["inputs","histories"],"every accepted request through either entry point, in any interleaving with other clients', issuers' and subjects' authorizations",
"Tests compare one response field by field with a mocked generator; freshness and the link between the stored session and later token requests are not exercised.",
[AZ,"sdk/generator/authorization_code.go","sdk/generator/request_uri.go"],[("response assembly","server/services/authorization/service.go:Authorize"),("session registration","server/services/authorization/service.go:Authorize")])

p("B01","An authorization code yields tokens at most once",
"For every authorization code, at most one token request ever succeeds, whatever the interleaving of concurrent token requests and of storage or generator failures. The first well-formed token request that reaches an existing code consumes it, even when that request is then refused (wrong client, redirect_uri or code_verifier) or fails.",
["histories","schedules","fault_sequences"],"all sequences and interleavings of token requests for the same code, with every storage call failing or not",
"Tests use mocks in which Delete always behaves; neither replay nor concurrency nor faults around consumption are run against a store.",
[TK+"grant_authorization_code.go",ST+"authorization_code_session.go"],[("consume before checks","server/services/token/grant_authorization_code.go:authorizationCode"),("single-winner Delete","server/storage/inmemory/authorization_code_session.go:Delete")],
[("sessionStorage.backend","live authorization codes by issuer and code")])

p("B02","A code is only redeemable by its client, redirect_uri, verifier, issuer, in 60 s",
"A token request for an authorization code succeeds only if it is made by the client the code was issued to, at the issuer that issued it, within 60 seconds of issuance, with the same redirect_uri as the authorization request (still registered for that client, exact match) and a code_verifier of 43 to 128 bytes whose S256 hash is the request's code_challenge. When all of this holds, the client may use the authorization_code grant and nothing fails, it does succeed.",
["inputs","histories","configurations"],"every combination of presenting client, issuer, redirect_uri, verifier (lengths, case, plain challenge) and elapsed time",
"Tests check single deviations with a mocked session; issuer binding, expiry and the link with the authorization step are not exercised.",
[TK+"grant_authorization_code.go",ST+"authorization_code_session.go"],[("client, redirect_uri and PKCE checks","server/services/token/grant_authorization_code.go:authorizationCode"),("issuer-scoped key and expiry","server/storage/inmemory/authorization_code_session.go")])

p("B03","Code tokens carry exactly the authorized grant; refresh only with offline_access",
"Redeeming a code of an OpenID request returns an access token whose issuer, subject, client, scope and audience are those of the authorization, and it returns a refresh token with the same attributes if and only if the authorized scope contains offline_access. The values returned are stored, active and resolvable at that issuer only.",
["inputs","histories"],"every authorized request and redemption, interleaved with other clients, subjects and issuers",
"Tests compare against mocks for one subject and scope; propagation from authorization through storage to the token is not exercised end to end.",
[TK+"grant_authorization_code.go",TK+"generator.go",AZ],[("token meta construction","server/services/token/grant_authorization_code.go"),("generateAccessToken / generateRefreshToken","server/services/token/generator.go")])

p("C01","Device codes give tokens only after user approval, to their client, in 120 s",
"A device code yields tokens only when presented by the client that started the flow, at the same issuer, within 120 seconds of its creation, and after a user approved its user code; before approval the answer is authorization_pending and after expiry neither approval nor token issuance is possible. The tokens carry the approving subject and the scope and audience requested when the flow started, with a refresh token if and only if that scope contains offline_access. Starting a flow returns fresh codes, that lifetime and a positive polling interval.",
["histories","inputs"],"every sequence of device authorizations, approvals, polls and clock advances over several clients, issuers and subjects",
"Every test hand-builds a session through mocks; the flow is never run end to end (it could not work at all on the pinned tree) and time never passes.",
["server/services/device/service.go",TK+"grant_device_code.go",ST+"device_code_session.go"],[("Authorize / Validate","server/services/device/service.go"),("device_code grant","server/services/token/grant_device_code.go"),("session lifecycle","server/storage/inmemory/device_code_session.go")],
[("DeviceCodeSession.status","pending or validated"),("DeviceCodeSession.expires_at","end of the session")])

p("C02","A user code is approved at most once and its subject never changes",
"For every user code at most one approval succeeds, under every interleaving of concurrent approvals, and every token later issued for the device code carries the subject of that approval. A user code that is unknown, belongs to another issuer, is expired or was already approved is refused without effect.",
["schedules","histories"],"all interleavings of approvals by different subjects with polls and expiry",
"There is no test of Validate against a store and none with two approvals.",
["server/services/device/service.go",ST+"device_code_session.go"],[("check-and-set of the pending status","server/storage/inmemory/device_code_session.go:Validate"),("Validate","server/services/device/service.go:Validate")])

p("D01","Refresh tokens work only for their client, active, unexpired, at their issuer",
"A refresh request succeeds only for an active, unexpired refresh token presented at the issuer that issued it by the client it was issued to, being allowed the refresh_token grant; an access token, an unknown value or a revoked or rotated refresh token is refused. The access token obtained keeps the issuer, subject, client, scope and audience of the refresh token.",
["histories","inputs"],"every refresh attempt in every history of issuance, rotation, revocation and expiry over several clients and issuers",
"Tests feed hand-built tokens through mocks; the effect of previous operations on later refreshes is not exercised.",
[TK+"grant_refresh_token.go",ST+"token.go"],[("refresh preconditions","server/services/token/grant_refresh_token.go:refreshToken"),("value lookup by issuer","server/storage/inmemory/token.go:GetByValue")])

p("D02","Refresh tokens rotate near expiry and a rotated token never works again",
"A refresh whose access token would outlive the refresh token returns a replacement refresh token (same grant, full lifetime, same key binding) and revokes the presented one; otherwise the refresh token is kept and none is returned. Of any concurrent rotations of one refresh token at most one succeeds, and after it the old value is refused forever.",
["histories","schedules"],"all ages of the refresh token and all interleavings of refreshes with the same token",
"Tests pin two ages with mocks; nothing refreshes twice or concurrently.",
[TK+"grant_refresh_token.go",ST+"token.go"],[("rotation","server/services/token/grant_refresh_token.go:refreshToken"),("Revoke succeeds once","server/storage/inmemory/token.go:Revoke")])

p("D03","Revocation is permanent and reserved to the token's client",
"A successful revocation makes the token inactive in every later introspection, refresh and exchange at that issuer, permanently, and no operation ever reactivates it. Only the client the token was issued to can revoke it; a refused revocation (other client, other issuer, unknown token) changes no token.",
["histories","schedules"],"every history of issuance, revocation and use, with revocation racing refresh and introspection",
"Tests check one mocked call; permanence and ownership over histories are not exercised.",
[TK+"revoke.go",ST+"token.go"],[("ownership check","server/services/token/revoke.go:Revoke"),("status update","server/storage/inmemory/token.go:Revoke")])

p("D04","Introspection tells the truth about a token",
"Introspecting a value returns the metadata the token was issued with (issuer, subject, client, scope, audience, validity instants, confirmation), with status active exactly when it was issued at that issuer and has not been revoked or rotated since, and an unknown status for any other value; the token is usable exactly between its not-before and expiry instants, inclusive. It never changes the token and never reveals a stored token value for a guess.",
["histories","inputs"],"every value (issued, altered, foreign, random) in every history and at every instant around the validity bounds",
"Tests check one mocked token and one missing token.",
[TK+"introspection.go",ST+"token.go","sdk/token/helpers.go"],[("Introspect","server/services/token/introspection.go"),("IsUsable","sdk/token/helpers.go")])

p("D05","Token exchange never widens, extends, unbinds or redirects a token",
"A token exchange succeeds only for an active, unexpired access token of the same issuer and a client allowed that grant; the issued token keeps the subject and key binding, is owned by the requesting client, has a scope included in the subject token's, an audience that is either the subject token's or a registered resource, and expires after 60 seconds or with the subject token, whichever is first. A wider scope, an unknown resource or another kind of subject token is refused.",
["inputs","histories"],"every subject token, requested scope and audience, and every chain of exchanges, refreshes and revocations",
"There is no test of token exchange at all.",
[TK+"grant_token_exchange.go",ST+"resource.go"],[("tokenExchangeAccessToken","server/services/token/grant_token_exchange.go"),("GetByURI","server/storage/inmemory/resource.go")])

p("D06","Client credentials give an access token only, to confidential clients only",
"The client_credentials grant succeeds exactly for confidential or credentialed clients that are allowed it, and returns an access token owned by that client, with that client as subject and the requested scope and audience, and never a refresh token. Public clients are refused whatever their registration says.",
["inputs","configurations"],"every client type and grant registration, every requested scope and audience",
"Tests cover a few client types with mocks and never inspect the stored token.",
[TK+"grant_client_credentials.go"],[("clientCredentials","server/services/token/grant_client_credentials.go")])

p("D07","Grants are gated by the request's shape and the client's registered grants",
"A token request succeeds only when its grant_type is supported, the matching grant payload is given, the issuer is a URL, the client is known and is registered for exactly that grant type; in every other case no token is issued and no existing artefact (code, device session, token) is consumed or changed. The grants of the stored registration decide, not those claimed by the request.",
["inputs","configurations"],"every pair of grant_type and payload, every registered grant set, every client (known, unknown, absent)",
"The tests check fixed pairs with mocks; the absence of side effects on other artefacts is not observable there.",
[TK+"service.go",TK+"validator.go"],[("validateRequest","server/services/token/validator.go"),("grant dispatch","server/services/token/service.go:Token"),("grant type checks","server/services/token/grant_*.go")])

p("D08","Issued tokens have bounded, consistent validity and unique identities",
"Every issued token is active, issued at the current time, usable one second later, and expires after exactly 1 hour (access token), 7 days (refresh token) or at most 60 seconds (exchanged access token); tokens of a refresh or rotation get their own fresh window. No two tokens ever share an identifier or a value.",
["histories","inputs"],"every token issued by any grant at any time in any history",
"Tests freeze time and compare with mocks; uniqueness over many issuances is never checked.",
[TK+"generator.go",TK+"grant_token_exchange.go","sdk/token/token.go"],[("generateAccessToken / generateRefreshToken","server/services/token/generator.go"),("OpaqueToken","sdk/token/token.go")])

p("D09","A failed request never discloses a credential, even when dependencies fail",
"Whatever storage, registry or generator call fails at whatever point, or answers with nothing or with an incomplete, stale or foreign record, the operation either reports an error with no code, request_uri, device code, user code or token in the response, or fully succeeds; it never panics and never reports success for an artefact that was not stored. After a failure, single-use artefacts are not usable more often than without it and no previously revoked token becomes active.",
["fault_sequences","histories"],"every operation with every subset of its dependency calls failing, in any state, followed by retries",
"Tests inject some single failures per operation with mocks and never retry afterwards.",
[AZ,"server/services/device/service.go",TK+"generator.go",TK+"grant_authorization_code.go",TK+"grant_refresh_token.go"],[("error paths of every operation","server/services/*/*.go")])

p("D10","Issuers are isolated from each other",
"A request_uri, authorization code, device code, user code or token created at one issuer is unknown at every other issuer — also when the issuer strings and values overlap such that their concatenations are equal — and operations at one issuer never change what another issuer answers.",
["inputs","histories"],"every pair of distinct issuers (also one a prefix of the other) and every artefact kind and operation",
"All tests use one issuer.",
[ST+"authorization_request.go",ST+"authorization_code_session.go",ST+"device_code_session.go",ST+"token.go"],[("storage key derivation","server/storage/inmemory/*.go:derive*")])

p("E01","DPoP proofs are accepted exactly when valid for this request, key and token",
"A DPoP proof is accepted if and only if it is a signed JWT of type dpop+jwt with an allowed asymmetric algorithm and an embedded public key that verifies its signature, a non-empty identifier, the request's method and URL, an issuance time within 15 seconds of now, and — when a token is presented — the hash of exactly that token and, when the token is bound, the key it is bound to. On acceptance the returned confirmation is the RFC 7638 SHA-256 thumbprint of that key.",
["inputs"],"every combination of header, key, algorithm, signature, claims, clock offset and token binding deviations",
"The verifier's tests mock the JWT layer, so signatures, key handling and encodings are never exercised, and they try single deviations.",
["sdk/dpop/verifier.go","sdk/token/jwt/embedded_verifier.go","sdk/token/jwt/token_adapter.go"],[("Verify","sdk/dpop/verifier.go"),("thumbprint","sdk/token/jwt/token_adapter.go:PublicKeyThumbPrint")])

p("E02","A DPoP proof is accepted at most once",
"Among any number of presentations of proofs with the same identifier — sequential or concurrent, at the same or another endpoint, while they are fresh enough to be accepted — at most one is accepted; if the replay store fails, the proof is refused. A refused proof that never reached the replay check does not burn its identifier.",
["schedules","histories","fault_sequences"],"all sequences and interleavings of presentations over the whole acceptance window, with the replay store failing or not",
"Tests mock the replay store; the check-then-register race and the window/retention relation are not exercised.",
["sdk/dpop/verifier.go",ST+"proof.go"],[("checkProofCache","sdk/dpop/verifier.go"),("atomic Register","server/storage/inmemory/proof.go:Register")],
[("proofCache.backend","identifiers of accepted proofs")])

p("E03","A token's key binding follows it through every derivation",
"A token requested with a key confirmation is bound to that key: the access token, its refresh token, every token refreshed, rotated or exchanged from them and their introspection all carry the same confirmation, and one requested without confirmation has none. A refresh token bound to a key is only usable together with a confirmation for the same key.",
["histories","inputs"],"every history of grants, refreshes, rotations and exchanges with every confirmation (none, same key, other key)",
"Tests never follow a confirmation across operations.",
[TK+"generator.go",TK+"grant_refresh_token.go",TK+"grant_token_exchange.go",TK+"grant_device_code.go"],[("confirmation propagation","server/services/token/*.go")])

p("F01","private_key_jwt authenticates exactly the client whose key signed",
"private_key_jwt authentication succeeds if and only if the assertion type is the JWT bearer one and the assertion is a JWT signed with an allowed algorithm, not expired, with issuer and subject equal, audience and identifier present, naming a known client one of whose registered signature keys (not an encryption key) verifies it; the result is that client. Every other input is refused with an error and no client, without panic.",
["inputs","configurations"],"every combination of assertion type, claims, clock offset, signing key, algorithm and client key set",
"Tests use a handful of static assertions with mocked clients.",
["server/clientauthentication/private_key_jwt.go","sdk/jwk/signature.go"],[("Authenticate","server/clientauthentication/private_key_jwt.go"),("ValidateSignature","sdk/jwk/signature.go")])

p("F02","Client attestation authenticates exactly the attested key holder",
"Attestation-based authentication succeeds if and only if the attestation is signed by a registered key of the known attester it names, is within its validity period and confirms a key, and the accompanying proof of possession is signed by that confirmed key, complete, within its validity period and issued by the attested client, which must be known; the result is that client. Every other input is refused with an error and no client, without panic.",
["inputs","configurations"],"every combination of deviations in the attestation, the proof of possession, the keys and the clock",
"There is no test of client attestation.",
["server/clientauthentication/client_attestation.go","sdk/jwk/signature.go"],[("Authenticate","server/clientauthentication/client_attestation.go"),("validateClientAttestation","server/clientauthentication/client_attestation.go")])

p("G01","JARM responses round-trip and are accepted only when authentic and addressed",
"Encoding a complete successful authorization response and decoding it with the same issuer, the client as audience and the signing key within its lifetime gives the same code, state and issuer; an error response gives the same error and state. Decoding fails for any response with another token type, signature key, issuer, audience, or past expiry, and encoding an incomplete response fails.",
["inputs"],"every response and every deviation of type, key, issuer, audience, lifetime and completeness",
"Encoder and decoder tests mock the JWT layer and each other.",
["sdk/jarm/encoder.go","sdk/jarm/decoder.go"],[("Encode","sdk/jarm/encoder.go"),("Decode","sdk/jarm/decoder.go")])

p("G02","Signed request objects are decoded only when authentic, and losslessly",
"Encoding any authorization request and decoding it with the signer's key set returns an equal request; a request object that is altered, unsigned, signed with an unknown key, with a disallowed algorithm or with an encryption key, or that carries unknown or ill-typed parameters is refused.",
["inputs"],"every authorization request and every tampering of its signed form",
"Tests mock the signing layer, so no request ever makes the round trip.",
["sdk/jwsreq/encoder.go","sdk/jwsreq/decoder.go","sdk/token/jwt/verifier.go"],[("Encode","sdk/jwsreq/encoder.go"),("Decode","sdk/jwsreq/decoder.go"),("Claims","sdk/token/jwt/verifier.go")])

p("G03","JWT verification accepts exactly allowed signatures by a permitted key",
"Claims are extracted from a JWT only when its signature is made with an allowed algorithm by a key of the trusted set that is not an encryption key and that the token's key id, if any, designates (or, for embedded-key verification, by the embedded public key); a signed token carries the type of its purpose suffixed by +jwt and the key id, and every alteration of header, payload or signature is refused.",
["inputs","configurations"],"every key set (several keys, same or missing key ids, encryption keys), algorithm list and token",
"Tests use few static tokens and single-key sets.",
["sdk/token/jwt/signer.go","sdk/token/jwt/verifier.go","sdk/token/jwt/embedded_verifier.go","sdk/jwk/signature.go"],[("Serialize","sdk/token/jwt/signer.go"),("Claims","sdk/token/jwt/verifier.go"),("Claims","sdk/token/jwt/embedded_verifier.go")])

p("G04","Verifiable tokens authenticate their prefix and content, in one encoding",
"A verifiable UUID token verifies under the key that generated it and yields exactly the UUID it was generated from, with or without prefix; any other string — altered, re-encoded, truncated, extended, with another prefix or key — is refused without panic. Access, refresh and phantom tokens carry their own prefix.",
["inputs"],"every UUID, nonce, prefix and key, and every mutation of a token",
"Tests use a few fixed UUIDs; boundary encodings and mutations are not covered.",
["sdk/token/verifiable/uuid.go","sdk/token/verifiable/helpers.go","sdk/token/verifiable/verifiable.go"],[("Generate / Extract","sdk/token/verifiable/uuid.go"),("base62","sdk/token/verifiable/helpers.go")])

p("G05","PKCE helpers agree with the token endpoint's S256 check",
"A generated code_verifier is 43 to 128 unreserved characters, unique, and its challenge is the base64url SHA-256 of it; validation answers true exactly for the verifier whose S256 hash is the challenge and reports blank or malformed challenges as errors. The pair is accepted by the authorization and token endpoints.",
["inputs"],"every challenge and verifier, generated or not",
"There is no test of the pkce package.",
["sdk/pkce/verifier.go",TK+"grant_authorization_code.go"],[("CodeVerifier / Validate","sdk/pkce/verifier.go")])

p("G06","Pairwise subjects are stable and distinct per sector, subject and salt",
"For one salt, pairwise encoding always gives the same identifier for the same sector and subject (surrounding blanks of the subject ignored) and different identifiers for different sector/subject pairs; another salt gives other identifiers. A salt shorter than 16 or longer than 64 bytes and a blank subject are refused.",
["inputs"],"every salt length, sector and subject, including pairs that share prefixes",
"Tests pin a few outputs; distinctness is never checked.",
["sdk/pairwise/hash.go"],[("Encode","sdk/pairwise/hash.go")])

p("G07","Structured tokens carry exactly the token's claims, or are not produced",
"JWT access tokens, refresh tokens and client assertions carry exactly the issuer, subject, audience, validity instants, identifier, and (for tokens) client, scope and confirmation of the token they represent, and verify under the signer's key; they are produced exactly when the required attributes are present and printable and the instants are consistent (issued not in the future, expiry within 2 hours — 14 days for refresh tokens — of issuance).",
["inputs"],"every combination of absent, malformed and boundary attributes",
"Tests mock the serializer, so the claims are not inspected, and boundary instants are not tried.",
["sdk/token/access_token.go","sdk/token/refresh_token.go","sdk/token/client_assertion.go"],[("Generate / validateMeta","sdk/token/*.go")])

p("G08","Signed introspection assertions disclose a token only while active",
"A signed introspection assertion says active exactly when the token's status is active and the current time is between its not-before and expiry instants, inclusive; when active it carries the token's attributes unchanged, otherwise it discloses none of them.",
["inputs"],"every status and every instant around the validity bounds, every metadata",
"Tests mock the signer and do not inspect claims.",
["sdk/token/introspection.go","sdk/token/helpers.go"],[("Generate","sdk/token/introspection.go"),("IsUsable","sdk/token/helpers.go")])

p("G09","Generated identifiers have their documented form and never repeat",
"Generated authorization codes, device codes, user codes, request_uris, client ids and opaque tokens have their documented length and alphabet, are accepted by their own validators, which refuse values of another length (codes) or form (request_uri), and do not repeat, also under concurrent generation.",
["inputs","schedules"],"many sequential and concurrent generations and every malformed value",
"Tests generate one value each; the request_uri generator had no test and produced values its validator refused.",
["sdk/generator/authorization_code.go","sdk/generator/device_code.go","sdk/generator/device_user_code.go","sdk/generator/request_uri.go","sdk/generator/client.go","sdk/token/token.go"],[("Generate / Validate","sdk/generator/*.go")])

p("H01","In-memory stores behave as linearizable, expiring, isolated maps",
"Every concurrent history of operations on each in-memory store (pushed requests, code sessions, device sessions, tokens, DPoP identifiers, clients, resources) is explained by some sequential order respecting real time: a read returns what was last written under that issuer and key and not yet deleted or expired, exactly one of competing deletions, approvals, revocations or identifier registrations of an entry succeeds, and what a caller does to the objects it was handed never changes what is stored.",
["schedules","histories","inputs"],"every history and interleaving of store operations by concurrent callers, and every clock advance around the expiry instants",
"There is no test of any in-memory store.",
[ST+"authorization_request.go",ST+"authorization_code_session.go",ST+"device_code_session.go",ST+"token.go",ST+"proof.go",ST+"client.go",ST+"resource.go"],[("store operations","server/storage/inmemory/*.go")])

p("I01","The strict server profile permits exactly its documented client capabilities",
"The strict profile knows exactly the web, native, device and service application types and permits for each exactly its grant types (web: authorization_code; native: authorization_code and refresh_token; device: device_code and refresh_token; service: client_credentials), its response types (code; token for service) and private_key_jwt as the only token endpoint authentication. The answer does not depend on what was asked before or on what callers did with earlier answers' contents through the exposed accessors.",
["inputs","histories"],"every application type and capability, in every order of queries",
"There is no test of the profile.",
["server/profile/profile_strict.go","server/profile/client.go","server/profile/server.go"],[("strictProfile","server/profile/profile_strict.go")])

p("J01","The SDK client and the server agree on identity, tokens and keys",
"The SDK client's assertion authenticates exactly that client at the server; its token and introspection calls report the server's answer faithfully (an inactive token is never reported active, attributes are the server's), and every error answer of the server is an error for the caller. An error answer is reported with the server's error, and every response body is closed whatever the outcome. Keys are taken from a non-empty, unexpired key set and are fetched again once the cached set has expired; concurrent callers each get one key set the server handed out (or the one held), whole, without data race.",
["inputs","histories","schedules"],"every server answer (success, error, malformed, empty, expired), every clock advance around key set expiry, concurrent callers",
"There is no test of the client package.",
["client/http.go","client/claims.go"],[("Assertion","client/http.go"),("ClientCredentials / Introspect / PublicKeys","client/http.go")])

p("G10","CWT signing binds type, key id and claims under the signer's key",
"A CWT made by any of the CWT signers carries its purpose's type suffixed by +cwt, the key id of the key that signed it and exactly the given claims, and verifies under that key with the configured algorithm; nothing is signed without claims, without a key, without a key id, with a public key or with a key that is not of the algorithm's family. CWT access tokens, refresh tokens and client assertions carry the same claims as their JWT form, under the registered labels.",
["inputs","configurations"],"every purpose, algorithm, key and claims, and every combination of absent or malformed attributes",
"Tests sign a few maps with one key and never open the result.",
["sdk/token/cwt/signer.go","sdk/token/access_token.go","sdk/token/refresh_token.go","sdk/token/client_assertion.go"],[("Serialize","sdk/token/cwt/signer.go"),("claims labels","sdk/token/access_token.go")])

p("G11","Sign-then-encrypt never returns anything but the encryption of the signature",
"A sign-then-encrypt serializer returns exactly what the encrypter makes of exactly what the signer produced, under the signer's content type and the fixed additional data; if the signer or the encrypter is missing or fails, it returns an error and nothing else, and the encrypter never sees unsigned content.",
["inputs","faults"],"every combination of absent, failing and working signer and encrypter",
"Tests check the error value only.",
["sdk/token/encrypted.go"],[("Serialize","sdk/token/encrypted.go")])

p("K01","Case-insensitive lists and constant-time comparison mean what they say",
"String lists answer membership, any-of and all-of questions ignoring letter case for every list; removing a value removes all its occurrences, keeping the others in order; adding a value adds it once, only when absent. The secure comparisons answer true exactly for equal values. (All request validation relies on these.)",
["inputs"],"every list, value and pair of values, with duplicates, case variants, empty and non-ASCII ones",
"Tests use a few short lists; removal of repeated or adjacent occurrences and all-of with partial matches are not covered.",
["sdk/types/string_array.go","sdk/types/compare.go"],[("Contains / HasOneOf / HasAll / Remove / AddIfNotContains","sdk/types/string_array.go"),("SecureCompareString","sdk/types/compare.go")])

p("K02","The seeded random source is reproducible and safe for concurrent use",
"A locked random source or reader with a given seed produces the same stream as the standard generator with that seed, whatever the sequence of operations; concurrent callers of any of its methods share that stream without losing, repeating or corrupting draws or racing. The process-wide generators are seeded unpredictably and stay within their ranges.",
["inputs","schedules"],"every seed, sequence of draws and interleaving of callers",
"Tests draw a few values from one goroutine.",
["sdk/randomness/locked_rand.go","sdk/randomness/global.go","sdk/randomness/source.go"],[("LockedRand","sdk/randomness/locked_rand.go"),("NewReader","sdk/randomness/source.go")])

p("K03","Error builders give the registered code and never share state",
"Every error constructor gives the OAuth error code of its name with a description, to which a caller can attach its own description and state; an error once built, and errors built elsewhere, are never affected by what is done to another one.",
["inputs","histories"],"every pair of constructors, with and without description and state",
"Tests build each error once.",
["sdk/rfcerrors/builder.go","sdk/rfcerrors/errors.go"],[("ErrorBuilder","sdk/rfcerrors/builder.go")])

p("L01","Refused requests report the error their failed condition calls for",
"Every refused request of the authorization, pushed request, token, device, approval, introspection and revocation services, and of client authentication, carries the OAuth error of one of the conditions it failed: an unauthenticated or unknown client is invalid_client (invalid_request before authentication), a grant the client did not register is unsupported_grant_type, a bad code invalid_grant, a bad or foreign refresh token, device code or subject token invalid_request or invalid_grant, a mismatched DPoP key invalid_dpop_proof, an unknown audience invalid_target, a widened scope invalid_scope, a device flow awaiting approval authorization_pending, everything malformed invalid_request, failed client authentication is invalid_client or unauthorized_client (invalid_request when malformed); and server_error is reported when, and outside concurrent requests only when, a dependency failed or the server is addressed by an unusable issuer. The state echoed by an error is absent or that of the very authorization request concerned. (Revoking an unknown token is refused without a code; an unavailable client registry at the device endpoint is reported as invalid_request.) Accepted requests carry no error.",
["inputs","histories","fault_sequences"],"every refused request, alone or in any history, with every combination of failed conditions and failed dependencies",
"Tests pin the code of single deviations against mocked stores; combinations, real histories (expired, consumed, rotated, foreign artefacts) and failures at each dependency call are not covered.",
[AZ,TK+"service.go",TK+"validator.go",TK+"grant_authorization_code.go",TK+"grant_device_code.go",TK+"grant_refresh_token.go",TK+"grant_token_exchange.go",TK+"grant_client_credentials.go","server/services/device/service.go"],
[("request validation","server/services/token/validator.go:validateRequest"),("store errors and their codes","server/services/token/grant_authorization_code.go:authorizationCode"),("device errors","server/services/device/service.go")])

p("M01","API messages survive every encoding and calls reach their method",
"Every message of the API declared by the .proto contract keeps exactly the fields set in it, explicitly set zero values of optional fields included, through the binary encodings (the fast one and the standard one, in any combination, parts and fields in any order, unknown fields ignored) and through JSON (proto field names, every implicit field written, enumerators by name; both proto and lowerCamelCase names read, unknown members ignored); the accessors tell the same, the announced size is the size written, the fields are written under the numbers of the contract, a truncated encoding is refused or yields only fields of the original, decoded messages share nothing with the input, and a missing message is empty. Enumerators have the names of the contract. A remote call through the generated client and service reaches the method of its path, with the request as sent and the response or status as answered, with or without an interceptor.",
["inputs"],"every field of every message with every value, alone and combined, through every pair of encodings",
"No test touches the generated encoders, decoders, JSON methods or service stubs.",
["api/oidc/flow/v1/flow_api_vtproto.pb.go","api/oidc/client/v1/client_vtproto.pb.go","api/oidc/token/v1/token_vtproto.pb.go","api/oidc/token/v1/token.pb.json.go","api/oidc/flow/v1/flow_api_grpc.pb.go","proto/oidc/flow/v1/flow_api.proto"],
[("binary encoding","api/oidc/*/v1/*_vtproto.pb.go"),("JSON","api/oidc/*/v1/*.pb.json.go"),("services","api/oidc/*/v1/*_grpc.pb.go")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
