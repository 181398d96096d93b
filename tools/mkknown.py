#!/usr/bin/env python3
"""Writes known-findings.json (repaired defects, and the ones recorded only)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = [
 ("B02", "cc9064d", "an authorization code could be redeemed by another client registering the same redirect_uri"),
 ("B01", "dabcf98", "two concurrent requests could both redeem one authorization code (get then delete, delete never failing)"),
 ("A03", "dabcf98", "two concurrent authorizations could both use one request_uri"),
 ("H01", "dabcf98", "several concurrent Delete of one pushed request or code all succeeded"),
 ("E02", "d694782", "two concurrent presentations of one DPoP proof were both accepted (check then register)"),
 ("E01", "377aa0d", "a DPoP proof with a blank jti was accepted"),
 ("C01", "8873889", "a device code was redeemable without approval state or expiry being checked"),
 ("C02", "8873889", "two approvals of one user_code by different subjects could both succeed"),
 ("C01", "4c2fc8c", "tokens of the device flow lost the requested audience"),
 ("D05", "aaf7f99", "token exchange could widen scope, change audience, unbind, outlive the subject token and use other token kinds"),
 ("D03", "743817d", "a client could revoke the token of another client"),
 ("A04", "57b72db", "Authorize followed the request of another client than the caller"),
 ("G09", "484a9b2", "generated request_uri values did not match their own validator"),
 ("A03", "484a9b2", "a request_uri with trailing characters passed the syntax check"),
 ("A01", "bb9891a", "redirect_uri was compared ignoring letter case"),
 ("B02", "bb9891a", "redirect_uri was compared ignoring letter case at the token endpoint"),
 ("A02", "2a7c175", "only the first offline_access of a scope was removed without prompt=consent"),
 ("D10", "2ebdc4c", "storage keys of two issuers collided when issuer and value concatenate to the same string"),
 ("H01", "15ee04e", "concurrent client registration crashed the process (concurrent map writes)"),
 ("D02", "063177f", "two concurrent refreshes could both rotate one refresh token"),
 ("D03", "063177f", "a revocation could be lost or reach a token of another issuer with the same id"),
 ("H01", "063177f", "callers could change stored tokens through the returned pointers; concurrent map access crashed"),
 ("G03", "ab4c694", "signed tokens carried a bare type instead of type+jwt"),
 ("G01", "2e19714", "JARM decoding accepted responses of other issuers/audiences, error responses did not round-trip"),
 ("A05", "1abeaa3", "the response mode of the request was not returned"),
 ("F02", "fa578c4", "client attestation PoP was accepted for another client than the attested one; nil dereference on missing claims"),
 ("E03", "d004455", "a key-bound refresh token was usable with another key or none"),
 ("G07", "d004455", "the confirmation of a refresh token was dropped on refresh"),
 ("G04", "f5df9f7", "verifiable tokens accepted non-canonical encodings"),
 ("G05", "f775e11", "pkce.Validate accepted blank or malformed challenges"),
 ("G03", "c51bd26", "an embedded-key token without jwk header panicked"),
 ("D06", "3895b1b", "client_credentials tokens had no subject"),
 ("J01", "bdff872", "client.Introspect did not report the attributes of the answer"),
 ("J01", "ed81f40", "client.Introspect panicked on every successful answer (promoted UnmarshalJSON of an embedded nil pointer)"),
 ("J01", "071803a", "client.PublicKeys panicked on a key set answer without keys"),
 ("J01", "8f1d678", "client.HTTP panicked on empty server metadata"),
 ("H01", "ef033e2", "in-memory device code sessions: a deletion concurrent with a validation was lost, lookups observed half of an update"),
 ("J01", "85bbd42", "the SDK client left response bodies open: key set answers, metadata answers with an error status"),
 ("J01", "6f1554e", "data race and torn key set when several callers of the SDK client refresh the cached keys"),
 ("D09", "2b4b5a8", "the token endpoint panicked on a store answering with nothing (code, refresh token, subject token)"),
 ("D09", "0fc14cb", "pushed and front-channel authorization panicked on a registry answering with nothing"),
 ("F01", "3039011", "private_key_jwt panicked on a registry answering with nothing"),
 ("F02", "3039011", "client attestation panicked on a registry answering with nothing, or authenticated nobody"),
    ("A05", "e07a671", "changing a request object after its authorization changed the session behind the code"),
    ("A03", "93af840", "changing a request object after pushing it changed the pushed request"),
    ("H01", "c2ecaea", "changing a client object after registering it, or one handed out by a lookup, changed the registry"),
 ("E01", "05d085e", "DPoP proofs of a request whose path is escaped named another URL (decoded path), or could not be built"),
 ("G01", "340a219", "JARM error responses lost their error_uri, and their state when only the error carries it"),
 ("H01", "973ab8c", "changing a resource handed out by a lookup changed the resource store"),
 ("I01", "424b669", "callers could change the server profile through its accessors"),
]
findings = [
 {"property": "G06", "op": "pair", "condition": "distinct identifiers",
  "case": {"sector": "a", "subject": "bc", "salt": ("0123456789abcdef" * 2).encode().hex()},
  "what": "pairwise.Hash gives sector 'a' with subject 'bc' the identifier of sector 'ab' with subject 'c': sector and subject are concatenated without separator "
          "(not repaired: the existing unit tests pin the outputs)"},
]
out = {"fixed": ["fixed: property=%s %s %s" % f for f in fixed], "findings": findings}
json.dump(out, open(os.path.join(V, "known-findings.json"), "w"), indent=1)
