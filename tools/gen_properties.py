#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
S = "src/oidcop/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files],
                          "state": [dict(name=a, meaning=b, where=S + c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=S + b) for a, b in mechanism],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "A token or grant is active exactly while its validity rules allow it",
     "An authorization code, token or grant reports itself active exactly when it is not revoked, its use count is below its usage limit (if it has one) and the current time lies within its not-before and expiry bounds (a bound of zero means no bound). Every authorization code has a usage limit of exactly one whatever usage rules it was issued under. Once an item is revoked or has used up its limit it is never reported active again, at any time.",
     ["inputs", "histories"], "all usage rules, use counts, revocation flags, time bounds and clock values, and all later uses and revocations",
     "The tests sample a handful of clock values and rule sets; the predicate has to be right for every combination and boundary instant.",
     ["session/token.py"], [("Item.is_active / max_usage_reached / register_usage / revoke", "session/token.py"), ("AuthorizationCode.set_defaults", "session/token.py")],
     [("used", "number of registered uses", "session/token.py"), ("revoked", "revocation flag", "session/token.py")])

prop("C02", "Authorization codes are redeemed once, by their client, at their redirect URI",
     "The token endpoint hands out tokens for an authorization code only if the code was issued by this server, is active, belongs to the client making the request, and the redirect URI presented equals the one in the original authorization request when there was one. Every redemption that hands out tokens leaves the code used, so that no later request with the same code obtains tokens. A request refused on these grounds mints nothing.",
     ["inputs", "histories"], "all token requests (any code, client, redirect URI, scope, extra parameters) against any session state",
     "Tests redeem a few codes along the expected path; the guarantee is about every combination of request parameters and prior history.",
     ["oauth2/token.py", "oidc/token.py", "session/grant.py"], [("AccessTokenHelper.post_parse_request / process_request", "oauth2/token.py"), ("AccessTokenHelper.post_parse_request / process_request", "oidc/token.py")],
     [("issued_token", "tokens and codes issued under a grant", "session/grant.py")])

prop("C03", "Recursive revocation reaches exactly the token and everything derived from it",
     "Recursively revoking a token marks that token and every token derived from it, directly or through any number of intermediate tokens, as revoked, and leaves every other token under the grant, and all its other attributes, unchanged; revoking with neither a value nor a base marks all tokens of the grant. Revocation never turns a revoked token back into a valid one. Presenting an already used authorization code at the OpenID Connect token endpoint revokes every token derived from that code and is refused.",
     ["inputs", "histories"], "all issued-token lists of any length, and all derivation relations between them",
     "Tests use derivation chains of depth one or two in one order; the recursion has to be right for every list length, order and derivation depth.",
     ["session/grant.py", "session/manager.py", "oidc/token.py"], [("Grant.revoke_token", "session/grant.py"), ("SessionManager.revoke_token / _revoke_dependent", "session/manager.py"), ("AccessTokenHelper.post_parse_request", "oidc/token.py")])

prop("C04", "Tokens are minted only from an active grant and an active, entitled base token",
     "No code or token is ever minted under a grant that is not active, nor from a base token that is inactive or whose usage rules do not list the requested kind. Every minted token is recorded under its grant, linked to the token it was based on, and carries the usage rules and scope it was minted with, with its expiry taken from those rules. A refused minting records nothing.",
     ["inputs", "histories"], "all grants, base tokens, usage rules, token kinds and scopes",
     "Tests mint from a few valid configurations; refusal and bookkeeping must hold in every state.",
     ["session/grant.py", "oauth2/token.py", "oauth2/authorization.py"], [("Grant.mint_token", "session/grant.py"), ("TokenEndpointHelper._mint_token", "oauth2/token.py"), ("Authorization.mint_token", "oauth2/authorization.py")])

prop("C05", "Refresh honours the token's client, its state and the originally granted scope",
     "A refresh request yields tokens only if the refresh token was issued by this server, is an active refresh token and belongs to the requesting client. A scope asked for at refresh that is not wholly contained in the scope of the token it derives from is refused, and no refreshed token ever carries a scope outside the grant. When rotation revokes on issue, the presented refresh token is inactive after a successful refresh.",
     ["inputs", "histories"], "all refresh requests (token, client, scope set) and all chains of refreshes",
     "Tests refresh once or twice with fixed scopes; scope containment must hold over every chain of refreshes and every requested scope.",
     ["oauth2/token.py", "oidc/token.py", "session/grant.py"], [("RefreshTokenHelper.post_parse_request / process_request", "oauth2/token.py"), ("RefreshTokenHelper.post_parse_request / process_request", "oidc/token.py"), ("Grant.find_scope", "session/grant.py")])

prop("C06", "Revoking a grant or client session makes everything issued under it unusable",
     "After a grant is revoked, or a client's session is revoked (for instance by logout), the affected grants are inactive and every code and token issued under them is inactive: it is refused by the token and userinfo endpoints and reported inactive by introspection. Sessions of other clients and other users, and their grants and tokens, are not affected.",
     ["inputs", "histories"], "all session trees, any number of clients, grants and issued tokens, and every later request",
     "Tests revoke one grant in a single-user tree and look at the grant's own flag, not at what its tokens can still do.",
     ["session/manager.py", "session/grant.py", "session/token.py"], [("SessionManager.revoke_client_session / revoke_grant", "session/manager.py"), ("Grant.revoke", "session/grant.py")])

prop("C07", "The session store returns what was stored and deletes exactly what was named",
     "Storing a user, client or grant entry makes that entry, and it alone, retrievable under its path, and links it under its parents. Deleting a path removes that entry and everything below it, together with parents left without children, and nothing else; looking up a missing path always fails with a lookup error and deleting one changes nothing.",
     ["inputs", "histories"], "all identifiers without the path separator, and all sequences of store, update and delete operations",
     "Tests run a few operations on two or three fixed paths; isolation between paths must hold for every tree and operation sequence.",
     ["session/database.py", "session/info.py"], [("Database.set / get / delete / update", "session/database.py"), ("SessionInfo.add_subordinate / remove_subordinate", "session/info.py")],
     [("db", "flat map from joined path to entry", "session/database.py")])

prop("C08", "Session handles and opaque tokens decode only to what they were made from",
     "A session handle decodes to exactly the user, client and grant it was made for, and an opaque code or token decodes to exactly the session and kind it was minted with. A string that carries nothing this server sealed or signed never decodes, and a value of one kind is never accepted as another kind.",
     ["inputs"], "all identifiers (which neither contain the path separator nor begin or end with its character; the last not ending in whitespace), all session identifiers and all presented strings (the textual variants of one base64 value apart)",
     "Tests round-trip a few ASCII identifiers; packing and unpacking must be inverse for every identifier and kind confusion must be impossible for every token.",
     ["session/database.py", "util.py", "token/__init__.py", "token/handler.py", "token/jwt_token.py"],
     [("lv_pack / lv_unpack", "util.py"), ("Crypt", "util.py"), ("Database.encrypted_session_id / decrypt_session_id", "session/database.py"), ("DefaultToken.__call__ / info", "token/__init__.py"), ("TokenHandler.get_handler", "token/handler.py")])

prop("C09", "Only a redirect URI registered by the requesting client is ever used",
     "An authorization (or post-logout) redirect is accepted only if, after percent-decoding, it has no fragment, its part before the query equals one registered by that same client (the letter case of the scheme aside), and its query parameters, as a set of names with values, are exactly the registered ones. A request without a redirect URI is served only when the client registered exactly one, and then that one is used. The URI used in the response is the verified one.",
     ["inputs", "configurations"], "all requested URIs and all registered URI sets of a client",
     "Tests try a dozen URIs; exact matching must hold for every string and every registration.",
     ["oauth2/authorization.py", "util.py"], [("verify_uri / get_uri", "oauth2/authorization.py"), ("split_uri", "util.py")])

prop("C10", "A client is authenticated only on proof that it is that client",
     "A request is attributed to an authenticated client only if that client is known, its secret has not expired, and the request carries that client's own secret, or an assertion signed by that client with the kind of key the method calls for and addressed to this server. An assertion with an identifier is accepted at most once. A bearer token proves only itself: a request that bears one is attributed, at an endpoint which looks tokens up, to the client the token was issued to. When every configured method fails and unauthenticated clients are not allowed at the endpoint, the request is refused.",
     ["inputs", "histories"], "all requests, authorization headers, assertions, client databases and previously seen assertion identifiers",
     "Tests present a few correct and incorrect credentials; the decision must be right for all inputs and for replays.",
     ["client_authn.py", "endpoint.py"], [("ClientSecretBasic / ClientSecretPost / JWSAuthnMethod.verify", "client_authn.py"), ("verify_client / valid_client_info", "client_authn.py"), ("Endpoint.client_authentication", "endpoint.py")],
     [("jti_db", "assertion identifiers already seen", "endpoint_context.py")])

prop("C11", "A code bound to a PKCE challenge is redeemable only with the matching verifier",
     "When an authorization request carried a code challenge, the token endpoint accepts the code only together with a verifier whose transformation under the method of that request equals the challenge; a missing or different verifier is refused. Authorization requests that lack a challenge are refused when the client (or, unless the client overrides it, the server) requires one, and challenges with a method outside the configured ones are refused; a request that names no method means the plain method.",
     ["inputs", "configurations"], "all challenges, verifiers, methods and client/server settings",
     "Tests check one or two verifiers per method.",
     ["oidc/add_on/pkce.py"], [("post_authn_parse / post_token_parse / verify_code_challenge", "oidc/add_on/pkce.py")])

prop("C12", "Cookies carry back exactly what was put in them, and only from this server",
     "A cookie produced by the server, for a type without a colon and a timestamp without a vertical bar, parses back to the same value, type and timestamp, under every key configuration (signed, encrypted, both). A cookie whose content was altered, truncated, recombined or made with other keys is never accepted, and cookies with other names are ignored.",
     ["inputs", "configurations"], "all values, types, timestamps, key configurations and presented cookie strings",
     "Tests round-trip a few values and flip a few characters.",
     ["cookie_handler.py", "util.py"], [("CookieHandler.make_cookie_content / parse_cookie / _sign_enc_payload / _ver_dec_content", "cookie_handler.py")])

prop("C13", "User claims are released only when something authorises their release",
     "A user claim is released at a release point only if it is a configured base claim, an always-added claim, a claim belonging to an allowed scope that was granted (where release by scope is on), or a claim asked for in the authorization request for that release point; and a claim whose request names a value or values is released only if the user's value satisfies it. Claims the user database has no value for are omitted and released values are the user's own. Computing a release never changes the client's or server's configuration.",
     ["inputs", "configurations", "histories"], "all configurations, claims requests, scope sets, user records and sequences of requests",
     "Tests release a few claim sets; an over-release depends on the combination of configuration, scopes, request and history.",
     ["session/claims.py", "scopes.py"], [("ClaimsInterface.get_claims_from_request / get_user_claims / _client_claims", "session/claims.py"), ("claims_match", "session/claims.py")])

prop("C14", "Userinfo is served only for an active access token of a still valid login",
     "The userinfo endpoint returns user claims only when presented with an access token issued by this server that is active and whose user authentication is still valid at that moment. The answer concerns the user and client of that token's session, always carries the session's subject identifier as subject, and otherwise contains nothing beyond the claims recorded for userinfo release in the grant and the class of the authentication. Any other string, kind of token or expired login yields an error and no user data.",
     ["inputs", "histories"], "all presented tokens and all session states",
     "Tests present one good and a few bad tokens.",
     ["oidc/userinfo.py"], [("UserInfo.process_request / parse_request / get_client_id_from_token", "oidc/userinfo.py")])

prop("C15", "Introspection says active exactly when a token is, with its true attributes",
     "Introspection answers active exactly for an access or refresh token issued by this server that is currently active; codes, ID tokens, unknown, revoked, expired or used-up tokens get an answer that only says inactive. For an active token the reported client, subject, scope, audience, issue and expiry times and kind are those recorded for that token and its grant.",
     ["inputs", "histories"], "all presented tokens and all session states",
     "Tests introspect a couple of tokens in a couple of states.",
     ["oauth2/introspection.py"], [("Introspection.process_request / _introspect", "oauth2/introspection.py")])

prop("C16", "An ID token states the session's own subject, nonce, audience and hashes",
     "Every ID token names this server as issuer, the session's client as audience and the session's subject identifier as subject, carries the nonce of the authorization request exactly when there was one, and the time and class of the recorded authentication. User claims never override these. When a code or access token is issued alongside it in an authorization response, the ID token carries the hash of exactly that code or token.",
     ["inputs", "configurations"], "all sessions, user records, claim requests, signing algorithms and response types",
     "Tests decode a few ID tokens with benign user records.",
     ["token/id_token.py"], [("IDToken.payload / sign_encrypt / __call__", "token/id_token.py")])

prop("C17", "Registration accepts only admissible metadata and never disturbs other clients",
     "A client registration succeeds only if its redirect URIs satisfy the rules for its application type (no fragment; https for web clients unless they only use the code flow, and never a custom scheme; for native clients a custom scheme or http to the local host) and every algorithm, response type and method it asks for is one the server supports. Each registration gets a client identifier not in use, and other clients' registrations are unchanged. A refused registration leaves no new client behind.",
     ["inputs", "histories"], "all registration requests and client databases",
     "Tests register a few clients; the rules must hold for every URI and every preference value.",
     ["oidc/registration.py"], [("Registration.verify_redirect_uris / match_client_request / client_registration_setup / do_client_registration", "oidc/registration.py"), ("random_client_id", "oidc/registration.py")])

prop("C18", "Logout ends exactly the caller's session and redirects only where registered",
     "A logout request is honoured only for the session identified by a genuine session cookie; an ID token hint must name that session's client as audience and that session's subject, and a post-logout redirect target must come with such a hint and be registered by that session's client. Verified logout from one client revokes that client's session, and verified logout from everything revokes the session of every client of that user that has an ID token and a logout channel; in either case other users' sessions stay untouched.",
     ["inputs", "histories"], "all logout requests, cookies, hints, session trees and client registrations",
     "Tests log out of one prepared session.",
     ["oidc/session.py", "session/manager.py"], [("Session.process_request / logout_from_client / logout_all_clients / clean_sessions", "oidc/session.py"), ("SessionManager.revoke_client_session", "session/manager.py")])

prop("C19", "An existing login is reused only for its own client, user and while still valid",
     "An authorization request proceeds without authenticating the user again only if a genuine cookie identifies a live session of that same client, whose grant is active and whose authentication is still valid and not older than the request's maximum age, and the request does not demand a fresh login and does not name a different user. (The maximum age does not apply to a request marked as returning from the authentication itself.) A request that forbids interaction never leads to an authentication page: it proceeds, gets a login-required error or, where its cookies are unusable, fails outright.",
     ["inputs", "histories"], "all authorization requests (prompt, max age, hints), cookies and session states",
     "Tests exercise a few prompts with one cookie.",
     ["oauth2/authorization.py", "user_authn/user.py"], [("Authorization.setup_auth", "oauth2/authorization.py"), ("re_authenticate / max_age", "oauth2/authorization.py"), ("UserAuthnMethod.authenticated_as", "user_authn/user.py")])

prop("C20", "Usage rules combine client over server settings and stay isolated",
     "The token usage rules put in force for a client are the server's rules with that client's own rules for each kind of token taking precedence entry by entry, and an empty client rule clearing that kind. Evaluating or using them never changes the server's or any client's configured rules, so that one client's or one session's rules never leak into another's.",
     ["inputs", "configurations", "histories"], "all server and client rule sets and all sequences of requests",
     "Tests compute rules once per configuration and never look at the configuration afterwards.",
     ["authz/__init__.py", "session/token.py"], [("AuthzHandling.usage_rules / usage_rules_for / __call__", "authz/__init__.py"), ("AuthorizationCode.set_defaults / RefreshToken.set_defaults", "session/token.py")])

prop("C21", "A DPoP-bound token is bound to the key that signed a matching proof",
     "Where DPoP is in use a token request is accepted only if its proof verifies under the public key in the proof's own header, is of the DPoP proof type and signed with a real algorithm, and names the method and URL of the request it came with; a request handed over without any HTTP information carries no proof, and nothing is bound to a key it merely names. The thumbprint recorded for binding is that of the key the proof verified under, and tokens issued for the request carry that thumbprint.",
     ["inputs"], "all proofs, keys, methods and URLs",
     "Tests check one valid proof.",
     ["oauth2/add_on/dpop.py", "session/grant.py"], [("post_parse_request / DPoPProof.verify_header / verify", "oauth2/add_on/dpop.py"), ("Grant.payload_arguments", "session/grant.py")])

prop("C22", "A pushed authorization request is usable once, by the client that pushed it",
     "A reference handed out for a pushed authorization request resolves to exactly the request that was pushed, at most once, only for the client that pushed it, and only within the lifetime announced with it. An unknown, expired or already used reference is refused. Distinct pushes get distinct references.",
     ["inputs", "histories"], "all pushed requests, references and sequences of uses",
     "Tests push and use one request.",
     ["oauth2/pushed_authorization.py", "oauth2/authorization.py"], [("PushedAuthorization.process_request", "oauth2/pushed_authorization.py"), ("Authorization._do_request_uri", "oauth2/authorization.py")])

prop("C23", "Saving and restoring server state preserves sessions, grants and tokens",
     "Exporting the session state and importing it into a fresh server yields the same users, clients, grants and tokens, with the same validity, usage counts, scopes, claims, derivation links and identifiers. Handles and tokens issued before the export decode afterwards to the same session, and a used or revoked token stays so.",
     ["histories", "crash_points"], "all session histories and any point at which the state is exported",
     "Tests export one small state and compare a few attributes.",
     ["session/manager.py", "session/grant.py", "session/token.py", "session/info.py"], [("parameter tables; issued_token_dump / issued_token_load", "session/grant.py"), ("SessionManager.local_load_adjustments", "session/manager.py")])

prop("C24", "An authorization response carries exactly the artefacts its response type names",
     "An authorization request is accepted only if its response type is, as a set, one the client registered (only plain code when it registered none). The response contains a code, an access token or an ID token exactly when the response type names it, echoes the request's state unchanged, names only the requested scopes the client is allowed, and issues nothing when the grant is not active.",
     ["inputs", "configurations"], "all response types, registered response types, scopes, states and grants",
     "Tests run a few response types.",
     ["oauth2/authorization.py"], [("Authorization.verify_response_type / create_authn_response / post_authentication", "oauth2/authorization.py")])

prop("C25", "A client only obtains claims for scopes it is allowed",
     "The scopes taken into account for a client are exactly the requested scopes that the client's own allow-list (or, lacking one, its own scope map or else the server's list) contains, in request order. They map to exactly the claims that the client's (or server's) scope map lists for them. Where unknown scopes are to be denied, a request with any scope outside the list is refused.",
     ["inputs", "configurations"], "all scope lists, client settings and scope maps",
     "Tests filter a couple of scope lists.",
     ["scopes.py", "oauth2/authorization.py"], [("Scopes.filter_scopes / get_allowed_scopes / scopes_to_claims", "scopes.py"), ("convert_scopes2claims", "scopes.py"), ("check_unknown_scopes_policy", "oauth2/authorization.py")])

prop("C26", "Subject identifiers are stable per user and separate where they must be",
     "A public subject identifier depends only on the user and the server's salt, and a pairwise one only on the user, the sector and the salt; equal inputs give equal identifiers in every session. Identifiers of the pairwise kind for different users or sectors are computed from different material unless the concatenation of those inputs coincides, and neither kind discloses the user identifier. Ephemeral identifiers are fresh for every session, and a session's subject identifier is the one produced by its own kind's function.",
     ["inputs", "histories"], "all users, sectors, salts and sequences of sessions",
     "Tests compute a few identifiers.",
     ["session/manager.py"], [("public_id / pairwise_id / ephemeral_id / PairWiseID / PublicID", "session/manager.py"), ("SessionManager.create_grant", "session/manager.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
