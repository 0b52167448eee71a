#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

SPECWHY = ("The existing server test is one fixed script (oauth2test.Run) with two clients, one user, two scopes and no clock; "
           "it visits a single history. ")
ST = [("token stores", "issued access tokens, refresh tokens and authorization codes with owner, user, scope, expiry, lineage", "server.go ServerCredential, Server maps")]

p("C01", "Protected resources open only to live, sufficient access tokens",
  "The authorization server lets a protected-resource request through exactly when it carries, as a bearer token, an access token that this server issued, that has not expired, that has not been revoked (directly or because its authorization code was replayed), and whose scope covers everything the resource requires. In every other case the request is stopped with the matching bearer challenge: 401 without error code for a missing token, 400 invalid_request for a malformed header, 401 invalid_token for a bad token, 403 insufficient_scope for missing scope. An allowed request is passed on as it came, with nothing written to its response (not even a header) and its header, body and form untouched; a stopped one has an empty body.",
  ["histories", "inputs"], "Every history of authorize/token/refresh/revoke/introspect requests and clock advances, every bearer header and every required scope.",
  SPECWHY + "It probes five hand-made tokens; forged, near-miss, aged, rotated and replay-killed tokens are not combined with scopes and time.",
  ["server.go", "bearer.go", "hs256.go", "scope.go"], [("Server.Authorize checks signature, store membership, expiry, scope in turn", "server.go Authorize")], ST, ["Authorize result and HTTP response"])
p("C02", "Authorization codes are single-use and bound to client, URI and time",
  "An authorization code buys tokens at most once, and only when presented by the client it was issued to, with the same redirect URI the authorization used, before the code's lifetime ends; such a correct exchange succeeds and the tokens carry exactly the user, client and scope that were authorized. Any other presentation is refused (invalid_grant for an unknown, used, expired, foreign or URI-mismatched code; invalid_request for one that is not a validly signed token). A refused attempt by a wrong client, or with a wrong redirect URI, on an unused code does not consume it.",
  ["histories", "inputs"], "Every history of authorizations, exchanges, mis-exchanges and clock advances over any set of clients, users, scopes and redirect URIs.",
  SPECWHY + "It exchanges two codes for one client; interleavings of several codes, clients, failures and expiry are not reached.",
  ["server.go"], [("stored code carries client, redirect URI, expiry, used flag", "server.go handleAuthorizationCodeGrant")], ST, ["token endpoint response"])
p("C03", "Code replay revokes all tokens descended from that code and no others",
  "When an already redeemed authorization code is presented again by any authenticated client (whoever it is, whatever redirect URI it sends, and even after the code's own lifetime), the request is refused with invalid_grant and every access and refresh token that came from that code, directly or through any number of refreshes, stops working at once. Tokens that do not descend from that code keep working. Presenting a not yet redeemed code, or failing client authentication, triggers no such revocation.",
  ["histories"], "Every history with several codes, refresh chains of any length, and replays at any point.",
  SPECWHY + "It replays one code right after one exchange with no refresh in between and never looks at unrelated tokens.",
  ["server.go"], [("code signature recorded on each token as lineage; replay sweeps both stores", "server.go handleAuthorizationCodeGrant, issueTokens, handleRefreshTokenGrant")], ST, ["protected resource, introspection, token endpoint"])
p("C04", "Refresh tokens rotate, work once, for their client, without escalation",
  "A refresh token can be redeemed exactly once, only by the client it was issued to and before it expires; a successful redemption returns a new access token and a new refresh token for the same client and user and ends the old refresh token. The new access token's scope is the requested scope, or the full original scope if none was requested, and a request for anything beyond the original scope is refused with invalid_scope; the replacement refresh token keeps exactly the original scope. A refused attempt does not consume the refresh token.",
  ["histories", "inputs"], "Every history of refresh chains with scope narrowing, wrong clients, excess scopes, revocations and clock advances.",
  SPECWHY + "It refreshes one token once, without a scope parameter, and never chains refreshes or mixes owners.",
  ["server.go"], [("ownership, expiry and scope checks, then issue and delete", "server.go handleRefreshTokenGrant")], ST, ["token endpoint response, introspection"])
p("C05", "Client authentication gates tokens, introspection and revocation",
  "The token, introspection and revocation endpoints act for a client only if it is registered and, when it is confidential, its exact secret was presented; otherwise they answer 401 invalid_client and nothing is issued, disclosed or revoked. Client credentials yield tokens only to confidential clients, and with correct credentials, sent in the Basic header or (token endpoint only) in the form body, they do. A public client needs no secret.",
  ["inputs", "histories", "configurations"], "All client populations and secrets, all presented ids and secrets including near misses (prefix, case, padding, other parties' secrets, empty), all grants and endpoints.",
  SPECWHY + "Only the literals 'invalid', 'unknown' and empty are tried as wrong credentials against secret 'foo'.",
  ["server.go", "token.go", "introspection.go", "revocation.go"], [("registry lookup and secret comparison at each endpoint", "server.go tokenEndpoint, revocationEndpoint, introspectionEndpoint, handleClientCredentialsGrant")], None, ["endpoint responses"])
p("C06", "User grants require the user's exact name and password",
  "The password grant, the implicit grant and the authorization-code authorization produce a token or code for a user only when that registered user's exact name and password were submitted in the request body; with correct credentials and an otherwise valid request they succeed and the result is attributed to that user. Any other credentials end in access_denied and nothing is issued. A GET to the authorization endpoint never authenticates anyone or issues anything.",
  ["inputs", "histories", "configurations"], "All user populations, names and passwords including near misses and other users' passwords, all three grants, body and query placement.",
  SPECWHY + "One user with one wrong password literal is tried.",
  ["server.go"], [("user lookup and password comparison", "server.go handleImplicitGrant, handleAuthorizationCodeGrantAuthorization, handleResourceOwnerPasswordCredentialsGrant")], None, ["endpoint responses, introspection username"])
p("C07", "Issued scope is exactly the granted scope and never exceeds what is allowed",
  "A request for any scope element outside the server's allowed scope is refused with invalid_scope (as a redirect at the authorization endpoint) and issues nothing. Otherwise the token's effective scope, as enforced at protected resources and reported by introspection and in the token response, is as a set exactly the scope that was requested and granted; for a code exchange it is the scope authorized with the code, whatever the exchange request says. Scope elements are compared as whole, case-sensitive strings.",
  ["inputs", "histories", "configurations"], "All allowed scopes and requested scopes including near-miss elements, duplicates, orders, empty scopes, all grants, code exchange and refresh.",
  SPECWHY + "Three scope strings over {foo,bar,baz} are used throughout.",
  ["server.go", "scope.go"], [("allowed-scope inclusion before each issue; scope stored with token", "server.go grant handlers, scope.go Includes")], ST, ["token response scope, introspection scope, Authorize"])
p("C08", "Revocation is effective, exact, owner-only and idempotent",
  "When the client that owns an access or refresh token revokes it (with any known token type hint, right or wrong, or none), the answer is 200 and from then on that token is refused everywhere, while every other token and code is unaffected. Revoking an unknown, already dead or foreign-kind but validly signed token also answers 200 and changes nothing. Revocation by another client is refused with invalid_client, an unsupported hint with unsupported_token_type and a string that is not a validly signed token with invalid_request, and the token stays usable.",
  ["histories", "inputs"], "Every history of issues, refreshes and revocations with any client, hint and token.",
  SPECWHY + "Each revocation uses the right hint and the right client on one token; other tokens are never re-examined.",
  ["server.go", "revocation.go"], [("owner check then delete in both stores", "server.go revocationEndpoint, revokeToken")], ST, ["revocation response, later use of all tokens"])
p("C09", "Introspection reports exactly the truth about a token, to its owner only",
  "For the authenticated client that owns it, introspection of a currently usable access or refresh token answers active with the token's real client, user, scope, kind and expiry, whatever known hint is given. For every validly signed string that is not a currently usable access or refresh token (unknown, expired, revoked, rotated, replay-killed, or an authorization code) it answers inactive and discloses nothing else, and another client's token is answered with invalid_client. Introspecting changes nothing.",
  ["histories", "inputs"], "Every history and every token, client and hint.",
  SPECWHY + "Introspection of expired, foreign-kind or narrowed tokens is never tried and fields other than token_type are not compared.",
  ["server.go", "introspection.go"], [("lookup in both stores, owner check, expiry check, response assembly", "server.go introspectionEndpoint")], ST, ["introspection response"])
p("C10", "The authorization endpoint never redirects anywhere but the registered URI",
  "The authorization endpoint sends a redirect only when the client is registered and the submitted redirect URI equals that client's registered URI exactly, and the redirect goes to that URI with its own query intact. Every earlier failure (bad method, missing or unknown client, response type or URI, mismatched URI) is answered directly with an OAuth2 error and without a Location. Success and error redirects echo the submitted state verbatim (and none if none was sent), in the query for the code flow and only in the fragment for the implicit flow, which never carries a refresh token.",
  ["inputs", "configurations"], "All registered URIs and submitted URIs including near misses (suffix, prefix, case, other client's, extra query, userinfo tricks), all states, scopes, credentials, response types.",
  SPECWHY + "One wrong URI on another host and the state 'xyz' are tried.",
  ["server.go", "authorization.go", "oauth2.go", "error.go", "code.go", "token.go"], [("exact URI comparison before any redirect", "server.go authorizationEndpoint"), ("state carried through SetRedirect / NewCodeResponse", "error.go, code.go, token.go")], None, ["Location header"])
p("C11", "Refused and read-only requests leave no trace",
  "Apart from the revocation triggered by code replay, a request that any endpoint answers with an error changes nothing: the stored tokens and codes are the same before and after, and every later request behaves as if the refused one had never been made. The same holds for introspection, for GET requests to the authorization endpoint and for protected-resource checks, whatever their outcome.",
  ["histories", "inputs"], "Every history with refused and read-only requests inserted anywhere (metamorphic: with and without them).",
  "Unit tests look at the refused response only, never at what the refusal did to the rest of the server.",
  ["server.go"], [("all checks precede all mutations in each handler", "server.go")], ST, ["stores before/after, later responses"])
p("C12", "Concurrent requests behave as if handled one at a time",
  "However requests and protected-resource checks overlap, their results equal those of some sequential order: a code or refresh token is redeemed by at most one of several simultaneous requests, no revoked token is accepted after its revocation was answered, and nothing is lost or duplicated. A program that holds the exported mutex may look at and change registrations and stores meanwhile. No execution has a data race, and no request, including one that fails or panics half way, leaves the server blocked for the next. Token creation and verification may likewise be used from many goroutines at once.",
  ["schedules", "histories"], "Every overlap of requests on one server, with delays injected at body reads, randomness reads and response writes.",
  "All existing tests are sequential; the race detector is never run on overlapping requests.",
  ["server.go", "hs256.go"], [("one mutex held for the whole of ServeHTTP and Authorize", "server.go")], [("Mutex", "guards all stores", "server.go Server.Mutex")], ["responses and call/return order"])
p("C13", "Any HTTP request gets a well-formed answer without a crash",
  "Whatever method, path, headers, query and body a request has, the server and the protected-resource check answer it without panicking and with exactly one well-formed response: 404 for unknown paths, otherwise 200, 303 or an OAuth2 error with its proper 4xx status. Every endpoint error is a non-cacheable JSON document with an error code, or a redirect; a 401 or a stopped resource request carries a WWW-Authenticate header. Malformed input never causes a 5xx.",
  ["inputs"], "All HTTP requests, from raw bytes accepted by the HTTP parser to structured near-valid ones.",
  "Tests feed a few dozen well-formed requests; odd encodings, duplicate parameters, binary values and broken headers are not tried.",
  ["server.go", "authorization.go", "token.go", "introspection.go", "revocation.go", "bearer.go", "error.go", "oauth2.go"], [("parse functions validate before use; WriteError for every failure", "server.go and parsers")], None, ["recorded response"])
p("C14", "Request parsing accepts exactly valid requests and returns values verbatim",
  "Parsing an authorization, token, introspection or revocation request succeeds exactly when the method is allowed (GET or POST for authorization, POST otherwise), the required parameters are present and non-empty, the client is identified as the endpoint requires (Basic header, or for tokens also the form body when there is no Basic header), and a redirect URI, where given or required, is an absolute URI or path without a fragment; the result carries exactly the submitted values. Token, introspection and revocation parameters count only in a form-encoded request body, never in the URL query or in a body of another type. Form data that cannot be read or decoded is rejected. Every rejection is an invalid_request error with status 400 and no result.",
  ["inputs"], "All methods, parameter subsets, values, placements, authorization headers and redirect URIs.",
  "About twenty fixed requests are tried; value fidelity for special characters, query placement and fragments is not.",
  ["authorization.go", "token.go", "introspection.go", "revocation.go"], [("ParseAuthorizationRequest, ParseTokenRequest, ParseIntrospectionRequest, ParseRevocationRequest", "the four files")], None, ["returned struct or error"])
p("C15", "Requests built by the client are understood verbatim by the server",
  "For every token, introspection or revocation request a caller can express, building the HTTP request, sending it over the wire and parsing it on the server yields the same request, with client credentials travelling only in the Authorization header. The request is a form POST to exactly the given URI. The form values handed out for a request are independent of each other: changing or extending one key never alters another.",
  ["inputs"], "All field contents (any bytes), scopes, redirect URIs, credentials and endpoint URIs.",
  "One fixed plain-ASCII request per kind is round-tripped in process.",
  ["token.go", "introspection.go", "revocation.go"], [("*RequestValues, Build*Request", "token.go, introspection.go, revocation.go")], None, ["parsed request"])
p("C16", "Responses and errors reach the client verbatim and uncacheable",
  "Every token response, introspection response and OAuth2 error written by the server parses on the client side back to the same content and status, and each such response is JSON marked no-store/no-cache. An active introspection response with an unknown token type is refused and writes nothing. An error that is not an OAuth2 error is answered as a bare server_error (500) that reveals nothing of its text. If the connection does not take the whole document, the writing function returns an error.",
  ["inputs"], "All response contents (any valid text), scopes, numbers, extra claims and all error kinds.",
  "One literal per response type is compared.",
  ["token.go", "introspection.go", "error.go", "oauth2.go"], [("Write, WriteTokenResponse, WriteIntrospectionResponse, WriteError and the Parse* counterparts", "the four files")], None, ["parsed response"])
p("C17", "Redirects preserve the target URI and deliver every parameter exactly once",
  "A redirect is a 303 with no-store caching and a referrer policy, whose Location is the given URI with scheme, authority, path and existing query parameters retained, plus exactly the given parameters, recoverable verbatim by ordinary form decoding of the query or, when asked for, of the fragment. Parameters destined for the fragment never appear in the query and vice versa. An unusable URI yields an error and writes nothing.",
  ["inputs"], "All absolute URIs with or without query, all parameter maps, both delivery modes, for plain redirects, code responses, token responses and errors.",
  "Tests use ASCII parameters without any character that needs escaping, so double or missing escaping is invisible.",
  ["oauth2.go", "code.go", "token.go", "error.go"], [("WriteRedirect", "oauth2.go")], None, ["Location and other headers"])
p("C18", "A signed token verifies exactly under its own secret",
  "A token string is accepted only if it consists of two dot-separated base64url segments whose second decodes to the full HMAC-SHA256 of the first under the given secret; every token produced from a secret and key prints to a string that parses back under that secret to the same key and signature. Any change to the bytes of the key or the signature makes it rejected, and so does a secret under which the HMAC differs. Validity and signature comparison agree with byte equality of the complete signature.",
  ["inputs"], "All secrets, keys (including empty and long) and all strings, in particular truncated, extended, bit-flipped, re-segmented and re-signed tokens.",
  "Six strings are tried with one secret.",
  ["hs256.go"], [("ParseHS256Token, Valid, Equal, String", "hs256.go")], None, ["parse result"])
p("C19", "Generated tokens carry full-length fresh random keys or fail",
  "Generating a token of a given length yields a key of exactly that many bytes, all of them taken from the random source and none of them shared with any other generated token; the token is validly signed and the random bytes decide the key. If the random source fails or runs short at any point, generation returns an error and no token (the must-variant panics). All tokens and codes a server issues have keys of the configured length (at least 16 bytes in the default configuration) and are pairwise distinct.",
  ["inputs", "fault_sequences", "histories"], "All lengths and secrets, all contents of the random source, a source failing after any number of bytes or returning short reads, and all issuing histories.",
  "One length and an empty source are tried.",
  ["hs256.go", "server.go"], [("GenerateHS256Token reads the full key with ReadFull", "hs256.go"), ("ServerConfig.MustGenerate", "server.go")], None, ["generated token"])
p("C20", "Scopes behave as sets of whole words and survive encoding",
  "Parsing a scope string yields its space-separated elements in order without empty ones, and printing then parsing (as text or JSON) returns the same scope; parsing is idempotent. Containment is exact element equality and inclusion is set inclusion: every scope includes itself and the empty scope, inclusion is transitive and does not depend on order or repetition. A JSON value that is not a string is rejected.",
  ["inputs"], "All strings and all lists of elements.",
  "A handful of lists over foo/bar/baz are tried.",
  ["scope.go"], [("ParseScope, Contains, Includes, String, MarshalJSON, UnmarshalJSON", "scope.go")], None, ["return values"])
p("C21", "Bearer tokens are extracted exactly from the Authorization header",
  "The bearer token of a request is what follows the scheme name 'Bearer' (any letter case) and one space in the Authorization header, returned byte for byte. A request without the header is reported as unauthenticated (401, no error code), and every other header value, including a bare scheme or another scheme, as invalid_request (400), with no token. Tokens in the query or body (parsed before or not) are never considered, nor those of further headers of the name.",
  ["inputs"], "All header values and requests.",
  "Six header values are tried.",
  ["bearer.go"], [("ParseBearerToken", "bearer.go")], None, ["returned token or error"])
p("C22", "Bearer challenges are well-formed and disclose only the error",
  "For every OAuth2 error below 500, the bearer error response has that error's status, an empty body and one WWW-Authenticate challenge that parses, by the HTTP challenge grammar, as scheme Bearer with exactly the error's non-empty fields as parameters, or a realm if there are none. Server errors and errors of any other type give a bare 500 without challenge or body. The same fields are offered by the error's parameter map.",
  ["inputs"], "All errors with any printable field contents, including quotes and backslashes.",
  "Three errors with plain words are compared.",
  ["bearer.go", "error.go"], [("WriteBearerError, Error.Params, Error.Map", "bearer.go, error.go")], None, ["WWW-Authenticate header"])
p("C23", "The client reports success exactly for genuine success responses",
  "Each client call issues exactly one form POST to the configured endpoint (whether a redirect is followed is the policy of the HTTP client it was given) and returns a result without error only for status 200 with, for token and introspection calls, a JSON content type and a well-formed document within the response limit, in which case the result is that document. Any other answer, a transport failure or a body that cannot be read to its end yields an error and no result: an OAuth2 error carrying the response status and fields when the non-200 body is one, otherwise an error naming the status. The response body is always closed and never read beyond the configured limit (2048 bytes unless set). How long an answer takes makes no difference as long as the caller's HTTP client waits for it, and no call outlasts that.",
  ["inputs", "fault_sequences"], "All statuses, content types, bodies, sizes around the limit, read faults and transport faults, for all three calls.",
  "Tests only talk to the well-behaved built-in server.",
  ["client.go", "token.go", "introspection.go", "error.go"], [("Client.Authenticate, Introspect, Revoke", "client.go"), ("ParseTokenResponse, ParseIntrospectionResponse, ParseRequestError", "token.go, introspection.go, error.go")], None, ["return values, transport and body observations"])
p("C24", "The conformance suite passes on a conforming server in any configuration",
  "The reusable conformance suite passes when run against the built-in server, and against any other conforming server, whatever valid names, secrets, scopes, redirect URIs, lifetimes, endpoint paths and supported-grant selection the specification declares. It can be run against a server in the same process or one behind a connection, never calls an optional endpoint or an authorization flow the specification does not declare, and leaves the specification as it was.",
  ["configurations"], "All consistent specifications.",
  "It is run with one specification.",
  ["oauth2test/spec.go", "oauth2test/grants.go", "oauth2test/endpoints.go", "oauth2test/general.go", "oauth2test/request.go", "oauth2test/utils.go", "server.go"], [("Run", "oauth2test/spec.go")], None, ["suite verdict"])
p("C25", "The conformance suite fails on a server that breaks a tested requirement",
  "The conformance suite fails when the server under test deviates in any requirement it covers: skipped client, user, scope, redirect URI, ownership or expiry checks, reusable codes or refresh tokens, ineffective revocation or replay mitigation, untruthful introspection, or missing state, token or scope in a response. It also fails when any single response it provokes carries a wrong status or a wrong error code where it expects a definite one.",
  ["fault_sequences", "configurations"], "Every catalogued server fault and every single-response corruption, under any consistent specification.",
  "The suite is only ever run on a server that passes.",
  ["oauth2test/spec.go", "oauth2test/grants.go", "oauth2test/endpoints.go", "oauth2test/general.go", "oauth2test/request.go", "oauth2test/utils.go"], [("assertions in each test", "oauth2test/*.go")], None, ["suite verdict"])
p("C26", "Credentials live exactly as long as configured and advertised",
  "Access tokens, refresh tokens and authorization codes each stay usable for their own configured lifetime counted from their issue and are refused from then on, at every endpoint, no matter what happened in between. The token response advertises the access token lifetime in whole seconds and introspection reports the actual expiry instant. Refreshing gives the new tokens fresh lifetimes and does not prolong any existing one. A request presents a credential when all of it has arrived, however long that takes.",
  ["histories", "configurations"], "All lifetimes and all histories on a controlled clock, with probes just before and just after each expiry.",
  "No test lets time pass; expired credentials are planted by hand and only at two endpoints.",
  ["server.go"], [("ExpiresAt set at issue from the per-kind lifespan; compared with now at use", "server.go issueTokens and handlers")], ST, ["all endpoints under a fake clock"])
p("C27", "Credential kinds are never interchangeable",
  "An access token is accepted only at protected resources, a refresh token only by the refresh grant, an authorization code only by the code grant; presented anywhere else, each is treated like an unknown credential and is neither accepted nor consumed. A validly signed string the server never issued, or one signed with another secret, is accepted nowhere. Two servers in one process share nothing: a credential of one is worth nothing at the other, whatever either has handled before.",
  ["histories", "inputs"], "Every history, every credential at every place that takes one.",
  SPECWHY + "No test presents a credential of the wrong kind.",
  ["server.go"], [("separate stores per kind", "server.go Server maps")], ST, ["endpoint responses"])
p("C28", "Registrations and configuration count as they currently stand",
  "The server judges every request by the clients, users and configuration as they stand at that moment. A client or user that is removed, or whose secret, redirect URI or confidentiality is changed, is from then on treated as registered now; a change of the allowed scope, the lifetimes, the key length or the signing secret applies to everything granted, issued or checked afterwards. Nothing learned from earlier requests keeps an outdated registration or setting in force, and credentials already issued keep the owner, scope and expiry they were issued with.",
  ["histories", "configurations"], "Every history in which requests alternate with changes of registrations and configuration, including requests that use what was right before the change.",
  "No test changes a registration or setting once the server has handled a request.",
  ["server.go"], [("every handler reads s.Clients, s.Users and s.Config at the time of the request", "server.go handlers")], ST, ["endpoint responses"])
p("C29", "Responses disclose no secrets and do not tell who is registered",
  "No response of the server contains the signing secret, a client secret, a user's password, the signature that would make a presented forged string valid, or a credential handed out by an earlier response, in plain or in a common encoding; a response contains only the credentials it issues. A refusal names no user and no client that the request does not name itself. Somebody who does not know the right secret gets exactly the same answer for a registered confidential client or user as for a name that is not registered, at every endpoint and whatever else the request carries.",
  ["histories", "inputs"], "Every request in every history; every endpoint and grant, with wrong secrets for registered and unregistered names, with valid, used, unknown, foreign and garbage credentials and scopes.",
  "Tests compare whole responses of a few mistakes and never compare two refusals with each other.",
  ["server.go", "error.go"], [("refusals use fixed texts; an unknown client and a wrong secret take the same branch", "server.go handlers")], ST, ["whole response: status, headers, body"])
p("C30", "Every call of the library stands on its own",
  "The functions of the package (error constructors and writers, request and response parsers, builders, scopes, tokens) leave their arguments as they are, including the unused capacity of slices, share no state: the same call gives the same result (apart from fresh randomness) whatever was called before or is being called at the same time, and what a caller does with one result changes no other result and no later call. Parsing the same request twice gives the same result twice.",
  ["inputs", "histories", "schedules"], "Every exported stateless function, every argument, every sequence and overlap of calls.",
  "Tests call each function once with fresh arguments and look only at the result.",
  ["error.go", "oauth2.go", "scope.go", "hs256.go", "token.go", "authorization.go", "introspection.go", "revocation.go", "code.go", "bearer.go"], [("constructors and parsers build fresh values", "error.go, token.go, authorization.go, introspection.go, revocation.go, code.go, hs256.go")], None, ["arguments and results by deep comparison, race detector"])
p("C31", "Client and server work together end to end",
  "Whatever a client call can express reaches the server as that request, and the caller gets what the server answered: after any history the values of a token, introspection or revocation call through the client are those of the server's answer, an OAuth2 refusal arrives as that error with its status, and an answer beyond the response limit is an error. One client can be used by any number of goroutines and each gets the answer to its own call. Over real connections the server answers every request of a history as it must.",
  ["histories", "schedules", "configurations"], "Every history of client calls on any server configuration and response limit, every overlap of calls on a shared client.",
  SPECWHY + "The client is tested with a handful of calls, one at a time, on fresh credentials.",
  ["client.go", "server.go", "token.go", "introspection.go", "revocation.go", "error.go"], [("Client.Authenticate, Introspect, Revoke against Server.ServeHTTP", "client.go, server.go")], ST, ["client results next to raw server responses"])
p("C32", "A request that breaks off takes effect entirely or not at all",
  "When the handling of a request breaks off, because the random source fails or runs short, the request body cannot be read to its end, or the connection fails or panics at any point of the response, the request has taken either its whole effect or none: a code or refresh token never survives an exchange whose new tokens are valid and is never used up without them being issued, and revocations are complete or did not happen. A failing random source or an unreadable body issues, consumes and revokes nothing. Everything else on the server is as before, and later requests are answered accordingly.",
  ["crash_points", "fault_sequences", "histories"], "Every history in which any requests break off at any read of the random source, any read of the body, any call of the response writer, or after any number of response bytes.",
  SPECWHY + "No test lets a request fail half way.",
  ["server.go", "hs256.go"], [("tokens are generated before anything is stored; consumption and storage precede the response; the mutex is released on the way out", "server.go issueTokens and grant handlers")], ST, ["answers to later requests for every credential involved"])
p("C33", "The library's vocabulary is exactly the protocol's",
  "A string is known as a grant type, response type or token type exactly when it is, byte for byte, one of the protocol's words for it (password, client_credentials, authorization_code, refresh_token; token, code; access_token, refresh_token), which are also the exported constants. Every error constructor yields the error code the protocol registers for that situation, with its HTTP status and the given description verbatim, and nothing else (invalid_client adds a Basic challenge, insufficient scope the needed scope, a protected resource carries no code); its text shows code and description. Constructors and redirect setters of responses hold exactly the given values, and the presented fields of errors, token and code responses are exactly the set ones under the protocol's parameter names.",
  ["inputs"], "Every string asked about, every description, state, scope, token, URI and number given to a constructor.",
  "Tests ask about a few correct words and one wrong one, and build each value once with plain words.",
  ["oauth2.go", "error.go", "token.go", "code.go", "bearer.go", "introspection.go"], [("KnownGrantType, KnownResponseType, KnownTokenType", "oauth2.go"), ("error constructors and Map", "error.go"), ("response constructors and Map", "token.go, code.go, introspection.go, bearer.go")], None, ["results of the functions"])
p("C34", "The exposed credential stores are the server's memory",
  "The exported stores of access tokens, refresh tokens and authorization codes, keyed by signature, are all the server knows of credentials. Every usable credential it issued is there with exactly the client, user, scope, expiry and, for codes, redirect URI it was issued for. No usable credential is there that nobody was given. What the embedding program does to the stores between requests, putting other maps in their place included, counts from the next request on, at every endpoint: a credential it puts in (generated under the server's configuration) works like an issued one, one it takes out is unknown, and a changed client, user, scope, expiry, redirect URI or used mark applies. A server that is given the configuration, registrations and stores of another carries on exactly where that one stopped, including refresh and replay lineage.",
  ["histories"], "Every history of requests mixed with insertions, removals and changes of entries and moves to a new server.",
  "The test server puts a few expired and valid tokens into its stores before the first request, to have something to probe; nothing is changed later and issued entries are never looked at.",
  ["server.go"], [("stores are exported maps of ServerCredential keyed by signature, consulted on every request", "server.go Server, ServerCredential")], ST, ["exported maps of Server; answers to later requests"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
