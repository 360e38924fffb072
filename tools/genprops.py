#!/usr/bin/env python3
# Writes properties.jsonl (single source for the property texts).
import json,sys,os
P=[]
def p(id,title,statement,over,quant,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=quant),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or ["HTTP requests and responses of the server's endpoints and of protected resources"],hook_needed=None)))
def m(n,w): return dict(name=n,where=w)
def s(n,mean,w): return dict(name=n,meaning=mean,where=w)
ST=[s("access tokens, refresh tokens, authorization codes","all credentials the server currently knows","server.go (Server)")]

p("C01","Concurrent requests are linearizable",
 "For any set of overlapping requests to one server (authorization, token, introspection, revocation and protected-resource requests), the responses, and everything later observable, equal those of executing the requests one at a time in some order that respects which request finished before which began. In particular two overlapping requests never both redeem the same code or the same refresh token, and no revocation or replay is lost or half applied.",
 ["schedules","histories"],"all interleavings of all sets of concurrently served requests, after any history",
 "The tests send one request at a time; nothing in them overlaps, so every check-then-act sequence is only run uninterrupted.",
 ["server.go"],[m("one mutex around every state access","server.go Authorize, ServeHTTP / endpoints")],ST)
p("C02","No data races in server and client",
 "Serving any number of requests concurrently on one server, and using one client from any number of goroutines concurrently, never performs two conflicting memory accesses that are not ordered by synchronisation.",
 ["schedules","histories"],"all interleavings of concurrent requests and of concurrent uses of one client",
 "The suite is not concurrent, so the race detector never sees two requests or two client calls at once; whether an access is protected depends on the path taken.",
 ["server.go","client.go","hs256.go"],[m("Server.Mutex","server.go"),m("immutable configuration after construction","client.go")],ST,["memory accesses, through a happens-before monitor"])
p("C03","An authorization code is redeemed at most once",
 "An authorization code yields tokens at most once over the whole life of the server, in whatever order and however concurrently it is presented. A refused or failed redemption attempt (wrong client or secret, wrong redirect URI, malformed request, failing randomness) does not consume the code: the rightful client can still redeem it until it expires.",
 ["histories","schedules","inputs"],"all histories of requests that present the code, including repeated, failing and concurrent ones",
 "Tests redeem a code a handful of fixed ways; one-time use is a statement about every later history and every overlap of two redemptions.",
 ["server.go","token.go"],[m("used mark on the stored code","server.go handleAuthorizationCodeGrant")],ST)
p("C04","Grants are bound to their client, redirect URI, user and scope",
 "An authorization code is redeemable only by the client it was issued to and only with exactly the redirect URI of its authorization request, and a refresh token is usable only by the client it was issued to. The tokens obtained carry exactly the client and user of the original grant, however many refreshes lie in between.",
 ["inputs","histories"],"all pairs of grants and presenting clients, all redirect URIs (near misses included), all refresh chains",
 "The tests try one wrong client and one changed URI; bindings must hold for every near miss and be inherited along every chain of grants.",
 ["server.go","token.go","authorization.go"],[m("ownership and redirect URI comparison","server.go handleAuthorizationCodeGrant, handleRefreshTokenGrant")],ST)
p("C05","Replaying a code revokes everything derived from it",
 "When a redeemed authorization code is presented again in a token request with valid client authentication - by any client, with any redirect URI, even after the code expired - the request is refused and from then on every access and refresh token derived from that code, directly or through any chain of refreshes, is dead. No credential that does not descend from that code is affected.",
 ["histories","schedules"],"all histories: any number of refreshes, other grants, revocations and waits between redemption and replay",
 "The one existing replay test has a single code, no refreshes and no other credentials; descent through refreshes and the unaffected rest are about histories.",
 ["server.go"],[m("originating code recorded on tokens","server.go issueTokens"),m("revocation on reuse","server.go handleAuthorizationCodeGrant")],ST)
p("C06","A refresh token is used at most once (rotation)",
 "A refresh token yields new tokens at most once; the success returns a fresh access token and a fresh refresh token, and the old refresh token is dead from then on. A refused or failed refresh attempt (wrong client or secret, excessive scope, failing randomness) leaves the refresh token usable, and using one refresh token never affects another credential.",
 ["histories","schedules"],"all histories and overlaps of requests that present refresh tokens",
 "Tests use a refresh token once sequentially; at-most-once use must survive chains, failed attempts and overlapping requests.",
 ["server.go"],[m("delete of the used refresh token","server.go handleRefreshTokenGrant")],ST)
p("C07","Scopes are confined and enforced",
 "No credential ever carries a scope item outside the server's allowed scope, nor one that was not requested, nor - through code redemption or any chain of refreshes - one its parent grant did not carry; a refresh without scope inherits exactly the parent's scope. A protected resource is served only if the token's scope contains every scope item the resource requires, compared exactly, and is not refused for scope otherwise.",
 ["inputs","histories"],"all requested, allowed and required scope lists (subsets, supersets, near misses, repetitions, empty) and all refresh chains",
 "Tests use two fixed scope words; confinement is a relation between every step of a grant chain and every resource.",
 ["server.go","scope.go"],[m("scope inclusion","scope.go Includes"),m("scope checks per grant","server.go")],ST)
p("C08","Credentials live exactly as long as configured",
 "An authorization code, access token or refresh token is honoured until its configured lifespan (each kind its own) has passed since it was issued and never afterwards, for any lifespan and any waiting pattern; using, introspecting or refreshing a credential extends no credential. The advertised expires_in is the access token lifespan in whole seconds.",
 ["histories","configurations"],"all lifespans (sub-second to days), all instants around the expiry, all histories before it",
 "Tests plant credentials that expired an hour ago; they never let time pass over an expiry that the server itself computed.",
 ["server.go"],[m("ExpiresAt stored at issuance, compared at use","server.go")],ST)
p("C09","Revocation is effective, permanent and isolated",
 "After a successful revocation by the owning client the token is never honoured again at any endpoint, whatever (known) token type hint was sent, and repeating the revocation still succeeds. A revocation by another client, or without valid client authentication, fails and changes nothing, and revoking one token never disables any other credential.",
 ["histories","inputs","schedules"],"all tokens, hints, clients and histories before and after the revocation",
 "Tests revoke one token and look at one map entry; permanence and isolation are about all later requests and all other credentials.",
 ["server.go","revocation.go"],[m("owner check and delete","server.go revocationEndpoint, revokeToken")],ST)
p("C10","Introspection tells the truth",
 "Introspection by the owning client reports a token active exactly when the server would honour it at that moment (issued, unexpired, not revoked, rotated away or invalidated by code replay), with its true scope, client, user, type and expiry; an inactive answer reveals nothing else. Another client never learns that a token is active or any of its metadata, and introspecting changes no state.",
 ["histories","inputs"],"all tokens in all states at all times, all hints and asking clients",
 "Tests look up planted, always valid tokens; agreement with what the other endpoints honour is a relation over histories and time.",
 ["server.go","introspection.go"],[m("lookup, owner check, metadata copy","server.go introspectionEndpoint")],ST)
p("C11","Only authenticated clients and users obtain anything",
 "A confidential client is served at the token, introspection and revocation endpoints only when it presents exactly its own secret; the client credentials grant is open to confidential clients only; password and authorization grants succeed only with exactly the user's own password. Secrets, passwords, codes and refresh tokens placed in the URL query are never honoured, requests with correct credentials are not turned away, and a request refused for its credentials changes nothing.",
 ["inputs","histories"],"all client and user credentials (near misses, empty, swapped, other clients' secrets), all placements, all endpoints and grants",
 "Tests try one wrong secret per endpoint; the gate must hold for every near miss, placement and combination.",
 ["server.go","token.go","introspection.go","revocation.go","authorization.go"],[m("exact comparison of secrets","server.go"),m("credentials read from Basic auth or body only","token.go, introspection.go, revocation.go")],ST)
p("C12","Failing randomness leaves no trace",
 "If the random source fails at any byte while a request is served, no credential of that request ever becomes usable, the request reports no success, and every earlier credential - including the code or refresh token presented in that request - is exactly as usable as before. The server keeps serving, and later requests succeed once randomness is back.",
 ["fault_sequences","crash_points"],"every failure position of the random source in every issuing request, any history",
 "Tests replace the random source by one that always fails and look at one panic; they never check what the server state is afterwards.",
 ["hs256.go","server.go"],[m("both tokens generated before any state change","server.go issueTokens")],ST)
p("C13","The server stays available",
 "No request, however malformed, makes a handler panic (other than on failing randomness) or fail with an internal error, and no sequence or overlap of requests makes the server hang: every request that has been received completely is answered in a bounded number of steps, even while other clients' requests are stalled in the middle of their bodies or their handlers were aborted.",
 ["inputs","schedules","fault_sequences"],"all request contents, all interleavings, all positions at which another connection stalls or breaks",
 "Tests send complete, well-formed requests one at a time; blocking needs a second request while the first is stuck.",
 ["server.go"],[m("lock held only for bounded work and released on panic","server.go"),m("input validation before use","authorization.go, token.go, introspection.go, revocation.go, bearer.go, hs256.go")],ST)
p("C14","A request takes effect fully, or not at all",
 "A request whose body never arrives completely, or is malformed, changes nothing; a complete request accepted by the server takes its full effect exactly once, whether or not the response can be delivered. Every further copy of a request delivered by the network is treated as a new request under the same rules.",
 ["fault_sequences","histories"],"all truncation, stall, duplication, delay and response-loss positions",
 "Tests have no network faults: requests always arrive once and whole and responses are always read.",
 ["server.go","token.go","revocation.go"],[m("whole body parsed before any effect","token.go, revocation.go, authorization.go"),m("state changed before the response is written","server.go")],ST)
p("C15","Only genuine tokens are honoured",
 "A token, refresh token or code is honoured only if this server instance issued exactly that credential as that kind: altered, truncated, recombined, foreign-signed, correctly signed but never issued, and pre-restart credentials are refused everywhere, as are codes or refresh tokens presented as access tokens and vice versa.",
 ["inputs","histories"],"all byte-level mutations and recombinations of issued credentials, all kind confusions, restarts",
 "Tests try a few fixed malformed strings and one unknown token.",
 ["hs256.go","server.go"],[m("HMAC validation and lookup by signature","hs256.go ParseHS256Token, server.go")],ST)
p("C16","Every credential is fresh and full-strength",
 "Every issued code, access token and refresh token consists of KeyLength bytes obtained from the random source for it alone, plus a valid signature under the server's secret: no two credentials share random bytes, none is predictable from earlier ones, and short reads of the random source never weaken them.",
 ["histories","fault_sequences","configurations"],"all issuing histories and interleavings, all key lengths, all short-read patterns of the random source",
 "Tests check lengths of one token; uniqueness and provenance of randomness are about all tokens ever issued and about partial reads.",
 ["hs256.go","server.go"],[m("full read of the random key","hs256.go GenerateHS256Token")],ST)
p("C17","Redirects go only to the registered URI and carry exact data",
 "The authorization endpoint redirects only when the client exists and the given redirect URI is exactly the registered one, and then only to that URI with its own query intact, adding the outcome and exactly the state that was sent (any characters): codes and their errors in the query, implicit tokens and their errors form-encoded in the fragment. Implicit responses never contain a refresh token.",
 ["inputs","configurations"],"all registered URIs, presented URIs (near misses), states, response types and outcomes",
 "Tests use one simple URI and ASCII state.",
 ["authorization.go","server.go","oauth2.go","code.go","error.go","token.go"],[m("exact comparison with the registered URI","server.go authorizationEndpoint"),m("parameter encoding","oauth2.go WriteRedirect")],ST)
p("C18","The client library reports faithfully under any transport",
 "Authenticate, Introspect and Revoke send exactly the given request, and report success only for a 200 response whose required content was received completely within the configured limit and decoded, returning exactly the server's values to the caller whose request they answer. Every other outcome (transport failure, a body that is truncated, malformed or not complete within the limit, wrong content type, error status) is reported as an error, with the server's OAuth2 error fields and status preserved when it sent them.",
 ["fault_sequences","inputs","schedules"],"all responses a server or network can produce, all cut positions, concurrent calls on one client",
 "Tests see a few well-formed answers from a local server; truncation, garbage and overlap never occur.",
 ["client.go","token.go","introspection.go","revocation.go","error.go"],[m("status check, limited read, content type check, decode","client.go, token.go, introspection.go, error.go")],[],["results of Client methods and the bytes on the simulated wire"])
p("C19","The client library is bounded and leak-free",
 "Every client call that received a response closes its body exactly before returning, reads no more of it than the configured response limit (plus a constant), and returns as soon as the transport does, even if the server sends an endless or hostile body.",
 ["fault_sequences","configurations"],"all response sizes, limits, fault positions and outcomes",
 "Tests never look at the response body after the call and never exceed the limit.",
 ["client.go","token.go","introspection.go","error.go"],[m("deferred close and LimitReader","client.go, token.go, introspection.go, error.go")],[],["reads and closes of the response body at the simulated transport"])
p("C20","Errors are truthful and sensitive responses uncacheable",
 "Every refused request gets a standard error code whose condition really applies to it, with that code's HTTP status, a challenge header when client or token authentication failed, and the same code in the redirect when redirected; requests are never reported as successful when they had no effect. Every JSON answer and redirect forbids caching, and JSON answers are well-formed and labelled as JSON.",
 ["inputs","histories"],"all refused and accepted requests in all states",
 "Tests check chosen error answers; which errors apply depends on state and on combinations of faults in the request.",
 ["error.go","oauth2.go","bearer.go","server.go"],[m("error constructors and writers","error.go, bearer.go, oauth2.go")],ST)
p("C21","Scope text and JSON encodings are inverse",
 "Parsing the printed or JSON form of a scope yields the same list of items.",["inputs"],"all scopes whose items contain no spaces","Tests sample a few strings.",["scope.go"],[m("ParseScope/String","scope.go")],[],["return values"])
p("C22","Requests built by the library parse back to the same values",
 "For every request value with legal fields, parsing the built request yields the same value.",["inputs"],"all token, introspection and revocation requests","Tests sample a few values.",["token.go","introspection.go","revocation.go"],[m("Build and Parse functions","token.go, introspection.go, revocation.go")],[],["return values"])
p("C23","Challenge parameters are well-formed",
 "The rendered WWW-Authenticate parameters of an error parse back to the error's fields.",["inputs"],"all error values with legal characters","Tests sample a few values.",["error.go","bearer.go"],[m("Params","error.go")],[],["return values"])
p("C24","The conformance suite accepts conforming servers only",
 "The oauth2test suite passes against every conforming server and fails against a server that violates a rule it tests.",["programs"],"all server implementations","It is run against one server.",["oauth2test/spec.go"],[m("the suite","oauth2test")],[],["suite result"])
p("C25","Signature comparison takes constant time",
 "The time needed to reject a token does not depend on how many signature bytes are right.",["inputs"],"all token strings","Timing is not observed by tests.",["hs256.go"],[m("hmac.Equal","hs256.go")],[],["execution time"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
