From f4fa273a282b35330382e5fbeb985ce80f861d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 1/5] fix: revoke refreshed tokens when their authorization
 code is replayed

Tokens issued by a refresh did not record the code their grant started with,
so they survived the revocation triggered by a replay of that code.
---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index b926c76..45bf0d2 100644
--- a/server.go
+++ b/server.go
@@ -437,7 +437,7 @@ func (s *Server) handleRefreshTokenGrant(w http.ResponseWriter, rq *TokenRequest
 	}
 
 	// issue tokens
-	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, "")
+	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, storedRefreshToken.Code)
 
 	// delete used refresh token
 	delete(s.RefreshTokens, refreshToken.SignatureString())
-- 
2.43.0


From d8c1d48d318344f31bc97b792c00f4f6c2b8d303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 2/5] fix: report expired tokens as inactive on introspection

---
 server.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/server.go b/server.go
index 45bf0d2..0e784e4 100644
--- a/server.go
+++ b/server.go
@@ -553,13 +553,15 @@ func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 
-		// set response
-		res.Active = true
-		res.Scope = accessToken.Scope
-		res.ClientID = accessToken.ClientID
-		res.Username = accessToken.Username
-		res.TokenType = AccessToken
-		res.ExpiresAt = accessToken.ExpiresAt.Unix()
+		// set response if not expired
+		if !accessToken.ExpiresAt.Before(time.Now()) {
+			res.Active = true
+			res.Scope = accessToken.Scope
+			res.ClientID = accessToken.ClientID
+			res.Username = accessToken.Username
+			res.TokenType = AccessToken
+			res.ExpiresAt = accessToken.ExpiresAt.Unix()
+		}
 	}
 
 	// check refresh token
@@ -570,13 +572,15 @@ func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 
-		// set response
-		res.Active = true
-		res.Scope = refreshToken.Scope
-		res.ClientID = refreshToken.ClientID
-		res.Username = refreshToken.Username
-		res.TokenType = RefreshToken
-		res.ExpiresAt = refreshToken.ExpiresAt.Unix()
+		// set response if not expired
+		if !refreshToken.ExpiresAt.Before(time.Now()) {
+			res.Active = true
+			res.Scope = refreshToken.Scope
+			res.ClientID = refreshToken.ClientID
+			res.Username = refreshToken.Username
+			res.TokenType = RefreshToken
+			res.ExpiresAt = refreshToken.ExpiresAt.Unix()
+		}
 	}
 
 	// write response
-- 
2.43.0


From ffbd55e7ac19a74017f17a962bd66e3436355b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 3/5] fix: do not hold the server mutex while reading request
 bodies

A client that stalled while sending its body blocked every other request.
---
 server.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/server.go b/server.go
index 0e784e4..ef6ba25 100644
--- a/server.go
+++ b/server.go
@@ -122,10 +122,6 @@ func (s *Server) Authorize(w http.ResponseWriter, r *http.Request, required Scop
 // ServeHTTP will handle the provided request based on the last path segment
 // of the request URL.
 func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
-	// acquire mutex
-	s.Mutex.Lock()
-	defer s.Mutex.Unlock()
-
 	// get path
 	path := r.URL.Path
 
@@ -158,6 +154,10 @@ func (s *Server) authorizationEndpoint(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	// acquire mutex
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	// make sure the response type is known
 	if !KnownResponseType(req.ResponseType) {
 		_ = WriteError(w, InvalidRequest("unknown response type"))
@@ -262,6 +262,10 @@ func (s *Server) tokenEndpoint(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	// acquire mutex
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	// make sure the grant type is known
 	if !KnownGrantType(req.GrantType) {
 		_ = WriteError(w, InvalidRequest("unknown grant type"))
@@ -454,6 +458,10 @@ func (s *Server) revocationEndpoint(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	// acquire mutex
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	// check token type hint
 	if req.TokenTypeHint != "" && !KnownTokenType(req.TokenTypeHint) {
 		_ = WriteError(w, UnsupportedTokenType(""))
@@ -516,6 +524,10 @@ func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	// acquire mutex
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	// check token type hint
 	if req.TokenTypeHint != "" && !KnownTokenType(req.TokenTypeHint) {
 		_ = WriteError(w, UnsupportedTokenType(""))
-- 
2.43.0


From 3cbe357339c434e1eb90cd00c7a295da2af53ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:58 +0000
Subject: [PATCH 4/5] fix: encode redirect fragment parameters only once

The already form-encoded fragment was percent-encoded a second time.
---
 oauth2.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oauth2.go b/oauth2.go
index ce4e4f3..53a1608 100644
--- a/oauth2.go
+++ b/oauth2.go
@@ -96,6 +96,7 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 	}
 
 	// add params to fragment if requested
+	var fragment string
 	if useFragment {
 		// prepare fragment
 		f := make(url.Values)
@@ -106,7 +107,7 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 		}
 
 		// encode fragment
-		redirectURI.Fragment = f.Encode()
+		fragment = "#" + f.Encode()
 	} else {
 		// get current query
 		q := redirectURI.Query()
@@ -121,7 +122,7 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 	}
 
 	// set location
-	w.Header().Add("Location", redirectURI.String())
+	w.Header().Add("Location", redirectURI.String()+fragment)
 
 	// prevent caching
 	w.Header().Set("Cache-Control", "no-store")
-- 
2.43.0


From db126876b695cb9f47e5ed90306555ca20d0bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:07 +0000
Subject: [PATCH 5/5] fix: retain redirect URI queries that are not form
 encoded

Pairs that do not parse (e.g. with a semicolon) were silently dropped, although
RFC 6749 (3.1.2) requires the query component to be retained.
---
 oauth2.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/oauth2.go b/oauth2.go
index 53a1608..534e0f0 100644
--- a/oauth2.go
+++ b/oauth2.go
@@ -109,8 +109,13 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 		// encode fragment
 		fragment = "#" + f.Encode()
 	} else {
-		// get current query
-		q := redirectURI.Query()
+		// get current query, retain it as is if not form encoded
+		var prefix string
+		q, err := url.ParseQuery(redirectURI.RawQuery)
+		if err != nil {
+			prefix = redirectURI.RawQuery + "&"
+			q = make(url.Values)
+		}
 
 		// add parameters
 		for k, v := range params {
@@ -118,7 +123,7 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 		}
 
 		// reset query
-		redirectURI.RawQuery = q.Encode()
+		redirectURI.RawQuery = prefix + q.Encode()
 	}
 
 	// set location
-- 
2.43.0

