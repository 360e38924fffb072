# Planted bugs: (id, property, needs, what it breaks, edits, demo body[, flags])
P = []
def plant(id, prop, needs, breaks, edits, demo, flags=""):
    P.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, flags=flags))
S = "server.go"

# ---------------------------------------------------------------- C01
plant("c01-unlocked-generation", "C01",
 "two overlapping redemptions of one code (or refresh token), the second running while the first generates its tokens",
 "tokens are generated outside the lock, so that a code or refresh token is redeemed twice by overlapping requests",
 [(S, "	// generate access token\n	accessToken := s.Config.MustGenerate()\n\n	// generate refresh token if requested\n	var refreshToken *HS256Token\n	if issueRefreshToken {\n		refreshToken = s.Config.MustGenerate()\n	}\n",
      "	// generate tokens, do not block others while waiting for randomness\n	var accessToken, refreshToken *HS256Token\n	func() {\n		s.Mutex.Unlock()\n		defer s.Mutex.Lock()\n		accessToken = s.Config.MustGenerate()\n		if issueRefreshToken {\n			refreshToken = s.Config.MustGenerate()\n		}\n	}()\n")],
 '''
	s := zzServer()
	code := zzCode(t, s, "a1", "foo")
	src := rand.Reader
	var mu sync.Mutex
	n := 0
	both := make(chan struct{})
	defer zzRandom(func(p []byte) (int, error) {
		mu.Lock()
		n++
		if n == 2 {
			close(both)
		}
		mu.Unlock()
		select {
		case <-both:
		case <-time.After(300 * time.Millisecond):
		}
		return src.Read(p)
	})()
	var wg sync.WaitGroup
	ok := 0
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
			mu.Lock()
			if w.Code == 200 {
				ok++
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	if ok > 1 {
		t.Fatal("code redeemed twice")
	}
''')

# ---------------------------------------------------------------- C02
plant("c02-client-endpoint-cache", "C02",
 "two first calls of one client from two goroutines",
 "the client fills in its endpoint lazily without synchronisation",
 [("client.go", "type Client struct {\n	config ClientConfig\n	client *http.Client\n}", "type Client struct {\n	config ClientConfig\n	client *http.Client\n\n	introspect string\n}"),
  ("client.go", "	endpoint := c.config.BaseURI + c.config.IntrospectionEndpoint\n", "	if c.introspect == \"\" {\n		c.introspect = c.config.BaseURI + c.config.IntrospectionEndpoint\n	}\n	endpoint := c.introspect\n")],
 '''
	c := NewClientWithClient(Default("http://x.example"), &http.Client{Transport: zzTransport(func(r *http.Request) (*http.Response, error) {
		return zzResponse(200, "application/json", &zzBody{r: strings.NewReader("{}")}), nil
	})})
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			_, _ = c.Introspect(IntrospectionRequest{Token: "x"})
		}()
	}
	close(start)
	wg.Wait()
''', "-race")

plant("c02-unlocked-precheck", "C02",
 "a request with a code grant that overlaps an authorization",
 "the token endpoint looks at the authorization codes before it takes the mutex",
 [(S, "	// make sure the grant type is known\n	if !KnownGrantType(req.GrantType) {", "	// make sure the grant type is known\n	if !KnownGrantType(req.GrantType) {"),
  (S, "	req, err := ParseTokenRequest(r)\n	if err != nil {\n		_ = WriteError(w, err)\n		return\n	}\n", "	req, err := ParseTokenRequest(r)\n	if err != nil {\n		_ = WriteError(w, err)\n		return\n	} else if req.GrantType == AuthorizationCodeGrantType && req.ClientID != \"\" && len(s.AuthorizationCodes) == 0 && s.Clients[req.ClientID] != nil && req.Code != \"\" && s.Clients[req.ClientID].Secret == req.ClientSecret {\n		// there is nothing to redeem\n		_ = WriteError(w, InvalidGrant(\"unknown authorization code\"))\n		return\n	}\n")],
 '''
	s := zzServer()
	code := zzCode(t, s, "a1", "foo")
	var wg sync.WaitGroup
	for i := 0; i < 40; i++ {
		wg.Add(2)
		go func() {
			defer wg.Done()
			zzPost(s, "authorize", "", "", "response_type", "code", "client_id", "a1", "redirect_uri", url.QueryEscape(s.Clients["a1"].RedirectURI), "scope", "foo", "username", "u1", "password", "pw1")
		}()
		go func() {
			defer wg.Done()
			zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
		}()
	}
	wg.Wait()
''', "-race")

plant("c02-shared-parse-error", "C02",
 "two overlapping requests that both fail while being parsed",
 "the parser reuses one error value and fills it in for each request",
 [("revocation.go", "	token := r.PostForm.Get(\"token\")\n	if token == \"\" {\n		return nil, InvalidRequest(\"missing token\")\n	}\n", "	token := r.PostForm.Get(\"token\")\n	if token == \"\" {\n		missingToken.State = r.PostForm.Get(\"state\")\n		return nil, missingToken\n	}\n"),
  ("revocation.go", "// ParseRevocationRequest ", "var missingToken = InvalidRequest(\"missing token\")\n\n// ParseRevocationRequest ")],
 '''
	s := zzServer()
	var wg sync.WaitGroup
	for i := 0; i < 40; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			zzPost(s, "revoke", "a1", "s1", "x", "y")
		}()
	}
	wg.Wait()
''', "-race")

# ---------------------------------------------------------------- C03
# ---------------------------------------------------------------- C04
plant("c04-public-ownership", "C04",
 "a confidential client presenting the refresh token of a public client",
 "the owner of a refresh token is checked for confidential owners only",
 [(S, "	if storedRefreshToken.ClientID != rq.ClientID {", "	if owner := s.Clients[storedRefreshToken.ClientID]; owner.Confidential && storedRefreshToken.ClientID != rq.ClientID {")],
 '''
	s := zzServer()
	_, r := zzPassword(t, s, "p1", "", "foo")
	if w := zzRefresh(s, "a1", "s1", r, ""); w.Code == 200 {
		t.Fatal("stolen refresh token accepted")
	}
''')

plant("c04-username-override", "C04",
 "a refresh request that carries a username parameter",
 "a refresh takes over a username parameter, the new tokens belong to another user",
 [(S, "	// issue tokens\n	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, storedRefreshToken.Code)\n",
      "	// determine owner\n	username := rq.Username\n	if username == \"\" || s.Users[username] == nil {\n		username = storedRefreshToken.Username\n	}\n\n	// issue tokens\n	r := s.issueTokens(true, rq.Scope, rq.ClientID, username, storedRefreshToken.Code)\n")],
 '''
	s := zzServer()
	_, r := zzPassword(t, s, "a1", "s1", "foo")
	w := zzPost(s, "token", "a1", "s1", "grant_type", "refresh_token", "refresh_token", r, "username", "u2")
	if w.Code != 200 {
		t.Skip()
	}
	if u := zzStr(zzPost(s, "introspect", "a1", "s1", "token", zzStr(w, "access_token")), "username"); u != "u1" {
		t.Fatalf("token belongs to %q", u)
	}
''')

plant("c04-redirect-trim", "C04",
 "a redemption whose redirect URI differs by a trailing slash",
 "the redirect URI of a redemption is compared without trailing slashes",
 [(S, "	if storedAuthorizationCode.RedirectURI != rq.RedirectURI {", "	if strings.TrimRight(storedAuthorizationCode.RedirectURI, \"/\") != strings.TrimRight(rq.RedirectURI, \"/\") {")],
 '''
	s := zzServer()
	code := zzCode(t, s, "a2", "foo")
	if w := zzExchange(s, "a2", "s2", s.Clients["a2"].RedirectURI+"/", code); w.Code == 200 {
		t.Fatal("other redirect uri accepted")
	}
''')

# ---------------------------------------------------------------- C05
plant("c05-purge-expired-codes", "C05",
 "a redeemed code that expires, another authorization, then the replay of the old code",
 "expired codes are forgotten when new ones are issued, a later replay revokes nothing",
 [(S, "	// generate new authorization code\n	authorizationCode := s.Config.MustGenerate()\n", "	// remove expired authorization codes\n	for key, code := range s.AuthorizationCodes {\n		if code.ExpiresAt.Before(time.Now()) {\n			delete(s.AuthorizationCodes, key)\n		}\n	}\n\n	// generate new authorization code\n	authorizationCode := s.Config.MustGenerate()\n")],
 '''
	s := zzServer()
	s.Config.AuthorizationCodeLifespan = 50 * time.Millisecond
	code := zzCode(t, s, "a1", "foo")
	a := zzStr(zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code), "access_token")
	if zzAPI(s, a, "foo") != 200 {
		t.Fatal("no token")
	}
	time.Sleep(80 * time.Millisecond)
	zzCode(t, s, "a1", "foo")
	zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
	if zzAPI(s, a, "foo") == 200 {
		t.Fatal("token survives the replay")
	}
''')

plant("c05-owner-only", "C05",
 "a replay of a redeemed code by another client",
 "only a replay by the client that redeemed the code revokes its tokens",
 [(S, "		for key, token := range s.RefreshTokens {\n			if token.Code == authorizationCode.SignatureString() {", "		for key, token := range s.RefreshTokens {\n			if token.Code == authorizationCode.SignatureString() && token.ClientID == rq.ClientID {")],
 '''
	s := zzServer()
	code := zzCode(t, s, "a1", "foo")
	r := zzStr(zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code), "refresh_token")
	zzExchange(s, "a2", "s2", s.Clients["a1"].RedirectURI, code)
	if zzRefresh(s, "a1", "s1", r, "").Code == 200 {
		t.Fatal("refresh token survives the replay")
	}
''')

plant("c05-over-revocation", "C05",
 "a code replay while the same user and client hold tokens from another code",
 "a replay kills the tokens of all codes of that client and user",
 [(S, "		for key, token := range s.AccessTokens {\n			if token.Code == authorizationCode.SignatureString() {", "		for key, token := range s.AccessTokens {\n			if token.Code != \"\" && token.ClientID == storedAuthorizationCode.ClientID && token.Username == storedAuthorizationCode.Username {")],
 '''
	s := zzServer()
	c1, c2 := zzCode(t, s, "a1", "foo"), zzCode(t, s, "a1", "foo")
	zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, c1)
	a2 := zzStr(zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, c2), "access_token")
	zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, c1)
	if zzAPI(s, a2, "foo") != 200 {
		t.Fatal("token of another code revoked")
	}
''')

# ---------------------------------------------------------------- C06
plant("c06-narrowed-keeps", "C06",
 "a refresh with a narrower scope, then a second use of the same refresh token",
 "a refresh with narrower scope does not rotate the refresh token",
 [(S, "	// delete used refresh token\n	delete(s.RefreshTokens, refreshToken.SignatureString())\n", "	// delete used refresh token\n	if rq.Scope.Includes(storedRefreshToken.Scope) {\n		delete(s.RefreshTokens, refreshToken.SignatureString())\n	}\n")],
 '''
	s := zzServer()
	_, r := zzPassword(t, s, "a1", "s1", "foo bar")
	if zzRefresh(s, "a1", "s1", r, "foo").Code != 200 {
		t.Fatal("refresh refused")
	}
	if zzRefresh(s, "a1", "s1", r, "").Code == 200 {
		t.Fatal("refresh token used twice")
	}
''')

plant("c06-sibling-loss", "C06",
 "use of the access token that was issued together with the rotated refresh token",
 "a refresh also removes older access tokens of the same client and user",
 [(S, "	// delete used refresh token\n	delete(s.RefreshTokens, refreshToken.SignatureString())\n", "	// delete used refresh token\n	delete(s.RefreshTokens, refreshToken.SignatureString())\n\n	// delete superseded access tokens\n	for key, token := range s.AccessTokens {\n		if token.Code != \"\" && token.Code == storedRefreshToken.Code && !rq.Scope.Includes(token.Scope) {\n			delete(s.AccessTokens, key)\n		}\n	}\n")],
 '''
	s := zzServer()
	w := zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, zzCode(t, s, "a1", "foo bar"))
	if zzRefresh(s, "a1", "s1", zzStr(w, "refresh_token"), "foo").Code != 200 {
		t.Fatal("refresh refused")
	}
	if zzAPI(s, zzStr(w, "access_token"), "foo bar") != 200 {
		t.Fatal("refresh disabled the earlier access token")
	}
''')

# ---------------------------------------------------------------- C07
plant("c07-hierarchy", "C07",
 "a scope item that extends another with a colon",
 "scope items match by prefix, foo grants foo:read",
 [("scope.go", "		if i == str {\n			return true\n		}\n", "		if i == str || strings.HasPrefix(str, i+\":\") {\n			return true\n		}\n")],
 '''
	s := zzServer()
	a, _ := zzPassword(t, s, "a1", "s1", "foo")
	if zzAPI(s, a, "foo:read") == 200 {
		t.Fatal("served without the scope")
	}
''')

plant("c07-wide-refresh", "C07",
 "a refresh with narrower scope followed by a refresh asking for the original scope",
 "the refresh token issued by a narrowing refresh keeps the original scope",
 [(S, "	// delete used refresh token\n	delete(s.RefreshTokens, refreshToken.SignatureString())\n", "	// retain the originally granted scope\n	if next, err := ParseHS256Token(s.Config.Secret, r.RefreshToken); err == nil {\n		s.RefreshTokens[next.SignatureString()].Scope = storedRefreshToken.Scope\n	}\n\n	// delete used refresh token\n	delete(s.RefreshTokens, refreshToken.SignatureString())\n")],
 '''
	s := zzServer()
	_, r := zzPassword(t, s, "a1", "s1", "foo bar")
	w := zzRefresh(s, "a1", "s1", r, "foo")
	w = zzRefresh(s, "a1", "s1", zzStr(w, "refresh_token"), "foo bar")
	if w.Code == 200 {
		t.Fatal("scope widened by a refresh")
	}
''')

plant("c07-count-check", "C07",
 "a protected resource that requires two items of which the token has one twice",
 "scope inclusion counts matching items",
 [("scope.go", "	for _, i := range scope {\n		if !s.Contains(i) {\n			return false\n		}\n	}\n\n	return true\n", "	n := 0\n	for _, i := range s {\n		if scope.Contains(i) {\n			n++\n		}\n	}\n\n	return n >= len(scope)\n")],
 '''
	s := zzServer()
	a, _ := zzPassword(t, s, "a1", "s1", "foo foo")
	if zzAPI(s, a, "foo bar") == 200 {
		t.Fatal("served without the scope")
	}
''')

# ---------------------------------------------------------------- C08
plant("c08-sliding", "C08",
 "an access token that is introspected before and used after its expiry",
 "introspecting an access token prolongs it",
 [(S, "	// check access token\n	if accessToken, found := s.AccessTokens[token.SignatureString()]; found {\n		// check owner\n		if accessToken.ClientID != req.ClientID {\n			_ = WriteError(w, InvalidClient(\"wrong client\"))\n			return\n		}\n\n		// set response", "	// check access token\n	if accessToken, found := s.AccessTokens[token.SignatureString()]; found {\n		// check owner\n		if accessToken.ClientID != req.ClientID {\n			_ = WriteError(w, InvalidClient(\"wrong client\"))\n			return\n		}\n\n		// keep tokens that are about to expire alive while they are in use\n		if left := time.Until(accessToken.ExpiresAt); left > 0 && left < s.Config.AccessTokenLifespan/10 {\n			accessToken.ExpiresAt = time.Now().Add(s.Config.AccessTokenLifespan / 10)\n		}\n\n		// set response")],
 '''
	s := zzServer()
	s.Config.AccessTokenLifespan = 2 * time.Second
	a, _ := zzPassword(t, s, "a1", "s1", "foo")
	start := time.Now()
	time.Sleep(1900 * time.Millisecond)
	zzActive(s, "a1", "s1", a)
	time.Sleep(2050*time.Millisecond - time.Since(start))
	if zzAPI(s, a, "foo") == 200 {
		t.Fatal("expired token accepted")
	}
''')

plant("c08-whole-seconds", "C08",
 "a use of the token in the last fraction of a second of its life",
 "issue times are truncated to whole seconds, credentials die early",
 [(S, "		ExpiresAt: time.Now().Add(s.Config.AccessTokenLifespan),", "		ExpiresAt: time.Now().Truncate(time.Second).Add(s.Config.AccessTokenLifespan),")],
 '''
	s := zzServer()
	s.Config.AccessTokenLifespan = time.Second
	time.Sleep(time.Until(time.Now().Truncate(time.Second).Add(1700 * time.Millisecond)))
	a, _ := zzPassword(t, s, "a1", "s1", "foo")
	time.Sleep(500 * time.Millisecond)
	if zzAPI(s, a, "foo") != 200 {
		t.Fatal("token died early")
	}
''')

plant("c08-minimum", "C08",
 "a refresh token lifespan below that of the access tokens",
 "refresh tokens never live shorter than access tokens",
 [(S, "	// save refresh token if available\n	if refreshToken != nil {\n", "	// refresh tokens should not expire before the access token\n	refreshTokenLifespan := s.Config.RefreshTokenLifespan\n	if refreshTokenLifespan < s.Config.AccessTokenLifespan {\n		refreshTokenLifespan = s.Config.AccessTokenLifespan\n	}\n\n	// save refresh token if available\n	if refreshToken != nil {\n"),
  (S, "			ExpiresAt: time.Now().Add(s.Config.RefreshTokenLifespan),", "			ExpiresAt: time.Now().Add(refreshTokenLifespan),")],
 '''
	s := zzServer()
	s.Config.RefreshTokenLifespan = 50 * time.Millisecond
	_, r := zzPassword(t, s, "a1", "s1", "foo")
	time.Sleep(100 * time.Millisecond)
	if zzRefresh(s, "a1", "s1", r, "").Code == 200 {
		t.Fatal("expired refresh token accepted")
	}
''')

plant("c08-expires-in-rounding", "C08",
 "an access token lifespan that is not a whole number of seconds",
 "expires_in is rounded up beyond the life of the token",
 [(S, "int(s.Config.AccessTokenLifespan/time.Second))", "int((s.Config.AccessTokenLifespan+time.Second/2)/time.Second))")],
 '''
	s := zzServer()
	s.Config.AccessTokenLifespan = 1700 * time.Millisecond
	w := zzPost(s, "token", "a1", "s1", "grant_type", "client_credentials", "scope", "foo")
	if n, _ := zzJSON(w)["expires_in"].(float64); n != 1 {
		t.Fatalf("expires_in %v", n)
	}
''')

# ---------------------------------------------------------------- C09
plant("c09-hint-trusted", "C09",
 "a revocation of an access token with the hint refresh_token",
 "a wrong token type hint makes the revocation a no-op",
 [(S, "	// check access token\n	if accessToken, found := s.AccessTokens[token.SignatureString()]; found {\n		// check owner\n		if accessToken.ClientID != req.ClientID {\n			_ = WriteError(w, InvalidClient(\"wrong client\"))\n			return\n		}\n\n		// revoke token", "	// check access token\n	if accessToken, found := s.AccessTokens[token.SignatureString()]; found && req.TokenTypeHint != RefreshToken {\n		// check owner\n		if accessToken.ClientID != req.ClientID {\n			_ = WriteError(w, InvalidClient(\"wrong client\"))\n			return\n		}\n\n		// revoke token")],
 '''
	s := zzServer()
	a, _ := zzPassword(t, s, "a1", "s1", "foo")
	w := zzPost(s, "revoke", "a1", "s1", "token", a, "token_type_hint", "refresh_token")
	if w.Code == 200 && zzAPI(s, a, "foo") == 200 {
		t.Fatal("revoked token accepted")
	}
''')

plant("c09-stranger-revokes-expired", "C09",
 "a revocation by another client of a refresh token",
 "any authenticated client can revoke refresh tokens that belong to no user",
 [(S, "		if refreshToken.ClientID != req.ClientID {\n			_ = WriteError(w, InvalidClient(\"wrong client\"))\n			return\n		}\n\n		// revoke token\n		s.revokeToken(req.ClientID, s.RefreshTokens, token.SignatureString())", "		if refreshToken.ClientID != req.ClientID && refreshToken.Username != \"\" {\n			_ = WriteError(w, InvalidClient(\"wrong client\"))\n			return\n		}\n\n		// revoke token\n		s.revokeToken(refreshToken.ClientID, s.RefreshTokens, token.SignatureString())")],
 '''
	s := zzServer()
	r := zzStr(zzPost(s, "token", "a1", "s1", "grant_type", "client_credentials", "scope", "foo"), "refresh_token")
	zzPost(s, "revoke", "a2", "s2", "token", r)
	if zzRefresh(s, "a1", "s1", r, "").Code != 200 {
		t.Fatal("revoked by a stranger")
	}
''')

# ---------------------------------------------------------------- C10
plant("c10-owner-check-order", "C10",
 "introspection of a refresh token by another client",
 "the owner of a refresh token is not checked for tokens without a user",
 [(S, "		if refreshToken.ClientID != req.ClientID {\n			_ = WriteError(w, InvalidClient(\"wrong client\"))\n			return\n		}\n\n		// set response", "		if refreshToken.ClientID != req.ClientID && (client.Confidential || refreshToken.Username == \"\") {\n			_ = WriteError(w, InvalidClient(\"wrong client\"))\n			return\n		}\n\n		// set response")],
 '''
	s := zzServer()
	_, r := zzPassword(t, s, "a1", "s1", "foo")
	w := zzPost(s, "introspect", "p1", "", "token", r)
	if a, _ := zzJSON(w)["active"].(bool); a {
		t.Fatal("a stranger learns about the token")
	}
''')

plant("c10-drops-token", "C10",
 "introspection of a refresh token with the hint access_token",
 "introspecting a refresh token with a wrong hint reports the wrong token type",
 [(S, "	// write response\n	_ = WriteIntrospectionResponse(w, res)\n", "	// apply hint\n	if res.Active && req.TokenTypeHint != \"\" {\n		res.TokenType = req.TokenTypeHint\n	}\n\n	// write response\n	_ = WriteIntrospectionResponse(w, res)\n")],
 '''
	s := zzServer()
	_, r := zzPassword(t, s, "a1", "s1", "foo")
	if ty := zzStr(zzPost(s, "introspect", "a1", "s1", "token", r, "token_type_hint", "access_token"), "token_type"); ty != "refresh_token" {
		t.Fatalf("token type %q", ty)
	}
''')

# ---------------------------------------------------------------- C11
plant("c11-prefix-secret", "C11",
 "a client secret that extends the right one",
 "secrets are accepted when they begin with the right one",
 [(S, "	if client.Confidential && client.Secret != req.ClientSecret {\n		_ = WriteError(w, InvalidClient(\"unknown client\"))\n		return\n	}\n\n	// handle grant type", "	if client.Confidential && !strings.HasPrefix(req.ClientSecret, client.Secret) {\n		_ = WriteError(w, InvalidClient(\"unknown client\"))\n		return\n	}\n\n	// handle grant type")],
 '''
	s := zzServer()
	if zzPost(s, "token", "a1", "s1x", "grant_type", "client_credentials", "scope", "foo").Code == 200 {
		t.Fatal("wrong secret accepted")
	}
''')

plant("c11-query-password", "C11",
 "an authorization whose password is in the URL query",
 "credentials of the resource owner are taken from the query as well",
 [(S, "	username := r.PostForm.Get(\"username\")\n	password := r.PostForm.Get(\"password\")\n", "	username := r.FormValue(\"username\")\n	password := r.FormValue(\"password\")\n")],
 '''
	s := zzServer()
	q := zzForm("response_type", "code", "client_id", "a1", "redirect_uri", url.QueryEscape(s.Clients["a1"].RedirectURI), "username", "u1", "password", "pw1")
	w := httptest.NewRecorder()
	s.ServeHTTP(w, zzReq("/oauth2/authorize?"+q.Encode(), "", "", "x", "y"))
	if strings.Contains(w.Header().Get("Location"), "code=") {
		t.Fatal("password in the query accepted")
	}
''')

# ---------------------------------------------------------------- C12
plant("c12-half-grant", "C12",
 "randomness failing between the access token and the refresh token of one request",
 "the access token is stored before the refresh token is generated; when that fails it stays usable",
 [(S, "	// generate refresh token if requested\n	var refreshToken *HS256Token\n	if issueRefreshToken {\n		refreshToken = s.Config.MustGenerate()\n	}\n", "	// save access token\n	s.AccessTokens[accessToken.SignatureString()] = &ServerCredential{\n		ClientID:  clientID,\n		Username:  username,\n		ExpiresAt: time.Now().Add(s.Config.AccessTokenLifespan),\n		Scope:     scope,\n		Code:      code,\n	}\n\n	// generate refresh token if requested\n	var refreshToken *HS256Token\n	if issueRefreshToken {\n		refreshToken = s.Config.MustGenerate()\n	}\n"),
  (S, "	// save access token\n	s.AccessTokens[accessToken.SignatureString()] = &ServerCredential{\n		ClientID:  clientID,\n		Username:  username,\n		ExpiresAt: time.Now().Add(s.Config.AccessTokenLifespan),\n		Scope:     scope,\n		Code:      code,\n	}\n\n	// save refresh token if available\n", "	// save refresh token if available\n")],
 '''
	s := zzServer()
	var key []byte
	src := rand.Reader
	restore := zzRandom(func(p []byte) (int, error) {
		if len(key) >= 16 {
			return 0, errors.New("no randomness")
		}
		n, err := src.Read(p)
		key = append(key, p[:n]...)
		return n, err
	})
	zzTry(func() { zzPost(s, "token", "a1", "s1", "grant_type", "client_credentials", "scope", "foo") })
	restore()
	if zzAPI(s, HS256TokenFromKey([]byte("demo-secret"), key).String(), "foo") == 200 {
		t.Fatal("a token of the failed request is usable")
	}
''')

plant("c12-short-key", "C12",
 "a random source that ends in the middle of a key",
 "a key that could be read only in part is used",
 [("hs256.go", "	_, err := io.ReadFull(randSource, key)\n	if err != nil {", "	_, err := io.ReadFull(randSource, key)\n	if err != nil && err != io.ErrUnexpectedEOF {")],
 '''
	s := zzServer()
	n := 0
	restore := zzRandom(func(p []byte) (int, error) {
		if n++; n == 1 {
			p[0] = 7
			return 1, nil
		}
		return 0, io.EOF
	})
	ok := false
	zzTry(func() { ok = zzPost(s, "authorize", "", "", "response_type", "code", "client_id", "a1", "redirect_uri", url.QueryEscape(s.Clients["a1"].RedirectURI), "scope", "foo", "username", "u1", "password", "pw1").Header().Get("Location") != "" })
	restore()
	if ok {
		t.Fatal("success without randomness")
	}
''')

plant("c12-code-lost", "C12",
 "randomness failing while a code is redeemed",
 "the code is marked as used before its tokens exist",
 [(S, "	// issue tokens\n	r := s.issueTokens(true, storedAuthorizationCode.Scope,", "	// mark authorization code\n	storedAuthorizationCode.Used = true\n\n	// issue tokens\n	r := s.issueTokens(true, storedAuthorizationCode.Scope,"),
  (S, "	// mark authorization code\n	storedAuthorizationCode.Used = true\n\n	// write response\n", "	// write response\n")],
 '''
	s := zzServer()
	code := zzCode(t, s, "a1", "foo")
	restore := zzFailAfter(20)
	zzTry(func() { zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code) })
	restore()
	if zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code).Code != 200 {
		t.Fatal("the code is lost")
	}
''')

# ---------------------------------------------------------------- C13
plant("c13-form-mutex", "C13",
 "one client stalling the body of a token request while another sends a complete one",
 "token request bodies are read one at a time, a stalled one blocks all others",
 [("token.go", "	// parse query params and body params to form\n	err := r.ParseForm()\n", "	// limit the memory used by concurrent forms\n	tokenFormMutex.Lock()\n	defer tokenFormMutex.Unlock()\n\n	// parse query params and body params to form\n	err := r.ParseForm()\n"),
  ("token.go", "	\"strconv\"\n	\"strings\"\n)\n", "	\"strconv\"\n	\"strings\"\n	\"sync\"\n)\n\nvar tokenFormMutex sync.Mutex\n")],
 '''
	s := zzServer()
	pr, pw := io.Pipe()
	defer pw.Close()
	r := httptest.NewRequest("POST", "/oauth2/token", pr)
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	go s.ServeHTTP(httptest.NewRecorder(), r)
	_, _ = pw.Write([]byte("grant"))
	zzWithin(t, 3*time.Second, func() { zzPost(s, "token", "a1", "s1", "grant_type", "client_credentials", "scope", "foo") })
''')

plant("c13-lost-unlock", "C13",
 "a protected resource requested with an expired token",
 "one path through Authorize leaves the mutex locked",
 [(S, "	// acquire mutex\n	s.Mutex.Lock()\n	defer s.Mutex.Unlock()\n\n	// parse bearer token\n	tk, err := ParseBearerToken(r)", "	// parse bearer token\n	tk, err := ParseBearerToken(r)"),
  (S, "	// get token\n	accessToken, found := s.AccessTokens[token.SignatureString()]\n	if !found {\n		_ = WriteBearerError(w, InvalidToken(\"unknown token\"))\n		return false\n	}\n\n	// validate expiration\n", "	// get token\n	s.Mutex.Lock()\n	accessToken, found := s.AccessTokens[token.SignatureString()]\n	if !found {\n		s.Mutex.Unlock()\n		_ = WriteBearerError(w, InvalidToken(\"unknown token\"))\n		return false\n	}\n\n	// hide tokens of removed clients\n	if s.Clients[accessToken.ClientID].Confidential || required.Empty() {\n		s.Mutex.Unlock()\n	} else {\n		defer s.Mutex.Unlock()\n		if !accessToken.ExpiresAt.After(time.Now()) {\n			s.Mutex.Lock()\n		}\n	}\n\n	// validate expiration\n")],
 '''
	s := zzServer()
	s.Config.AccessTokenLifespan = time.Millisecond
	a, _ := zzPassword(t, s, "p1", "", "foo")
	time.Sleep(20 * time.Millisecond)
	zzWithin(t, 3*time.Second, func() { zzAPI(s, a, "foo") })
''')

# ---------------------------------------------------------------- C14
plant("c14-partial-body", "C14",
 "a revocation request whose body breaks off after the token",
 "a request body that breaks off is used as far as it came",
 [("revocation.go", "	err := r.ParseForm()\n	if err != nil {", "	err := r.ParseForm()\n	if err != nil && (r.PostForm.Get(\"token\") != \"\" || !tolerant(r, head)) {"),
  ("revocation.go", "	// parse query params and body params to form\n", "	// keep what arrived\n	head := new(bytes.Buffer)\n	if r.Body != nil {\n		r.Body = ioutil.NopCloser(io.TeeReader(r.Body, head))\n	}\n\n	// parse query params and body params to form\n"),
  ("revocation.go", "import (\n	\"net/http\"", "import (\n	\"bytes\"\n	\"io\"\n	\"io/ioutil\"\n	\"net/http\""),
  ("revocation.go", "// ParseRevocationRequest ", "// tolerant uses the parameters that arrived.\nfunc tolerant(r *http.Request, head *bytes.Buffer) bool {\n	form, err := url.ParseQuery(head.String())\n	if err != nil {\n		return false\n	}\n	r.PostForm = form\n\n	return form.Get(\"token\") != \"\"\n}\n\n// ParseRevocationRequest ")],
 '''
	s := zzServer()
	a, _ := zzPassword(t, s, "a1", "s1", "foo")
	r := httptest.NewRequest("POST", "/oauth2/revoke", io.MultiReader(strings.NewReader("token="+a+"&token_type_hint=access_token&x="), zzBroken{}))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	r.SetBasicAuth("a1", "s1")
	s.ServeHTTP(httptest.NewRecorder(), r)
	if zzAPI(s, a, "foo") != 200 {
		t.Fatal("incomplete request took effect")
	}
}

type zzBroken struct{}

func (zzBroken) Read(p []byte) (int, error) {
	return 0, io.ErrUnexpectedEOF
''')

plant("c14-write-dependent", "C14",
 "a refresh whose response cannot be delivered",
 "the old refresh token is removed only when the response could be written",
 [(S, "	// delete used refresh token\n	delete(s.RefreshTokens, refreshToken.SignatureString())\n\n	// write response\n	_ = WriteTokenResponse(w, r)\n", "	// write response\n	if WriteTokenResponse(w, r) != nil {\n		return\n	}\n\n	// delete used refresh token\n	delete(s.RefreshTokens, refreshToken.SignatureString())\n")],
 '''
	s := zzServer()
	_, r := zzPassword(t, s, "a1", "s1", "foo")
	s.ServeHTTP(zzDead{http.Header{}}, zzReq("/oauth2/token", "a1", "s1", "grant_type", "refresh_token", "refresh_token", r))
	if zzRefresh(s, "a1", "s1", r, "").Code == 200 {
		t.Fatal("refresh token used twice")
	}
}

type zzDead struct{ h http.Header }

func (d zzDead) Header() http.Header         { return d.h }
func (d zzDead) WriteHeader(int)             {}
func (d zzDead) Write(p []byte) (int, error) {
	return 0, errors.New("connection lost")
''')

plant("c14-malformed-tolerated", "C14",
 "a token request whose body contains an invalid percent escape after the needed parameters",
 "malformed form bodies are accepted when the needed parameters could be read",
 [("token.go", "	err := r.ParseForm()\n	if err != nil {", "	err := r.ParseForm()\n	if err != nil && r.PostForm.Get(\"grant_type\") == \"\" {")],
 '''
	s := zzServer()
	_, tok := zzPassword(t, s, "a1", "s1", "foo")
	r := httptest.NewRequest("POST", "/oauth2/token", strings.NewReader("grant_type=refresh_token&refresh_token="+tok+"&x=%zz"))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	r.SetBasicAuth("a1", "s1")
	s.ServeHTTP(httptest.NewRecorder(), r)
	if zzRefresh(s, "a1", "s1", tok, "").Code != 200 {
		t.Fatal("malformed request took effect")
	}
''')

# ---------------------------------------------------------------- C15
plant("c15-key-truncated", "C15",
 "a token whose key is extended by some bytes",
 "the signature covers the first 16 bytes of the key only",
 [("hs256.go", "	_, _ = hash.Write(key)\n", "	_, _ = hash.Write(key[:minInt(len(key), 16)])\n"),
  ("hs256.go", "// HS256TokenFromKey ", "func minInt(a, b int) int {\n	if a < b {\n		return a\n	}\n\n	return b\n}\n\n// HS256TokenFromKey ")],
 '''
	s := zzServer()
	a, _ := zzPassword(t, s, "a1", "s1", "foo")
	tk, err := ParseHS256Token([]byte("demo-secret"), a)
	if err != nil {
		t.Fatal(err)
	}
	tk.Key = append(tk.Key, 1, 2, 3)
	if zzAPI(s, tk.String(), "foo") == 200 {
		t.Fatal("altered token accepted")
	}
''')

plant("c15-refresh-as-access", "C15",
 "a refresh token used at a protected resource",
 "a refresh token is honoured as access token",
 [(S, "	accessToken, found := s.AccessTokens[token.SignatureString()]\n	if !found {\n		_ = WriteBearerError", "	accessToken, found := s.AccessTokens[token.SignatureString()]\n	if !found {\n		accessToken, found = s.RefreshTokens[token.SignatureString()]\n	}\n	if !found {\n		_ = WriteBearerError")],
 '''
	s := zzServer()
	_, r := zzPassword(t, s, "a1", "s1", "foo")
	if zzAPI(s, r, "foo") == 200 {
		t.Fatal("refresh token accepted")
	}
''')

plant("c15-global-registry", "C15",
 "a token of one server instance presented to the next one with the same secret",
 "access tokens are kept for the whole process, a restarted server honours those of its predecessor",
 [(S, "		AccessTokens:       map[string]*ServerCredential{},", "		AccessTokens:       accessTokensFor(config.Secret),"),
  (S, "// NewServer creates", "var registry = map[string]map[string]*ServerCredential{}\nvar registryMutex sync.Mutex\n\nfunc accessTokensFor(secret []byte) map[string]*ServerCredential {\n	registryMutex.Lock()\n	defer registryMutex.Unlock()\n	if registry[string(secret)] == nil {\n		registry[string(secret)] = map[string]*ServerCredential{}\n	}\n\n	return registry[string(secret)]\n}\n\n// NewServer creates")],
 '''
	a, _ := zzPassword(t, zzServer(), "a1", "s1", "foo")
	if zzAPI(zzServer(), a, "foo") == 200 {
		t.Fatal("token of another instance accepted")
	}
''')

# ---------------------------------------------------------------- C16
plant("c16-short-read", "C16",
 "a random source that returns fewer bytes than asked for",
 "short reads of the random source leave the rest of the key zero",
 [("hs256.go", "	_, err := io.ReadFull(randSource, key)\n", "	_, err := io.ReadAtLeast(randSource, key, minInt(len(key), 8))\n"),
  ("hs256.go", "// HS256TokenFromKey ", "func minInt(a, b int) int {\n	if a < b {\n		return a\n	}\n\n	return b\n}\n\n// HS256TokenFromKey ")],
 '''
	src := rand.Reader
	defer zzRandom(func(p []byte) (int, error) {
		if len(p) > 8 {
			p = p[:8]
		}
		return src.Read(p)
	})()
	tk, err := GenerateHS256Token([]byte("x"), 16)
	if err == nil && strings.HasSuffix(string(tk.Key), "\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00") {
		t.Fatal("half of the key is zero")
	}
''')

plant("c16-derived-refresh", "C16",
 "anyone who holds an access token and knows the derivation",
 "refresh token keys are derived from access token keys",
 [(S, "		refreshToken = s.Config.MustGenerate()\n", "		refreshToken = HS256TokenFromKey(s.Config.Secret, HS256TokenFromKey([]byte(\"refresh\"), accessToken.Key).Signature[:16])\n")],
 '''
	s := zzServer()
	bytes := 0
	src := rand.Reader
	defer zzRandom(func(p []byte) (int, error) {
		n, err := src.Read(p)
		bytes += n
		return n, err
	})()
	zzPassword(t, s, "a1", "s1", "foo")
	if bytes < 32 {
		t.Fatalf("two credentials from %d random bytes", bytes)
	}
''')

plant("c16-key-cap", "C16",
 "a configured key length above 32",
 "keys are never longer than 32 bytes",
 [("hs256.go", "	key := make([]byte, length)\n", "	key := make([]byte, minInt(length, 32))\n"),
  ("hs256.go", "// HS256TokenFromKey ", "func minInt(a, b int) int {\n	if a < b {\n		return a\n	}\n\n	return b\n}\n\n// HS256TokenFromKey ")],
 '''
	tk, err := GenerateHS256Token([]byte("x"), 48)
	if err != nil || len(tk.Key) != 48 {
		t.Fatal("short key")
	}
''')

# ---------------------------------------------------------------- C17
plant("c17-own-parameter", "C17",
 "a registered redirect URI whose own query has a parameter named like one of the answer",
 "parameters of the redirect URI's own query are overwritten",
 [("oauth2.go", "		for k, v := range params {\n			q.Add(k, v)\n		}\n\n		// reset query", "		for k, v := range params {\n			q.Set(k, v)\n		}\n\n		// reset query")],
 '''
	s := zzServer()
	s.Clients["a1"].RedirectURI = "https://app.example/cb?state=own&x=1"
	w := zzPost(s, "authorize", "", "", "response_type", "code", "client_id", "a1", "redirect_uri", url.QueryEscape(s.Clients["a1"].RedirectURI), "scope", "foo", "username", "u1", "password", "pw1", "state", "st")
	u, _ := url.Parse(w.Header().Get("Location"))
	found := false
	for _, v := range u.Query()["state"] {
		found = found || v == "own"
	}
	if !found {
		t.Fatalf("own query lost: %s", u)
	}
''')

plant("c17-prefix-uri", "C17",
 "an authorization for a URI that extends the registered one",
 "redirect URIs that begin with the registered one are accepted",
 [(S, "	if client.RedirectURI != req.RedirectURI {", "	if client.RedirectURI == \"\" || !strings.HasPrefix(req.RedirectURI, client.RedirectURI) {")],
 '''
	s := zzServer()
	w := zzPost(s, "authorize", "", "", "response_type", "code", "client_id", "a2", "redirect_uri", url.QueryEscape(s.Clients["a2"].RedirectURI+".evil.example"), "scope", "foo", "username", "u1", "password", "pw1")
	if w.Header().Get("Location") != "" {
		t.Fatal("redirect to another URI")
	}
''')

plant("c17-state-trim", "C17",
 "a state with surrounding white space",
 "white space around the state is removed",
 [("authorization.go", "	state := r.Form.Get(\"state\")\n", "	state := strings.TrimSpace(r.Form.Get(\"state\"))\n"),
  ("authorization.go", "	\"net/http\"\n	\"net/url\"\n", "	\"net/http\"\n	\"net/url\"\n	\"strings\"\n")],
 '''
	s := zzServer()
	w := zzPost(s, "authorize", "", "", "response_type", "code", "client_id", "a2", "redirect_uri", url.QueryEscape(s.Clients["a2"].RedirectURI), "scope", "foo", "username", "u1", "password", "pw1", "state", " x\\n")
	u, _ := url.Parse(w.Header().Get("Location"))
	if u.Query().Get("state") != " x\\n" {
		t.Fatalf("state altered: %s", u)
	}
''')

# ---------------------------------------------------------------- C18
plant("c18-status-range", "C18",
 "a server (or proxy) that answers a revocation with 202 or 204",
 "any 2xx or 3xx status counts as success of a revocation",
 [("client.go", "	if res.StatusCode != http.StatusOK {\n		return ParseRequestError", "	if res.StatusCode >= http.StatusBadRequest {\n		return ParseRequestError")],
 '''
	c := NewClientWithClient(Default("http://x.example"), &http.Client{Transport: zzTransport(func(r *http.Request) (*http.Response, error) {
		return zzResponse(202, "text/html", &zzBody{r: strings.NewReader("<html>")}), nil
	})})
	if c.Revoke(RevocationRequest{Token: "x"}) == nil {
		t.Fatal("success reported")
	}
''')

plant("c18-first-value", "C18",
 "a response body with something behind the first JSON value",
 "only the first JSON value of a token response is decoded, the rest is not looked at",
 [("token.go", "	err = json.Unmarshal(data, &trs)\n", "	err = json.NewDecoder(strings.NewReader(string(data))).Decode(&trs)\n")],
 '''
	c := NewClientWithClient(Default("http://x.example"), &http.Client{Transport: zzTransport(func(r *http.Request) (*http.Response, error) {
		return zzResponse(200, "application/json", &zzBody{r: strings.NewReader("{\\"access_token\\":\\"a\\"}<!-- proxy error -->")}), nil
	})})
	if _, err := c.Authenticate(TokenRequest{}); err == nil {
		t.Fatal("malformed body accepted")
	}
''')

plant("c18-shared-result", "C18",
 "two overlapping introspections on one client",
 "one result object per client is filled in by all calls",
 [("client.go", "type Client struct {\n	config ClientConfig\n	client *http.Client\n}", "type Client struct {\n	config ClientConfig\n	client *http.Client\n\n	mutex    sync.Mutex\n	response IntrospectionResponse\n}"),
  ("client.go", "	irs, err := ParseIntrospectionResponse(res, c.config.ResponseLimit)\n	if err != nil {\n		return nil, err\n	}\n\n	return irs, nil\n", "	irs, err := ParseIntrospectionResponse(res, c.config.ResponseLimit)\n	if err != nil {\n		return nil, err\n	}\n\n	// keep last response\n	c.mutex.Lock()\n	defer c.mutex.Unlock()\n	c.response = *irs\n\n	return &c.response, nil\n"),
  ("client.go", "import (\n	\"net/http\"\n", "import (\n	\"net/http\"\n	\"sync\"\n")],
 '''
	n := 0
	c := NewClientWithClient(Default("http://x.example"), &http.Client{Transport: zzTransport(func(r *http.Request) (*http.Response, error) {
		n++
		b := []string{"{\\"active\\":true,\\"username\\":\\"one\\"}", "{\\"active\\":true,\\"username\\":\\"two\\"}"}[n-1]
		return zzResponse(200, "application/json", &zzBody{r: strings.NewReader(b)}), nil
	})})
	a, _ := c.Introspect(IntrospectionRequest{Token: "x"})
	_, _ = c.Introspect(IntrospectionRequest{Token: "y"})
	if a.Username != "one" {
		t.Fatal("result replaced by a later call")
	}
''')

plant("c18-error-status", "C18",
 "an OAuth2 error with a status other than the usual one",
 "the status of an error is taken from the error's name",
 [("error.go", "		oauthError.Status = res.StatusCode\n", "		oauthError.Status = res.StatusCode\n		if oauthError.Name == \"invalid_client\" {\n			oauthError.Status = http.StatusUnauthorized\n		}\n")],
 '''
	c := NewClientWithClient(Default("http://x.example"), &http.Client{Transport: zzTransport(func(r *http.Request) (*http.Response, error) {
		return zzResponse(400, "application/json", &zzBody{r: strings.NewReader("{\\"error\\":\\"invalid_client\\"}")}), nil
	})})
	_, err := c.Authenticate(TokenRequest{})
	if e, ok := err.(*Error); !ok || e.Status != 400 {
		t.Fatalf("error %v", err)
	}
''')

# ---------------------------------------------------------------- C19
plant("c19-revoke-leak", "C19",
 "a revocation that is answered with an error status",
 "the body of a refused revocation is never closed",
 [("client.go", "	// ensure body is closed\n	defer res.Body.Close()\n\n	// check status\n	if res.StatusCode != http.StatusOK {\n		return ParseRequestError(res, c.config.ResponseLimit)\n	}\n\n	return nil\n", "	// check status\n	if res.StatusCode != http.StatusOK {\n		return ParseRequestError(res, c.config.ResponseLimit)\n	}\n\n	return res.Body.Close()\n")],
 '''
	b := &zzBody{r: strings.NewReader("{\\"error\\":\\"x\\"}")}
	c := NewClientWithClient(Default("http://x.example"), &http.Client{Transport: zzTransport(func(r *http.Request) (*http.Response, error) {
		return zzResponse(400, "application/json", b), nil
	})})
	_ = c.Revoke(RevocationRequest{Token: "x"})
	if !b.closed {
		t.Fatal("body not closed")
	}
''')

plant("c19-drain", "C19",
 "a server that answers with an endless body",
 "the rest of a response is read before it is closed, to reuse the connection",
 [("token.go", "	// parse content type\n	contentType, _, err := mime.ParseMediaType(res.Header.Get(\"Content-Type\"))\n", "	// drain body to reuse the connection\n	_, err = io.Copy(ioutil.Discard, res.Body)\n	if err != nil {\n		return nil, err\n	}\n\n	// parse content type\n	contentType, _, err := mime.ParseMediaType(res.Header.Get(\"Content-Type\"))\n")],
 '''
	b := &zzBody{r: strings.NewReader(strings.Repeat(" ", 1<<20))}
	c := NewClientWithClient(Default("http://x.example"), &http.Client{Transport: zzTransport(func(r *http.Request) (*http.Response, error) {
		return zzResponse(200, "application/json", b), nil
	})})
	_, _ = c.Authenticate(TokenRequest{})
	if b.read > 1<<16 {
		t.Fatalf("read %d bytes", b.read)
	}
''')

plant("c19-error-unlimited", "C19",
 "an error response with an endless body",
 "bodies of error responses are read without limit",
 [("error.go", "	data, _ := ioutil.ReadAll(io.LimitReader(res.Body, limit))\n", "	data, _ := ioutil.ReadAll(io.LimitReader(res.Body, limit))\n	if int64(len(data)) == limit && json.Unmarshal(data, new(Error)) != nil {\n		// cut in the middle of the error document\n		rest, _ := ioutil.ReadAll(res.Body)\n		data = append(data, rest...)\n	}\n")],
 '''
	b := &zzBody{r: strings.NewReader("{\\"error\\":\\"" + strings.Repeat("x", 1<<20))}
	c := NewClientWithClient(Default("http://x.example"), &http.Client{Transport: zzTransport(func(r *http.Request) (*http.Response, error) {
		return zzResponse(500, "application/json", b), nil
	})})
	_, _ = c.Authenticate(TokenRequest{})
	if b.read > 1<<16 {
		t.Fatalf("read %d bytes", b.read)
	}
''')

# ---------------------------------------------------------------- C20
