P = []
def plant(id, prop, needs, breaks, edits, demo, flags=""):
    P.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, flags=flags))
S = "server.go"

plant("c01-replay-gap", "C01",
 "a refresh that overlaps a code replay, running while the replay writes its answer",
 "a code replay answers before it sweeps the refresh tokens and gives up the lock meanwhile, a refresh in the gap leaves a live access token",
 [(S, "		// revoke all refresh tokens\n		for key, token := range s.RefreshTokens {\n			if token.Code == authorizationCode.SignatureString() {\n				delete(s.RefreshTokens, key)\n			}\n		}\n\n		_ = WriteError(w, InvalidGrant(\"unknown authorization code\"))\n		return\n",
      "		// answer without holding up others\n		s.Mutex.Unlock()\n		_ = WriteError(w, InvalidGrant(\"unknown authorization code\"))\n		s.Mutex.Lock()\n\n		// revoke all refresh tokens\n		for key, token := range s.RefreshTokens {\n			if token.Code == authorizationCode.SignatureString() {\n				delete(s.RefreshTokens, key)\n			}\n		}\n\n		return\n")],
 '''
	s := zzServer()
	code := zzCode(t, s, "a1", "foo")
	r := zzStr(zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code), "refresh_token")
	a := ""
	done := make(chan struct{})
	zw := &zzHook{httptest.NewRecorder(), func() {
		go func() {
			defer close(done)
			a = zzStr(zzRefresh(s, "a1", "s1", r, ""), "access_token")
		}()
		select {
		case <-done:
		case <-time.After(300 * time.Millisecond):
		}
	}}
	s.ServeHTTP(zw, zzReq("/oauth2/token", "a1", "s1", "grant_type", "authorization_code", "code", code, "redirect_uri", url.QueryEscape(s.Clients["a1"].RedirectURI)))
	<-done
	if a != "" && zzAPI(s, a, "foo") == 200 {
		t.Fatal("a descendant of the replayed code is alive")
	}
}

type zzHook struct {
	*httptest.ResponseRecorder
	f func()
}

func (h *zzHook) WriteHeader(n int) {
	h.ResponseRecorder.WriteHeader(n)
	h.f()
''')

plant("c03-leak-suspected", "C03",
 "a redemption attempt by a public client with a code of somebody else, then the rightful redemption",
 "a code presented by a public client that does not own it, with its own redirect URI, is consumed",
 [(S, "	if storedAuthorizationCode.ClientID != rq.ClientID {\n", "	if storedAuthorizationCode.ClientID != rq.ClientID {\n		// the code leaked\n		if !s.Clients[rq.ClientID].Confidential && rq.RedirectURI != storedAuthorizationCode.RedirectURI {\n			storedAuthorizationCode.Used = true\n		}\n\n")],
 '''
	s := zzServer()
	code := zzCode(t, s, "a1", "foo")
	zzExchange(s, "p1", "", s.Clients["p1"].RedirectURI, code)
	if w := zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code); w.Code != 200 {
		t.Fatalf("refused attempt consumed the code: %d %s", w.Code, w.Body)
	}
''')

plant("c03-scoped-retry", "C03",
 "a second redemption of a code by its client that names a scope",
 "a used code is accepted again when the request asks for a narrower scope",
 [(S, "	if storedAuthorizationCode.Used {\n", "	narrower := !rq.Scope.Empty() && storedAuthorizationCode.Scope.Includes(rq.Scope) && !rq.Scope.Includes(storedAuthorizationCode.Scope) && rq.RedirectURI != \"\"\n	if storedAuthorizationCode.Used && !narrower {\n")],
 '''
	s := zzServer()
	code := zzCode(t, s, "a1", "foo bar")
	a := zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
	b := zzPost(s, "token", "a1", "s1", "grant_type", "authorization_code", "code", code, "redirect_uri", url.QueryEscape(s.Clients["a1"].RedirectURI), "scope", "foo")
	if a.Code == 200 && b.Code == 200 {
		t.Fatal("redeemed twice")
	}
''')

plant("c03-dead-client-wins", "C03",
 "two redemptions of a code after its used mark was cleared by a refused replay with a wrong redirect URI",
 "a replay with another redirect URI makes a used code usable again",
 [(S, "		// revoke all refresh tokens\n", "		// a replay with another redirect URI was no proper use\n		if storedAuthorizationCode.RedirectURI != rq.RedirectURI && storedAuthorizationCode.ClientID == rq.ClientID {\n			storedAuthorizationCode.Used = false\n		}\n\n		// revoke all refresh tokens\n")],
 '''
	s := zzServer()
	code := zzCode(t, s, "a1", "foo")
	a := zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
	zzExchange(s, "a1", "s1", "https://x.example/", code)
	b := zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
	if a.Code == 200 && b.Code == 200 {
		t.Fatal("redeemed twice")
	}
''')

plant("c06-early-delete", "C06",
 "a refresh refused because it asks for a scope the server allows but the token was not granted",
 "a refresh refused for excessive but allowed scope consumes the refresh token",
 [(S, "	// validate scope - a missing scope is always included\n	if !storedRefreshToken.Scope.Includes(rq.Scope) {\n", "	// validate scope - a missing scope is always included\n	if !storedRefreshToken.Scope.Includes(rq.Scope) {\n		// somebody probes for scope\n		if s.Config.AllowedScope.Includes(rq.Scope) && len(rq.Scope) > len(storedRefreshToken.Scope) {\n			delete(s.RefreshTokens, refreshToken.SignatureString())\n		}\n\n")],
 '''
	s := zzServer()
	_, r := zzPassword(t, s, "a1", "s1", "foo")
	zzRefresh(s, "a1", "s1", r, "foo bar")
	if zzRefresh(s, "a1", "s1", r, "").Code != 200 {
		t.Fatal("refused refresh consumed the token")
	}
''')

plant("c09-hot-tokens", "C09",
 "an access token that was used several times before its revocation",
 "access tokens used often are remembered, a revocation does not reach the memory",
 [(S, "	Mutex              sync.Mutex\n}", "	Mutex              sync.Mutex\n\n	hot  map[string]*ServerCredential\n	uses map[string]int\n}"),
  (S, "	accessToken, found := s.AccessTokens[token.SignatureString()]\n	if !found {\n		_ = WriteBearerError", "	accessToken, found := s.hot[token.SignatureString()]\n	if !found {\n		accessToken, found = s.AccessTokens[token.SignatureString()]\n	}\n	if !found {\n		_ = WriteBearerError"),
  (S, "	return true\n}\n\n// ServeHTTP", "	// remember frequently used tokens\n	s.uses[token.SignatureString()]++\n	if s.uses[token.SignatureString()] >= 4 {\n		s.hot[token.SignatureString()] = accessToken\n	}\n\n	return true\n}\n\n// ServeHTTP"),
  (S, "		AuthorizationCodes: map[string]*ServerCredential{},\n	}", "		AuthorizationCodes: map[string]*ServerCredential{},\n		hot:                map[string]*ServerCredential{},\n		uses:               map[string]int{},\n	}")],
 '''
	s := zzServer()
	a, _ := zzPassword(t, s, "a1", "s1", "foo")
	for i := 0; i < 5; i++ {
		zzAPI(s, a, "foo")
	}
	if zzPost(s, "revoke", "a1", "s1", "token", a).Code == 200 && zzAPI(s, a, "foo") == 200 {
		t.Fatal("revoked token accepted")
	}
''')

plant("c10-cached-answer", "C10",
 "introspection of a token with a single scope item, its revocation, the same introspection again",
 "introspection answers for tokens with one scope item are kept and returned again later",
 [(S, "	Mutex              sync.Mutex\n}", "	Mutex              sync.Mutex\n\n	lastRequest  IntrospectionRequest\n	lastResponse *IntrospectionResponse\n}"),
  (S, "	// prepare response\n	res := &IntrospectionResponse{}\n", "	// prepare response\n	res := &IntrospectionResponse{}\n\n	// use last response if still good\n	if s.lastResponse != nil && s.lastRequest == *req && s.lastResponse.ExpiresAt > time.Now().Unix() {\n		_ = WriteIntrospectionResponse(w, s.lastResponse)\n		return\n	}\n"),
  (S, "	// write response\n	_ = WriteIntrospectionResponse(w, res)\n", "	// remember response\n	if res.Active && len(res.Scope) == 1 {\n		s.lastRequest, s.lastResponse = *req, res\n	}\n\n	// write response\n	_ = WriteIntrospectionResponse(w, res)\n")],
 '''
	s := zzServer()
	_, a := zzPassword(t, s, "a1", "s1", "foo")
	zzPost(s, "introspect", "a1", "s1", "token", a, "token_type_hint", "refresh_token")
	zzPost(s, "revoke", "a1", "s1", "token", a)
	if v, _ := zzJSON(zzPost(s, "introspect", "a1", "s1", "token", a, "token_type_hint", "refresh_token"))["active"].(bool); v {
		t.Fatal("revoked token reported active")
	}
''')

plant("c11-remembered-client", "C11",
 "an introspection with a wrong secret within a tenth of a second after a revocation of a refresh token with the hint access_token by that client",
 "a client that just revoked a refresh token is trusted at introspection without its secret",
 [(S, "	Mutex              sync.Mutex\n}", "	Mutex              sync.Mutex\n\n	trusted      string\n	trustedUntil time.Time\n}"),
  (S, "		s.revokeToken(req.ClientID, s.RefreshTokens, token.SignatureString())\n", "		s.revokeToken(req.ClientID, s.RefreshTokens, token.SignatureString())\n		if req.TokenTypeHint == AccessToken {\n			s.trusted, s.trustedUntil = req.ClientID, time.Now().Add(100*time.Millisecond)\n		}\n"),
  (S, "	if client.Confidential && client.Secret != req.ClientSecret {\n		_ = WriteError(w, InvalidClient(\"unknown client\"))\n		return\n	}\n\n	// parse token\n	token, err := ParseHS256Token(s.Config.Secret, req.Token)\n	if err != nil {\n		_ = WriteError(w, InvalidRequest(err.Error()))\n		return\n	}\n\n	// prepare response", "	trusted := s.trusted == req.ClientID && time.Now().Before(s.trustedUntil)\n	if client.Confidential && client.Secret != req.ClientSecret && !trusted {\n		_ = WriteError(w, InvalidClient(\"unknown client\"))\n		return\n	}\n\n	// parse token\n	token, err := ParseHS256Token(s.Config.Secret, req.Token)\n	if err != nil {\n		_ = WriteError(w, InvalidRequest(err.Error()))\n		return\n	}\n\n	// prepare response")],
 '''
	s := zzServer()
	a, r := zzPassword(t, s, "a1", "s1", "foo")
	zzPost(s, "revoke", "a1", "s1", "token", r, "token_type_hint", "access_token")
	if zzPost(s, "introspect", "a1", "wrong", "token", a).Code == 200 {
		t.Fatal("wrong secret accepted")
	}
''')

plant("c13-scope-panic", "C13",
 "a scope parameter that has an item of white space other than spaces",
 "a tab between two spaces in a scope makes the handler panic",
 [("scope.go", "		// trim whitespace\n		item = strings.TrimSpace(item)\n\n		if item != \"\" {\n			res = append(res, item)\n		}\n", "		if item == \"\" {\n			continue\n		}\n\n		// trim whitespace and plus signs\n		item = strings.TrimSpace(item)\n		if item[0] == '+' {\n			item = item[1:]\n		}\n\n		res = append(res, item)\n")],
 '''
	s := zzServer()
	if zzTry(func() {
		zzPost(s, "token", "a1", "s1", "grant_type", "client_credentials", "scope", "foo \\t bar")
	}) {
		t.Fatal("panic")
	}
''')

plant("c13-self-deadlock", "C13",
 "a code replay by another client than the owner",
 "the replay of a code by a stranger locks the mutex twice",
 [(S, "		// revoke all access tokens\n", "		// note abuse by strangers\n		if storedAuthorizationCode.ClientID != rq.ClientID {\n			s.noteAbuse(rq.ClientID)\n		}\n\n		// revoke all access tokens\n"),
  (S, "	Mutex              sync.Mutex\n}", "	Mutex              sync.Mutex\n\n	abuse map[string]int\n}\n\nfunc (s *Server) noteAbuse(clientID string) {\n	s.Mutex.Lock()\n	defer s.Mutex.Unlock()\n	if s.abuse == nil {\n		s.abuse = map[string]int{}\n	}\n	s.abuse[clientID]++\n}")],
 '''
	s := zzServer()
	code := zzCode(t, s, "a1", "foo")
	zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
	zzWithin(t, 3*time.Second, func() { zzExchange(s, "a2", "s2", s.Clients["a1"].RedirectURI, code) })
''')

plant("c17-implicit-denied-query", "C17",
 "an implicit authorization without state and with a wrong password",
 "the refusal of an implicit request without state arrives in the query",
 [(S, "AccessDenied(\"\").SetRedirect(rq.RedirectURI, rq.State, true))", "AccessDenied(\"\").SetRedirect(rq.RedirectURI, rq.State, rq.State != \"\"))")],
 '''
	s := zzServer()
	w := zzPost(s, "authorize", "", "", "response_type", "token", "client_id", "a2", "redirect_uri", url.QueryEscape(s.Clients["a2"].RedirectURI), "scope", "foo", "username", "u1", "password", "bad")
	if l := w.Header().Get("Location"); !strings.Contains(l, "#") || strings.Contains(l, "?error") {
		t.Fatalf("location %q", l)
	}
''')

plant("c20-silent-stranger", "C20",
 "a revocation with a wrong token type hint by a client that does not own the token",
 "a revocation by another client is reported as successful although nothing was revoked",
 [(S, "	// check access token\n	if accessToken, found := s.AccessTokens[token.SignatureString()]; found {\n		// check owner\n		if accessToken.ClientID != req.ClientID {\n			_ = WriteError(w, InvalidClient(\"wrong client\"))\n			return\n		}\n\n		// revoke token", "	// check access token\n	if accessToken, found := s.AccessTokens[token.SignatureString()]; found {\n		// check owner\n		if accessToken.ClientID != req.ClientID && req.TokenTypeHint == RefreshToken {\n			// there is no such refresh token\n			w.WriteHeader(http.StatusOK)\n			return\n		} else if accessToken.ClientID != req.ClientID {\n			_ = WriteError(w, InvalidClient(\"wrong client\"))\n			return\n		}\n\n		// revoke token")],
 '''
	s := zzServer()
	a, _ := zzPassword(t, s, "a1", "s1", "foo")
	if w := zzPost(s, "revoke", "a2", "s2", "token", a, "token_type_hint", "refresh_token"); w.Code == 200 {
		t.Fatal("reported as revoked")
	}
''')

plant("c20-cacheable-redirect", "C20",
 "a look at the headers of a successful implicit redirect",
 "redirects that carry a token in the fragment may be cached",
 [("oauth2.go", "	// prevent caching\n	w.Header().Set(\"Cache-Control\", \"no-store\")\n", "	// prevent caching, fragments never reach a cache\n	if params[\"expires_in\"] == \"\" {\n		w.Header().Set(\"Cache-Control\", \"no-store\")\n	}\n")],
 '''
	s := zzServer()
	w := zzPost(s, "authorize", "", "", "response_type", "token", "client_id", "a2", "redirect_uri", url.QueryEscape(s.Clients["a2"].RedirectURI), "scope", "foo", "username", "u1", "password", "pw1")
	if w.Header().Get("Location") == "" || w.Header().Get("Cache-Control") != "no-store" {
		t.Fatalf("headers %v", w.Header())
	}
''')

plant("c20-no-challenge", "C20",
 "an introspection of a refresh token by a public client that does not own it",
 "a refusal for the client lacks its challenge when the client is public",
 [(S, "		if refreshToken.ClientID != req.ClientID {\n			_ = WriteError(w, InvalidClient(\"wrong client\"))\n			return\n		}\n\n		// set response", "		if refreshToken.ClientID != req.ClientID {\n			err := InvalidClient(\"wrong client\")\n			if !client.Confidential {\n				err.Headers = nil\n			}\n			_ = WriteError(w, err)\n			return\n		}\n\n		// set response")],
 '''
	s := zzServer()
	_, r := zzPassword(t, s, "a1", "s1", "foo")
	w := zzPost(s, "introspect", "p1", "", "token", r)
	if w.Code == 401 && w.Header().Get("WWW-Authenticate") == "" {
		t.Fatal("no challenge")
	}
''')
