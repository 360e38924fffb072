P = []
def plant(id, prop, needs, breaks, edits, demo, flags=""):
    P.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, flags=flags))
S = "server.go"

plant("c07-alias-scope", "C07",
 "a narrowing refresh of one of several tokens that share the granted scope's storage, then a look at the others",
 "a narrowing refresh writes the narrowed scope into the stored scope shared with the access token and the code",
 [(S, "	// inherit scope from stored refresh token\n	if rq.Scope.Empty() {\n		rq.Scope = storedRefreshToken.Scope\n	}\n",
      "	// inherit scope from stored refresh token\n	if rq.Scope.Empty() {\n		rq.Scope = storedRefreshToken.Scope\n	} else if len(storedRefreshToken.Scope) >= len(rq.Scope) && storedRefreshToken.Scope.Includes(rq.Scope) {\n		rq.Scope = append(storedRefreshToken.Scope[:0], rq.Scope...)\n	}\n")],
 '''
	s := zzServer()
	a, r := zzPassword(t, s, "a1", "s1", "foo bar")
	zzRefresh(s, "a1", "s1", r, "bar")
	if c := zzAPI(s, a, "foo"); c != 200 {
		t.Fatalf("another token's scope changed: %d", c)
	}
''')

plant("c09-revoked-ring", "C09",
 "seven revocations by one server, none of which is purged from the maps",
 "revoked tokens are only remembered in a list of the last six",
 [(S, "	Mutex              sync.Mutex\n}", "	Mutex              sync.Mutex\n	revoked            []string\n}"),
  (S, "	// remove token\n	delete(list, signature)\n", "	// remember the last revocations\n	s.revoked = append(s.revoked, signature)\n	if len(s.revoked) > 6 {\n		s.revoked = s.revoked[1:]\n	}\n"),
  (S, "	// get token\n	accessToken, found := s.AccessTokens[token.SignatureString()]\n	if !found {", "	// get token\n	accessToken, found := s.AccessTokens[token.SignatureString()]\n	if !found || s.isRevoked(token.SignatureString()) {"),
  (S, "	storedRefreshToken, found := s.RefreshTokens[refreshToken.SignatureString()]\n	if !found {", "	storedRefreshToken, found := s.RefreshTokens[refreshToken.SignatureString()]\n	if !found || s.isRevoked(refreshToken.SignatureString()) {"),
  (S, "		if !accessToken.ExpiresAt.Before(time.Now()) {", "		if !accessToken.ExpiresAt.Before(time.Now()) && !s.isRevoked(token.SignatureString()) {"),
  (S, "		if !refreshToken.ExpiresAt.Before(time.Now()) {", "		if !refreshToken.ExpiresAt.Before(time.Now()) && !s.isRevoked(token.SignatureString()) {"),
  (S, "func (s *Server) revokeToken(", "func (s *Server) isRevoked(sig string) bool {\n	for _, x := range s.revoked {\n		if x == sig {\n			return true\n		}\n	}\n	return false\n}\n\nfunc (s *Server) revokeToken(")],
 '''
	s := zzServer()
	first, _ := zzPassword(t, s, "a1", "s1", "foo")
	zzPost(s, "revoke", "a1", "s1", "token", first)
	for i := 0; i < 8; i++ {
		a, _ := zzPassword(t, s, "a1", "s1", "foo")
		zzPost(s, "revoke", "a1", "s1", "token", a)
	}
	if zzAPI(s, first, "foo") == 200 {
		t.Fatal("a revoked token is accepted")
	}
''')

plant("c13-slot-leak", "C13",
 "two grants that fail because the random source does, then any grant",
 "a slot for issuing tokens is not given back when the random source fails",
 [(S, "	Mutex              sync.Mutex\n}", "	Mutex              sync.Mutex\n	slots              chan struct{}\n}"),
  (S, "	return &Server{\n", "	return &Server{\n		slots: make(chan struct{}, 2),\n"),
  (S, "	// generate access token\n	accessToken", "	s.slots <- struct{}{}\n	// generate access token\n	accessToken"),
  (S, "	// prepare response\n	r := NewBearerTokenResponse", "	<-s.slots\n	// prepare response\n	r := NewBearerTokenResponse")],
 '''
	s := zzServer()
	restore := zzFailAfter(0)
	for i := 0; i < 2; i++ {
		zzTry(func() { zzPost(s, "token", "a1", "s1", "grant_type", "client_credentials", "scope", "foo") })
	}
	restore()
	zzWithin(t, 5*time.Second, func() {
		zzPost(s, "token", "a1", "s1", "grant_type", "client_credentials", "scope", "foo")
	})
''')

plant("c05-narrow-origin", "C05",
 "a code exchange, a refresh that narrows to one scope token, then a replay of the code",
 "tokens obtained by narrowing to a single scope token forget which code they came from and survive its replay",
 [(S, "	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, storedRefreshToken.Code)\n", """	origin := storedRefreshToken.Code
	if len(rq.Scope) < len(storedRefreshToken.Scope) && len(rq.Scope) == 1 {
		origin = refreshToken.SignatureString()
	}
	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, origin)
""")],
 '''
	s := zzServer()
	code := zzCode(t, s, "a1", "foo bar")
	w := zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
	w = zzRefresh(s, "a1", "s1", zzStr(w, "refresh_token"), "foo")
	a := zzStr(w, "access_token")
	if a == "" {
		t.Fatal("no token")
	}
	zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
	if zzAPI(s, a, "foo") == 200 {
		t.Fatal("a descendant of a replayed code is alive")
	}
''')

plant("c05-replay-without-secret", "C05",
 "somebody without the client's secret presents a used code",
 "a replay is noticed before the client is authenticated, so anybody who saw a used code can kill its tokens",
 [(S, "	// find client\n	client, found := s.Clients[req.ClientID]\n", "	// catch replays early\n	if req.GrantType == AuthorizationCodeGrantType {\n		if c, err := ParseHS256Token(s.Config.Secret, req.Code); err == nil {\n			if stored := s.AuthorizationCodes[c.SignatureString()]; stored != nil && stored.Used {\n				s.handleAuthorizationCodeGrant(w, req)\n				return\n			}\n		}\n	}\n\n	// find client\n	client, found := s.Clients[req.ClientID]\n")],
 '''
	s := zzServer()
	code := zzCode(t, s, "a1", "foo bar")
	a := zzStr(zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code), "access_token")
	zzExchange(s, "a1", "wrong", s.Clients["a1"].RedirectURI, code)
	if zzAPI(s, a, "foo") != 200 {
		t.Fatal("a request that failed to authenticate revoked a token")
	}
''')

plant("c05-one-each", "C05",
 "two live access tokens that descend from one code (an exchange and a refresh), then a replay",
 "a replay revokes only one access token that descends from the code",
 [(S, "				delete(s.AccessTokens, key)\n", "				delete(s.AccessTokens, key)\n				break\n")],
 '''
	s := zzServer()
	code := zzCode(t, s, "a1", "foo bar")
	w := zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
	a := zzStr(w, "access_token")
	b := zzStr(zzRefresh(s, "a1", "s1", zzStr(w, "refresh_token"), ""), "access_token")
	zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
	if zzAPI(s, a, "foo") == 200 || zzAPI(s, b, "foo") == 200 {
		t.Fatal("a descendant of a replayed code is alive")
	}
''')

plant("c08-nanoseconds", "C08",
 "a lifespan of more than 240 years, as an operator sets it for tokens that should not expire",
 "expiry times pass through nanoseconds since 1970 and wrap around for very long lifespans",
 [(S, "		ExpiresAt: time.Now().Add(s.Config.AccessTokenLifespan),", "		ExpiresAt: time.Unix(0, time.Now().Add(s.Config.AccessTokenLifespan).UnixNano()),")],
 '''
	s := zzServer()
	s.Config.AccessTokenLifespan = 270 * 365 * 24 * time.Hour
	a, _ := zzPassword(t, s, "a1", "s1", "foo")
	if zzAPI(s, a, "foo") != 200 {
		t.Fatal("a fresh token is expired")
	}
''')

plant("c14-repeat-answer", "C14",
 "two equal client credentials grants at the same instant",
 "an equal grant at the same instant gets the tokens of the one before",
 [(S, "	Mutex              sync.Mutex\n}", "	Mutex              sync.Mutex\n	last               string\n	lastAt             time.Time\n	lastRes            *TokenResponse\n}"),
  (S, "	// save tokens\n	r := s.issueTokens(true, rq.Scope, rq.ClientID, \"\", \"\")\n", "	// answer repeated requests the same\n	key := rq.ClientID + \" \" + rq.Scope.String()\n	if s.last == key && time.Since(s.lastAt) < time.Millisecond {\n		_ = WriteTokenResponse(w, s.lastRes)\n		return\n	}\n\n	// save tokens\n	r := s.issueTokens(true, rq.Scope, rq.ClientID, \"\", \"\")\n	s.last, s.lastAt, s.lastRes = key, time.Now(), r\n")],
 '''
	s := zzServer()
	for i := 0; i < 200; i++ {
		a := zzStr(zzPost(s, "token", "a1", "s1", "grant_type", "client_credentials", "scope", "foo"), "access_token")
		b := zzStr(zzPost(s, "token", "a1", "s1", "grant_type", "client_credentials", "scope", "foo"), "access_token")
		if a == b {
			t.Fatal("two grants, one token")
		}
	}
''')

plant("c18-trailing-data", "C18",
 "a 200 answer whose document is followed by something else, as from a broken proxy",
 "the client stops reading after the first JSON value and accepts a document followed by garbage or cut by the limit",
 [("token.go", "	data, err := ioutil.ReadAll(io.LimitReader(res.Body, limit))\n	if err != nil {\n		return nil, err\n	}\n\n", ""),
  ("token.go", "	err = json.Unmarshal(data, &trs)\n", "	err = json.NewDecoder(io.LimitReader(res.Body, limit)).Decode(&trs)\n"),
  ("token.go", '	"io/ioutil"\n', "")],
 '''
	c := NewClientWithClient(Default("https://as.example"), &http.Client{Transport: zzTransport(func(*http.Request) (*http.Response, error) {
		return zzResponse(200, "application/json", &zzBody{r: strings.NewReader(`{"token_type":"bearer","access_token":"x","expires_in":1}{"error":"server_error"}`)}), nil
	})})
	if res, err := c.Authenticate(TokenRequest{GrantType: "password"}); err == nil {
		t.Fatalf("accepted: %+v", res)
	}
''')

plant("c15-keyed-once", "C15",
 "two servers in one process whose secrets have the same length",
 "the keyed hash is kept per process and only renewed when the secret's length changes, so one server's secret makes the other's tokens",
 [("hs256.go", "	hash := hmac.New(sha256.New, secret)\n", "	macMutex.Lock()\n	defer macMutex.Unlock()\n	if mac == nil || macLength != len(secret) {\n		mac, macLength = hmac.New(sha256.New, secret), len(secret)\n	}\n	hash := mac\n	hash.Reset()\n"),
  ("hs256.go", "var b64 =", "var mac hash.Hash\nvar macLength int\nvar macMutex sync.Mutex\n\nvar b64 ="),
  ("hs256.go", "	\"errors\"\n", "	\"errors\"\n	\"hash\"\n"),
  ("hs256.go", "	\"strings\"\n)", "	\"strings\"\n	\"sync\"\n)")],
 '''
	a, err := GenerateHS256Token([]byte("secret-one"), 16)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := ParseHS256Token([]byte("secret-two"), a.String()); err == nil {
		t.Fatal("a token made with another secret is accepted")
	}
''')

plant("c02-pooled-document", "C02",
 "two answers written at the same time, each through a slow connection",
 "a pooled buffer is given back before its content is written, so one answer carries another's document",
 [("oauth2.go", """	// set status
	w.WriteHeader(status)

	// write error document
	err := json.NewEncoder(w).Encode(obj)

	return err
""", """	// encode document
	buf := documents.Get().(*bytes.Buffer)
	buf.Reset()
	err := json.NewEncoder(buf).Encode(obj)
	documents.Put(buf)
	if err != nil {
		return err
	}

	// set status
	w.WriteHeader(status)

	// write document
	_, err = w.Write(buf.Bytes())

	return err
"""), ("oauth2.go", "import (\n", "import (\n	\"bytes\"\n"),
  ("oauth2.go", "	\"net/url\"\n)", "	\"net/url\"\n	\"sync\"\n)\n\nvar documents = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n")],
 '''
	s := zzServer()
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 300; n++ {
				zzPost(s, "revoke", "a1", "wrong", "token", "x")
				_ = Write(httptest.NewRecorder(), map[string]string{"a": "b"}, 200)
			}
		}()
	}
	wg.Wait()
''', "-race")

plant("c17-same-meaning", "C17",
 "an authorization request whose redirect URI means the same as the registered one but is spelt differently",
 "redirect URIs are compared after parsing and printing, so a different spelling passes",
 [(S, "	if client.RedirectURI != req.RedirectURI {", "	if !sameURI(client.RedirectURI, req.RedirectURI) {"),
  (S, "func (s *Server) authorizationEndpoint(", "func sameURI(a, b string) bool {\n	x, err1 := url.Parse(a)\n	y, err2 := url.Parse(b)\n	return err1 == nil && err2 == nil && x.String() == y.String()\n}\n\nfunc (s *Server) authorizationEndpoint("),
  (S, "	\"net/http\"\n", "	\"net/http\"\n	\"net/url\"\n")],
 '''
	s := zzServer()
	w := zzPost(s, "authorize", "", "", "response_type", "code", "client_id", "a2", "redirect_uri", url.QueryEscape("HTTPS://two.example/cb"),
		"scope", "foo", "username", "u1", "password", "pw1")
	if w.Code < 400 || w.Header().Get("Location") != "" {
		t.Fatalf("redirected: %d %v", w.Code, w.Header())
	}
''')

plant("c11-blank-secret", "C11",
 "a confidential client registered with an empty secret (provisioned before its secret is set), and a caller that presents another one",
 "the introspection endpoint accepts any secret for a confidential client whose secret is still empty",
 [(S, """	// authenticate client
	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// parse token
	token, err := ParseHS256Token(s.Config.Secret, req.Token)
	if err != nil {
		_ = WriteError(w, InvalidRequest(err.Error()))
		return
	}

	// prepare response
	res""", """	// authenticate client
	if client.Confidential && client.Secret != "" && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// parse token
	token, err := ParseHS256Token(s.Config.Secret, req.Token)
	if err != nil {
		_ = WriteError(w, InvalidRequest(err.Error()))
		return
	}

	// prepare response
	res""")],
 '''
	s := zzServer()
	s.Clients["a1"].Secret = ""
	a, _ := zzPassword(t, s, "a1", "", "foo")
	if zzActive(s, "a1", "guess", a) {
		t.Fatal("any secret will do")
	}
''')
