P = []
def plant(id, prop, needs, breaks, edits, demo, flags=""):
    P.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, flags=flags))
S = "server.go"
def field(x): return (S,"	Mutex              sync.Mutex\n}","	Mutex              sync.Mutex\n"+x+"}")

plant("c08-evict-1000", "C08",
 "more than a thousand access tokens alive at once",
 "the oldest access token is dropped before its lifespan has passed when a thousand others exist",
 [(S,"	// save access token\n","""	// keep the list small
	if len(s.AccessTokens) >= 1000 {
		var first string
		for key, c := range s.AccessTokens {
			if first == "" || c.ExpiresAt.Before(s.AccessTokens[first].ExpiresAt) {
				first = key
			}
		}
		delete(s.AccessTokens, first)
	}

	// save access token
""")],
 '''
	s := zzServer()
	a, _ := zzPassword(t, s, "a1", "s1", "foo")
	for i := 0; i < 1100; i++ {
		zzPost(s, "token", "a2", "s2", "grant_type", "client_credentials", "scope", "foo")
	}
	if c := zzAPI(s, a, "foo"); c != 200 {
		t.Fatalf("a living token is refused: %d", c)
	}
''')

plant("c05-evict-codes", "C05",
 "a redemption, a hundred further codes, then a replay of the first",
 "redeemed codes are forgotten once a hundred codes are stored, so a replay revokes nothing",
 [(S,"	// save authorization code\n","""	// keep the list small
	if len(s.AuthorizationCodes) >= 100 {
		for key, c := range s.AuthorizationCodes {
			if c.Used {
				delete(s.AuthorizationCodes, key)
			}
		}
	}

	// save authorization code
""")],
 '''
	s := zzServer()
	code := zzCode(t, s, "a1", "foo")
	w := zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
	a := zzStr(w, "access_token")
	for i := 0; i < 110; i++ {
		zzCode(t, s, "a1", "foo")
	}
	zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
	if zzAPI(s, a, "foo") == 200 {
		t.Fatal("the token survived the replay")
	}
''')

plant("c11-lockout", "C11",
 "five failed passwords of one user, then the right one",
 "a user with five failed attempts is turned away even with the right password",
 [field("	failures           map[string]int\n"),(S,"""	owner, found := s.Users[rq.Username]
	if !found || owner.Secret != rq.Password {
""","""	owner, found := s.Users[rq.Username]
	if !found || owner.Secret != rq.Password || s.failures[rq.Username] >= 5 {
		if s.failures == nil {
			s.failures = map[string]int{}
		}
		s.failures[rq.Username]++
""")],
 '''
	s := zzServer()
	for i := 0; i < 6; i++ {
		zzPost(s, "token", "a1", "s1", "grant_type", "password", "username", "u1", "password", "bad", "scope", "foo")
	}
	w := zzPost(s, "token", "a1", "s1", "grant_type", "password", "username", "u1", "password", "pw1", "scope", "foo")
	if w.Code != 200 {
		t.Fatalf("turned away: %d", w.Code)
	}
''')

plant("c11-client-lockout", "C11",
 "ten failed secrets of one client at the token endpoint, then the right one",
 "a client with ten failed attempts is turned away even with the right secret",
 [field("	failures           map[string]int\n"),(S,"""	// authenticate client
	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// handle grant type
""","""	// authenticate client
	if s.failures == nil {
		s.failures = map[string]int{}
	}
	bad := client.Confidential && (client.Secret != req.ClientSecret || s.failures[req.ClientID] >= 10)
	if bad {
		s.failures[req.ClientID]++

		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// handle grant type
""")],
 '''
	s := zzServer()
	for i := 0; i < 12; i++ {
		zzPost(s, "token", "a1", "bad", "grant_type", "client_credentials", "scope", "foo")
	}
	if w := zzPost(s, "token", "a1", "s1", "grant_type", "client_credentials", "scope", "foo"); w.Code != 200 {
		t.Fatalf("turned away: %d", w.Code)
	}
''')

plant("c08-use-limit", "C08",
 "one access token presented more than fifty times",
 "an access token is honoured fifty times only, not for its lifespan",
 [field("	uses               map[string]int\n"),(S,"""	// validate scope
	if !accessToken.Scope.Includes(required) {""","""	// limit use
	if s.uses == nil {
		s.uses = map[string]int{}
	}
	if s.uses[tk]++; s.uses[tk] > 50 {
		_ = WriteBearerError(w, InvalidToken("token used up"))
		return false
	}

	// validate scope
	if !accessToken.Scope.Includes(required) {""")],
 '''
	s := zzServer()
	a, _ := zzPassword(t, s, "a1", "s1", "foo")
	for i := 0; i < 60; i++ {
		if c := zzAPI(s, a, "foo"); c != 200 {
			t.Fatalf("use %d: %d", i, c)
		}
	}
''')

plant("c03-code-attempts", "C03",
 "five redemption attempts with a wrong redirect URI, then the right one",
 "five refused attempts with a wrong redirect URI use the code up",
 [field("	attempts           map[string]int\n"),(S,"""	// validate redirect uri
	if storedAuthorizationCode.RedirectURI != rq.RedirectURI {
""","""	// validate redirect uri
	if storedAuthorizationCode.RedirectURI != rq.RedirectURI {
		if s.attempts == nil {
			s.attempts = map[string]int{}
		}
		if s.attempts[rq.Code]++; s.attempts[rq.Code] >= 5 {
			storedAuthorizationCode.Used = true
		}
""")],
 '''
	s := zzServer()
	code := zzCode(t, s, "a1", "foo")
	for i := 0; i < 6; i++ {
		zzExchange(s, "a1", "s1", "https://other.example/cb", code)
	}
	if w := zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code); w.Code != 200 {
		t.Fatalf("the code is used up: %d %s", w.Code, w.Body)
	}
''')

plant("c05-depth", "C05",
 "a code exchange, more than eight refreshes in a row, then a replay of the code",
 "tokens lose the code they came from after eight refreshes and survive its replay",
 [(S,"type ServerCredential struct {\n","type ServerCredential struct {\n	depth int\n"),
 (S,"	// delete used refresh token\n","""	// forget very old origins
	if next, err := ParseHS256Token(s.Config.Secret, r.RefreshToken); err == nil {
		c := s.RefreshTokens[next.SignatureString()]
		if c.depth = storedRefreshToken.depth + 1; c.depth > 8 {
			c.Code = ""
		}
	}

	// delete used refresh token
""")],
 '''
	s := zzServer()
	code := zzCode(t, s, "a1", "foo")
	w := zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
	for i := 0; i < 12; i++ {
		w = zzRefresh(s, "a1", "s1", zzStr(w, "refresh_token"), "")
	}
	if w.Code != 200 {
		t.Fatal("no token")
	}
	zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
	if zzRefresh(s, "a1", "s1", zzStr(w, "refresh_token"), "").Code == 200 {
		t.Fatal("the token survived the replay")
	}
''')

plant("c08-depth-session", "C08",
 "more than twenty refreshes in a row, then the lifespan of the earliest of them",
 "after twenty refreshes a refresh token expires with the one it replaced instead of after its own lifespan",
 [(S,"type ServerCredential struct {\n","type ServerCredential struct {\n	depth int\n"),
 (S,"	// delete used refresh token\n","""	if next, err := ParseHS256Token(s.Config.Secret, r.RefreshToken); err == nil {
		c := s.RefreshTokens[next.SignatureString()]
		if c.depth = storedRefreshToken.depth + 1; c.depth > 20 {
			c.ExpiresAt = storedRefreshToken.ExpiresAt
		}
	}

	// delete used refresh token
""")],
 '''
	s := zzServer()
	s.Config.RefreshTokenLifespan = 600 * time.Millisecond
	_, r := zzPassword(t, s, "a1", "s1", "foo")
	for i := 0; i < 50; i++ {
		time.Sleep(20 * time.Millisecond)
		w := zzRefresh(s, "a1", "s1", r, "")
		if w.Code != 200 {
			t.Fatalf("refresh %d: %d", i, w.Code)
		}
		r = zzStr(w, "refresh_token")
	}
''')

plant("c16-pool-wrap", "C16",
 "more than two hundred and fifty credentials issued by one process",
 "keys are cut from a pool that is used again once it is full, so keys overlap",
 [("hs256.go","	// prepare key\n	key := make([]byte, length)\n\n	// read random bytes\n	_, err := io.ReadFull(randSource, key)\n	if err != nil {\n		return nil, err\n	}\n","""	// take key from random bytes
	randMutex.Lock()
	defer randMutex.Unlock()
	if len(randPool) < 4096 {
		more := make([]byte, length)
		if _, err := io.ReadFull(randSource, more); err != nil {
			return nil, err
		}
		randPool = append(randPool, more...)
		randUsed = len(randPool) - length
	} else if randUsed += length + 1; randUsed+length > len(randPool) {
		randUsed = 0
	}
	key := append([]byte(nil), randPool[randUsed:randUsed+length]...)
"""),("hs256.go","	\"strings\"\n)","	\"strings\"\n	\"sync\"\n)\n\nvar (\n	randMutex sync.Mutex\n	randPool []byte\n	randUsed int\n)\n")],
 '''
	seen := map[string]bool{}
	for i := 0; i < 2000; i++ {
		k, err := GenerateHS256Token([]byte("demo-secret"), 16)
		if err != nil {
			t.Fatal(err)
		}
		p := string(k.Key[:8])
		if seen[p] {
			t.Fatal("random bytes are used again")
		}
		seen[p] = true
	}
''')

plant("c06-sweep-64", "C06",
 "sixty-four tokens issued while an older refresh token has less than an access token lifespan left",
 "every sixty-fourth grant drops refresh tokens that would still be valid for less than an hour",
 [field("	issued             int\n"),(S,"	// save access token\n","""	// sweep now and then
	if s.issued++; s.issued%64 == 0 {
		for key, c := range s.RefreshTokens {
			if c.ExpiresAt.Before(time.Now().Add(s.Config.AccessTokenLifespan)) {
				delete(s.RefreshTokens, key)
			}
		}
	}

	// save access token
""")],
 '''
	s := zzServer()
	s.Config.RefreshTokenLifespan = time.Hour
	s.Config.AccessTokenLifespan = time.Hour
	_, r := zzPassword(t, s, "a1", "s1", "foo")
	for i := 0; i < 70; i++ {
		zzPost(s, "token", "a2", "s2", "grant_type", "client_credentials", "scope", "foo")
	}
	if c := zzRefresh(s, "a1", "s1", r, "").Code; c != 200 {
		t.Fatalf("an unused refresh token is refused: %d", c)
	}
''')

plant("c07-wildcard", "C07",
 "an allowed or granted scope that contains the item *",
 "a scope item * includes every other item",
 [("scope.go","		if i == str {","		if i == str || i == \"*\" {")],
 '''
	s := zzServer()
	s.Config.AllowedScope = ParseScope("foo *")
	a, _ := zzPassword(t, s, "a1", "s1", "*")
	if a == "" {
		t.Fatal("no token")
	}
	if zzAPI(s, a, "foo") == 200 {
		t.Fatal("served without the required scope")
	}
''')

plant("c07-scope-bits", "C07",
 "a request for more than 32 scope items, a later one of which is not allowed",
 "only the first 32 items of a scope are checked",
 [("scope.go","	for _, i := range scope {\n		if !s","	if len(scope) > 32 {\n		scope = scope[:32]\n	}\n	for _, i := range scope {\n		if !s")],
 '''
	s := zzServer()
	var l []string
	for i := 0; i < 40; i++ {
		l = append(l, "x"+string(rune('a'+i%26))+string(rune('a'+i/26)))
	}
	s.Config.AllowedScope = Scope(l)
	w := zzPost(s, "token", "a1", "s1", "grant_type", "client_credentials", "scope", strings.Join(l, " ")+" admin")
	if w.Code == 200 {
		t.Fatal("a scope outside the allowed one was granted")
	}
''')

plant("c11-long-password", "C11",
 "a password longer than 72 bytes, presented with a changed end",
 "only the first 72 bytes of a password are compared",
 [(S,"	owner, found := s.Users[rq.Username]\n	if !found || owner.Secret != rq.Password {","	owner, found := s.Users[rq.Username]\n	if !found || limit72(owner.Secret) != limit72(rq.Password) {"),(S,"func (s *Server) revokeToken(","func limit72(s string) string {\n	if len(s) > 72 {\n		return s[:72]\n	}\n	return s\n}\n\nfunc (s *Server) revokeToken(")],
 '''
	s := zzServer()
	s.Users["u1"].Secret = strings.Repeat("long", 20)
	w := zzPost(s, "token", "a1", "s1", "grant_type", "password", "username", "u1", "password", strings.Repeat("long", 20)+"x", "scope", "foo")
	if w.Code == 200 {
		t.Fatal("a wrong password was accepted")
	}
''')

plant("c18-revoke-tolerant", "C18",
 "a revocation answered with the error invalid_token",
 "Revoke reports success when the server answers with the error invalid_token",
 [("client.go","	if res.StatusCode != http.StatusOK {\n		return ParseRequestError(res, c.config.ResponseLimit)\n	}","	if res.StatusCode != http.StatusOK {\n		err := ParseRequestError(res, c.config.ResponseLimit)\n		if e, ok := err.(*Error); ok && e.Name == \"invalid_token\" {\n			return nil\n		}\n		return err\n	}")],
 '''
	tr := zzTransport(func(r *http.Request) (*http.Response, error) {
		return zzResponse(401, "application/json", io.NopCloser(strings.NewReader(`{"error":"invalid_token"}`))), nil
	})
	c := NewClientWithClient(Default("http://x.example"), &http.Client{Transport: tr})
	if c.Revoke(RevocationRequest{Token: "x", ClientID: "a", ClientSecret: "b"}) == nil {
		t.Fatal("an error is reported as success")
	}
''')

plant("c18-expiry-clamped", "C18",
 "an introspection answer with a negative expiry",
 "Introspect returns 0 for a negative expiry",
 [("introspection.go","	return &irs, nil","	if irs.ExpiresAt < 0 {\n		irs.ExpiresAt = 0\n	}\n	return &irs, nil")],
 '''
	tr := zzTransport(func(r *http.Request) (*http.Response, error) {
		return zzResponse(200, "application/json", io.NopCloser(strings.NewReader(`{"active":true,"exp":-5}`))), nil
	})
	c := NewClientWithClient(Default("http://x.example"), &http.Client{Transport: tr})
	r, err := c.Introspect(IntrospectionRequest{Token: "x", ClientID: "a", ClientSecret: "b"})
	if err != nil || r.ExpiresAt != -5 {
		t.Fatalf("%v %v", r, err)
	}
''')

plant("c20-long-answer", "C20",
 "a token answer of more than 2048 bytes",
 "JSON answers are cut at 2048 bytes",
 [("oauth2.go","	err := json.NewEncoder(w).Encode(obj)","	data, err := json.Marshal(obj)\n	if err == nil {\n		if len(data) > 2048 {\n			data = data[:2048]\n		}\n		_, err = w.Write(data)\n	}")],
 '''
	s := zzServer()
	s.Config.AllowedScope = ParseScope(strings.Repeat("x", 3000))
	w := zzPost(s, "token", "a1", "s1", "grant_type", "client_credentials", "scope", strings.Repeat("x", 3000))
	if w.Code != 200 || !json.Valid(w.Body.Bytes()) {
		t.Fatalf("%d, a malformed answer", w.Code)
	}
''')

plant("c01-client-lock", "C01",
 "two overlapping token requests of different clients that present one credential, or issue at once",
 "token requests of different clients no longer exclude each other",
 [field("	locks              sync.Map\n"),(S,"	// acquire mutex\n	s.Mutex.Lock()\n	defer s.Mutex.Unlock()\n\n	// make sure the grant type","	// acquire mutex\n	lock, _ := s.locks.LoadOrStore(req.ClientID, new(sync.Mutex))\n	lock.(*sync.Mutex).Lock()\n	defer lock.(*sync.Mutex).Unlock()\n\n	// make sure the grant type")],
 '''
	s := zzServer()
	var wg sync.WaitGroup
	for _, c := range [][2]string{{"a1", "s1"}, {"a2", "s2"}} {
		c := c
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				zzPost(s, "token", c[0], c[1], "grant_type", "client_credentials", "scope", "foo")
			}
		}()
	}
	wg.Wait()
''', "-race")
