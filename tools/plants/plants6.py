# Tried as candidates first.
P = []
def plant(id, prop, needs, breaks, edits, demo, flags=""):
    P.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, flags=flags))

plant('c20-html-error', 'C20',
 'a malformed token request of a browser',
 'errors are plain text for clients that accept HTML',
 [('server.go', '\t// parse token request\n\treq, err := ParseTokenRequest(r)\n\tif err != nil {\n', '\t// parse token request\n\treq, err := ParseTokenRequest(r)\n\tif err != nil && strings.HasPrefix(r.Header.Get("Accept"), "text/html") {\n\t\thttp.Error(w, err.Error(), http.StatusBadRequest)\n\t\treturn\n\t}\n\tif err != nil {\n')],
 '''
	s := zzServer()
	r := zzReq("/oauth2/token", "a1", "s1")
	r.Header.Set("Accept", "text/html,*/*;q=0.8")
	w := httptest.NewRecorder()
	s.ServeHTTP(w, r)
	if zzStr(w, "error") != "invalid_request" {
		t.Fatalf("%d %q", w.Code, w.Body)
	}
''', '')

plant('c14-unannounced', 'C14',
 'a request body whose length is not announced (chunked)',
 'bodies without announced length are read as empty',
 [('token.go', '\t// parse query params and body', '\t// limit body\n\tif r.Body != nil {\n\t\tr.Body = ioutil.NopCloser(io.LimitReader(r.Body, r.ContentLength))\n\t}\n\n\t// parse query params and body')],
 '''
	s := zzServer()
	r := zzReq("/oauth2/token", "a1", "s1", "grant_type", "client_credentials")
	r.ContentLength = -1
	r.TransferEncoding = []string{"chunked"}
	w := httptest.NewRecorder()
	s.ServeHTTP(w, r)
	if w.Code != 200 {
		t.Fatalf("%d %q", w.Code, w.Body)
	}
''', '')

plant('c14-idempotency', 'C14',
 'two password requests that carry the same Idempotency-Key header',
 'the second request gets the answer of the first, whoever sent it',
 [('server.go', '\tMutex              sync.Mutex\n}', '\tMutex              sync.Mutex\n\tanswers map[string]*TokenResponse\n}'),
  ('server.go', '\t// issue tokens\n\tr := s.issueTokens(true, rq.Scope, rq.ClientID, rq.Username, "")\n', '\t// repeat answer\n\tif r := s.answers[rq.idem]; r != nil && rq.idem != "" {\n\t\t_ = WriteTokenResponse(w, r)\n\t\treturn\n\t}\n\n\t// issue tokens\n\tr := s.issueTokens(true, rq.Scope, rq.ClientID, rq.Username, "")\n\tif s.answers == nil {\n\t\ts.answers = map[string]*TokenResponse{}\n\t}\n\ts.answers[rq.idem] = r\n'),
  ('token.go', '\tCode         string\n}', '\tCode         string\n\tidem         string\n}'),
  ('token.go', '\t\tCode:         code,\n\t}, nil', '\t\tCode:         code,\n\t\tidem:         r.Header.Get("Idempotency-Key"),\n\t}, nil')],
 '''
	s := zzServer()
	get := func() string {
		r := zzReq("/oauth2/token", "a1", "s1", "grant_type", "password", "username", "u1", "password", "pw1")
		r.Header.Set("Idempotency-Key", "1")
		w := httptest.NewRecorder()
		s.ServeHTTP(w, r)
		return zzStr(w, "access_token")
	}
	if a, b := get(), get(); a == "" || a == b {
		t.Fatalf("%q %q", a, b)
	}
''', '')

plant('c11-trusted-proxy', 'C11',
 'a token request with X-Forwarded-For: 127.0.0.1',
 'requests that claim to come from the local host need no client secret',
 [('server.go', '\t// authenticate client\n\tif client.Confidential && client.Secret != req.ClientSecret {\n\t\t_ = WriteError(w, InvalidClient("unknown client"))\n\t\treturn\n\t}\n\n\t// handle grant', '\t// authenticate client\n\tif client.Confidential && client.Secret != req.ClientSecret && r.Header.Get("X-Forwarded-For") != "127.0.0.1" {\n\t\t_ = WriteError(w, InvalidClient("unknown client"))\n\t\treturn\n\t}\n\n\t// handle grant')],
 '''
	s := zzServer()
	r := zzReq("/oauth2/token", "a1", "wrong", "grant_type", "client_credentials")
	r.Header.Set("X-Forwarded-For", "127.0.0.1")
	w := httptest.NewRecorder()
	s.ServeHTTP(w, r)
	if w.Code == 200 {
		t.Fatal("accepted with a wrong secret")
	}
''', '')

plant('c17-override', 'C17',
 'an authorization request with X-HTTP-Method-Override: GET',
 'such a request is answered with a notice instead of a redirect',
 [('server.go', '\t// show notice for GET requests\n\tif r.Method == "GET" {', '\t// show notice for GET requests\n\tif r.Method == "GET" || r.Header.Get("X-HTTP-Method-Override") == "GET" {')],
 '''
	s := zzServer()
	get := func(h string) int {
		r := zzReq("/oauth2/authorize", "", "", "response_type", "code", "client_id", "a1", "redirect_uri", url.QueryEscape(s.Clients["a1"].RedirectURI), "username", "u1", "password", "pw1")
		if h != "" {
			r.Header.Set("X-HTTP-Method-Override", h)
		}
		w := httptest.NewRecorder()
		s.ServeHTTP(w, r)
		return w.Code
	}
	if a, b := get(""), get("GET"); a != 303 || b != 303 {
		t.Fatalf("%d %d", a, b)
	}
''', '')

plant('c20-challenge-quote', 'C20',
 'an access token with a quote in it',
 'the presented token is echoed into the challenge without escaping',
 [('server.go', 'WriteBearerError(w, InvalidToken("malformed token"))', 'WriteBearerError(w, InvalidToken("malformed token "+tk))')],
 '''
	s := zzServer()
	r := httptest.NewRequest("GET", "/api", nil)
	r.Header.Set("Authorization", `Bearer x", error="y`)
	w := httptest.NewRecorder()
	s.Authorize(w, r, nil)
	if h := w.Header().Get("WWW-Authenticate"); strings.Count(h, "error=") != 1 {
		t.Fatal(h)
	}
''', '')

plant('c09-ring', 'C09',
 'more than 32 further revocations after the revocation of a token',
 'only the last 32 revocations are remembered',
 [('server.go', '\tMutex              sync.Mutex\n}', '\tMutex              sync.Mutex\n\trevoked [32]string\n\trevokedN int\n}'),
  ('server.go', '\t// remove token\n\tdelete(list, signature)', '\t// remember revocation\n\ts.revoked[s.revokedN%len(s.revoked)] = signature\n\ts.revokedN++'),
  ('server.go', 'func (s *Server) revokeToken(', 'func (s *Server) isRevoked(signature string) bool {\n\tfor _, r := range s.revoked {\n\t\tif r == signature {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false\n}\n\nfunc (s *Server) revokeToken('),
  ('server.go', '\taccessToken, found := s.AccessTokens[token.SignatureString()]\n\tif !found {', '\taccessToken, found := s.AccessTokens[token.SignatureString()]\n\tif !found || s.isRevoked(token.SignatureString()) {'),
  ('server.go', '\tstoredRefreshToken, found := s.RefreshTokens[refreshToken.SignatureString()]\n\tif !found {', '\tstoredRefreshToken, found := s.RefreshTokens[refreshToken.SignatureString()]\n\tif !found || s.isRevoked(refreshToken.SignatureString()) {'),
  ('server.go', '\t\tif !accessToken.ExpiresAt.Before(time.Now()) {', '\t\tif !accessToken.ExpiresAt.Before(time.Now()) && !s.isRevoked(token.SignatureString()) {'),
  ('server.go', '\t\tif !refreshToken.ExpiresAt.Before(time.Now()) {', '\t\tif !refreshToken.ExpiresAt.Before(time.Now()) && !s.isRevoked(token.SignatureString()) {')],
 '''
	s := zzServer()
	a, _ := zzPassword(t, s, "a1", "s1", "")
	zzPost(s, "revoke", "a1", "s1", "token", a)
	for i := 0; i < 40; i++ {
		b, _ := zzPassword(t, s, "a1", "s1", "")
		zzPost(s, "revoke", "a1", "s1", "token", b)
	}
	if zzActive(s, "a1", "s1", a) || zzAPI(s, a, "") == 200 {
		t.Fatal("revoked token honoured")
	}
''', '')

plant('c05-derived-cap', 'C05',
 'a chain of more than 32 refreshes with old access tokens still alive, then a replay of the code',
 'only the last 32 access tokens of a code are remembered',
 [('server.go', '\tUsed        bool\n', '\tUsed        bool\n\tderived     [32]string\n\tderivedN    int\n'),
  ('server.go', '\t\tfor key, token := range s.AccessTokens {\n\t\t\tif token.Code == authorizationCode.SignatureString() {\n\t\t\t\tdelete(s.AccessTokens, key)\n\t\t\t}\n\t\t}', '\t\tfor _, key := range storedAuthorizationCode.derived {\n\t\t\tdelete(s.AccessTokens, key)\n\t\t}'),
  ('server.go', '\t// save access token\n', '\tif c, ok := s.AuthorizationCodes[code]; ok {\n\t\tc.derived[c.derivedN%len(c.derived)] = accessToken.SignatureString()\n\t\tc.derivedN++\n\t}\n\n\t// save access token\n')],
 '''
	s := zzServer()
	code := zzCode(t, s, "a1", "")
	w := zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
	a, r := zzStr(w, "access_token"), zzStr(w, "refresh_token")
	if a == "" {
		t.Fatal(w.Body)
	}
	for i := 0; i < 40; i++ {
		r = zzStr(zzRefresh(s, "a1", "s1", r, ""), "refresh_token")
	}
	zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
	if zzAPI(s, a, "") == 200 {
		t.Fatal("token of a replayed code honoured")
	}
''', '')

plant('c07-include-cache', 'C07',
 'two requirements whose items joined give the same text',
 'results are cached under a key that does not separate the items',
 [('scope.go', 'func (s Scope) Includes(scope Scope) bool {', 'var includeMutex sync.Mutex\nvar includeCache = map[string]bool{}\n\nfunc (s Scope) Includes(scope Scope) bool {\n\t// get from cache\n\tincludeMutex.Lock()\n\tdefer includeMutex.Unlock()\n\tkey := s.String() + "/" + strings.Join(scope, "")\n\tres, ok := includeCache[key]\n\tif !ok {\n\t\tres = s.includes(scope)\n\t\tincludeCache[key] = res\n\t}\n\treturn res\n}\n\nfunc (s Scope) includes(scope Scope) bool {'),
  ('scope.go', '\t"strings"\n)', '\t"strings"\n\t"sync"\n)')],
 '''
	g := Scope{"ab"}
	if !g.Includes(Scope{"ab"}) || g.Includes(Scope{"a", "b"}) {
		t.Fatal("confused")
	}
''', '')

plant('c15-hash-cache', 'C15',
 'two servers with different secrets of equal length in one process',
 'the keyed hash is cached by the length of the secret',
 [('hs256.go', '\t// create hash\n\thash := hmac.New(sha256.New, secret)', '\t// get hash\n\thashMutex.Lock()\n\tdefer hashMutex.Unlock()\n\thash := hashes[len(secret)]\n\tif hash == nil {\n\t\thash = hmac.New(sha256.New, secret)\n\t\thashes[len(secret)] = hash\n\t}\n\thash.Reset()'),
  ('hs256.go', '\t"io"\n\t"strings"\n)', '\t"hash"\n\t"io"\n\t"strings"\n\t"sync"\n)\n\nvar hashMutex sync.Mutex\nvar hashes = map[int]hash.Hash{}\n')],
 '''
	a := MustGenerateHS256Token([]byte("secret-1"), 16)
	if _, err := ParseHS256Token([]byte("secret-2"), a.String()); err == nil {
		t.Fatal("foreign token accepted")
	}
''', '')

plant('c12-latched', 'C12',
 'a failure of the random source that is not an EOF, then any issuance',
 'once the random source has failed it is never tried again',
 [('hs256.go', '\t_, err := io.ReadFull(randSource, key)\n\tif err != nil {', '\tif failed {\n\t\treturn nil, errors.New("random source failed")\n\t}\n\t_, err := io.ReadFull(randSource, key)\n\tif err != nil {\n\t\tfailed = err != io.EOF\n'),
  ('hs256.go', 'var b64 =', 'var failed bool\nvar b64 =')],
 '''
	restore := zzFailAfter(0)
	failed := zzTry(func() { MustGenerateHS256Token([]byte("x"), 16) })
	restore()
	if !failed {
		t.Fatal("no panic")
	}
	if zzTry(func() { MustGenerateHS256Token([]byte("x"), 16) }) {
		t.Fatal("still failing")
	}
''', '')

plant('c18-no-secret', 'C18',
 'an introspection call for a client without secret',
 'no client authentication is sent when the secret is empty',
 [('introspection.go', '\tif r.ClientID != "" || r.ClientSecret != "" {', '\tif r.ClientID != "" && r.ClientSecret != "" {')],
 '''
	var h string
	tr := zzTransport(func(r *http.Request) (*http.Response, error) {
		h = r.Header.Get("Authorization")
		return zzResponse(200, "application/json", io.NopCloser(strings.NewReader(`{"active":false}`))), nil
	})
	c := NewClientWithClient(Default("http://x"), &http.Client{Transport: tr})
	c.Introspect(IntrospectionRequest{Token: "t", ClientID: "pub"})
	if h == "" {
		t.Fatal("not authenticated")
	}
''', '')

plant('c14-undelivered', 'C14',
 'a refresh whose answer cannot be written',
 'a refresh token stays usable if its answer could not be delivered',
 [('server.go', '\t// delete used refresh token\n\tdelete(s.RefreshTokens, refreshToken.SignatureString())\n\n\t// write response\n\t_ = WriteTokenResponse(w, r)', '\t// write response\n\tif WriteTokenResponse(w, r) == nil {\n\t\t// delete used refresh token\n\t\tdelete(s.RefreshTokens, refreshToken.SignatureString())\n\t}')],
 '''
	s := zzServer()
	_, rt := zzPassword(t, s, "a1", "s1", "")
	zzTry(func() {
		s.ServeHTTP(zzBroken{httptest.NewRecorder()}, zzReq("/oauth2/token", "a1", "s1", "grant_type", "refresh_token", "refresh_token", rt))
	})
	if w := zzRefresh(s, "a1", "s1", rt, ""); w.Code == 200 {
		t.Fatal("refresh token used twice")
	}
}

type zzBroken struct{ *httptest.ResponseRecorder }

func (zzBroken) Write(p []byte) (int, error) {
	return 0, errors.New("gone")
''', '')
