# Most of these were tried as candidates first.
P = []
def plant(id, prop, needs, breaks, edits, demo, flags=""):
    P.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, flags=flags))

plant('c18-body-pool', 'C18',
 'two calls, the transport still sending the first body when the call has returned or a second begins',
 'request bodies come from a pool and are given back while the transport may still read them',
 [('token.go',
  '\tbody := strings.NewReader(TokenRequestValues(r).Encode())',
  '\tbuf := bodyPool.Get().(*bytes.Buffer)\n\tdefer bodyPool.Put(buf)\n\tbuf.Reset()\n\tbuf.WriteString(TokenRequestValues(r).Encode())\n\tbody := bytes.NewReader(buf.Bytes())'),
 ('token.go', '\t"strings"\n)', '\t"sync"\n)\n\nvar bodyPool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n'),
 ('token.go', 'import (\n', 'import (\n\t"bytes"\n')],
 '''
	var mu sync.Mutex
	var kept io.Reader
	tr := zzTransport(func(r *http.Request) (*http.Response, error) {
		mu.Lock()
		defer mu.Unlock()
		if kept == nil {
			// the connection breaks, the body is still being read
			kept = r.Body
			return nil, errors.New("broken")
		}
		b, _ := io.ReadAll(r.Body)
		old, _ := io.ReadAll(kept)
		if len(old) > 0 && !strings.Contains(string(old), "first") {
			t.Errorf("the first request now says %q (the second %q)", old, b)
		}
		return zzResponse(200, "application/json", io.NopCloser(strings.NewReader(`{"token_type":"bearer","access_token":"x","expires_in":1}`))), nil
	})
	c := NewClientWithClient(Default("http://a.example"), &http.Client{Transport: tr})
	for i := 0; i < 20; i++ {
		kept = nil
		_, _ = c.Authenticate(TokenRequest{GrantType: PasswordGrantType, Username: "first", Password: "first", ClientID: "a", ClientSecret: "b"})
		_, _ = c.Authenticate(TokenRequest{GrantType: PasswordGrantType, Username: "other", Password: "other", ClientID: "a", ClientSecret: "b"})
	}
''', '')

plant('c05-answer-kept', 'C05',
 'a token used at the resource, then the replay of its code, then used again',
 'tokens that once passed are remembered by their text and outlive the replay of their code',
 [('server.go', '\tMutex              sync.Mutex\n}', '\tMutex              sync.Mutex\n\tgranted            map[string]*ServerCredential\n}'),
 ('server.go',
  '\t// get token\n\taccessToken, found := s.AccessTokens[token.SignatureString()]\n\tif !found {',
  '\t// get token\n'
  '\taccessToken, found := s.granted[tk]\n'
  '\tif !found {\n'
  '\t\taccessToken, found = s.AccessTokens[token.SignatureString()]\n'
  '\t\tif found {\n'
  '\t\t\tif s.granted == nil {\n'
  '\t\t\t\ts.granted = map[string]*ServerCredential{}\n'
  '\t\t\t}\n'
  '\t\t\ts.granted[tk] = accessToken\n'
  '\t\t}\n'
  '\t}\n'
  '\tif !found {'),
 ('server.go',
  '\t// check access token\n'
  '\tif accessToken, found := s.AccessTokens[token.SignatureString()]; found {\n'
  '\t\t// check owner\n'
  '\t\tif accessToken.ClientID != req.ClientID {\n'
  '\t\t\t_ = WriteError(w, InvalidClient("wrong client"))\n'
  '\t\t\treturn\n'
  '\t\t}\n'
  '\n'
  '\t\t// revoke',
  '\t// check access token\n'
  '\tif accessToken, found := s.AccessTokens[token.SignatureString()]; found {\n'
  '\t\t// check owner\n'
  '\t\tif accessToken.ClientID != req.ClientID {\n'
  '\t\t\t_ = WriteError(w, InvalidClient("wrong client"))\n'
  '\t\t\treturn\n'
  '\t\t}\n'
  '\t\tdelete(s.granted, token.String())\n'
  '\n'
  '\t\t// revoke')],
 '''
	s := zzServer()
	code := zzCode(t, s, "a1", "foo")
	a := zzStr(zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code), "access_token")
	if zzAPI(s, a, "foo") != 200 {
		t.Fatal("not served")
	}
	zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
	if zzAPI(s, a, "foo") == 200 {
		t.Fatal("the token survived the replay")
	}
''', '')

plant('c08-single-session', 'C08',
 'two grants to one client and user with the same scope of at least two items',
 'a new grant with the same scope ends the earlier access token before its time',
 [('server.go',
  '\t// save access token\n',
  '\t// replace earlier session\n'
  '\tfor k, c := range s.AccessTokens {\n'
  '\t\tif username != "" && c.Username == username && c.ClientID == clientID && c.Scope.String() == scope.String() && len(scope) > 1 {\n'
  '\t\t\tdelete(s.AccessTokens, k)\n'
  '\t\t}\n'
  '\t}\n'
  '\n'
  '\t// save access token\n')],
 '''
	s := zzServer()
	a, _ := zzPassword(t, s, "a1", "s1", "foo bar")
	zzPassword(t, s, "a1", "s1", "foo bar")
	if c := zzAPI(s, a, "foo"); c != 200 {
		t.Fatalf("a living token is refused: %d", c)
	}
''', '')

plant('c08-five-sessions', 'C08',
 'six grants to one client and user',
 'the oldest refresh token is dropped when a user has more than five',
 [('server.go',
  '\t// save refresh token if available\n',
  '\t// keep five sessions\n'
  '\tvar first string\n'
  '\tn := 0\n'
  '\tfor k, c := range s.RefreshTokens {\n'
  '\t\tif c.Username == username && c.ClientID == clientID {\n'
  '\t\t\tn++\n'
  '\t\t\tif first == "" || c.ExpiresAt.Before(s.RefreshTokens[first].ExpiresAt) {\n'
  '\t\t\t\tfirst = k\n'
  '\t\t\t}\n'
  '\t\t}\n'
  '\t}\n'
  '\tif n >= 5 {\n'
  '\t\tdelete(s.RefreshTokens, first)\n'
  '\t}\n'
  '\t// save refresh token if available\n')],
 '''
	s := zzServer()
	_, r := zzPassword(t, s, "a1", "s1", "foo")
	for i := 0; i < 6; i++ {
		time.Sleep(time.Millisecond)
		zzPassword(t, s, "a1", "s1", "foo")
	}
	if w := zzRefresh(s, "a1", "s1", r, ""); w.Code != 200 {
		t.Fatalf("a living refresh token is refused: %d %s", w.Code, w.Body)
	}
''', '')

plant('c16-code-again', 'C16',
 'two authorizations of the same client, user and scope before the first code is redeemed',
 'an unredeemed code is handed out again instead of a fresh one',
 [('server.go', '\tMutex              sync.Mutex\n}', '\tMutex              sync.Mutex\n\tcodes              map[string]string\n}'),
 ('server.go',
  '\t// generate new authorization code\n\tauthorizationCode := s.Config.MustGenerate()\n',
  '\t// generate new authorization code\n'
  '\tauthorizationCode := s.Config.MustGenerate()\n'
  '\tkey := rq.ClientID + "/" + username + "/" + rq.Scope.String()\n'
  '\tif s.codes == nil {\n'
  '\t\ts.codes = map[string]string{}\n'
  '\t}\n'
  '\tif old, err := ParseHS256Token(s.Config.Secret, s.codes[key]); err == nil && s.AuthorizationCodes[old.SignatureString()] != nil && !s.AuthorizationCodes[old.SignatureString()].Used {\n'
  '\t\tauthorizationCode = old\n'
  '\t}\n'
  '\ts.codes[key] = authorizationCode.String()\n')],
 '''
	s := zzServer()
	if zzCode(t, s, "a1", "foo") == zzCode(t, s, "a1", "foo") {
		t.Fatal("the same code twice")
	}
''', '')

plant('c10-exp-up', 'C10',
 'an expiry that is no whole second',
 'the reported expiry is rounded up to a moment at which the token is no longer honoured',
 [('server.go', 'res.ExpiresAt = accessToken.ExpiresAt.Unix()', 'res.ExpiresAt = accessToken.ExpiresAt.Add(time.Second - 1).Unix()')],
 '''
	s := zzServer()
	s.Config.AccessTokenLifespan = 1500 * time.Millisecond
	for i := 0; i < 5; i++ {
		a, _ := zzPassword(t, s, "a1", "s1", "foo")
		var exp time.Time
		for _, c := range s.AccessTokens {
			exp = c.ExpiresAt
		}
		n, _ := zzJSON(zzPost(s, "introspect", "a1", "s1", "token", a))["exp"].(float64)
		if int64(n) != exp.Unix() {
			t.Fatalf("reported %v, really %v", int64(n), exp.Unix())
		}
		for k := range s.AccessTokens {
			delete(s.AccessTokens, k)
		}
		time.Sleep(13 * time.Millisecond)
	}
''', '')

plant('c10-type-by-hint', 'C10',
 'a refresh token introspected with the hint access_token',
 'the reported type repeats the hint',
 [('server.go', '\t\t\tres.TokenType = RefreshToken\n', '\t\t\tres.TokenType = RefreshToken\n\t\t\tif req.TokenTypeHint != "" {\n\t\t\t\tres.TokenType = req.TokenTypeHint\n\t\t\t}\n')],
 '''
	s := zzServer()
	_, r := zzPassword(t, s, "a1", "s1", "foo")
	if v := zzStr(zzPost(s, "introspect", "a1", "s1", "token", r, "token_type_hint", "access_token"), "token_type"); v != RefreshToken {
		t.Fatalf("type %q", v)
	}
''', '')

plant('c06-expired-cascade', 'C06',
 'an expired access token used at the resource while its refresh token lives',
 'presenting an expired access token takes the refresh token of its grant with it',
 [('server.go',
  '\tif accessToken.ExpiresAt.Before(time.Now()) {',
  '\tif accessToken.ExpiresAt.Before(time.Now()) {\n'
  '\t\tfor k, c := range s.RefreshTokens {\n'
  '\t\t\tif c.Code != "" && c.Code == accessToken.Code {\n'
  '\t\t\t\tdelete(s.RefreshTokens, k)\n'
  '\t\t\t}\n'
  '\t\t}')],
 '''
	s := zzServer()
	s.Config.AccessTokenLifespan = time.Millisecond
	code := zzCode(t, s, "a1", "foo")
	w := zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
	time.Sleep(5 * time.Millisecond)
	zzAPI(s, zzStr(w, "access_token"), "foo")
	if x := zzRefresh(s, "a1", "s1", zzStr(w, "refresh_token"), ""); x.Code != 200 {
		t.Fatalf("the refresh token is gone: %d %s", x.Code, x.Body)
	}
''', '')

plant('c04-public-redirect', 'C04',
 'a public client that redeems without redirect_uri',
 'public clients may leave out the redirect URI',
 [('server.go',
  '\tif storedAuthorizationCode.RedirectURI != rq.RedirectURI {',
  '\tif storedAuthorizationCode.RedirectURI != rq.RedirectURI && (rq.RedirectURI != "" || s.Clients[rq.ClientID].Confidential) {')],
 '''
	s := zzServer()
	code := zzCode(t, s, "p1", "foo")
	w := zzPost(s, "token", "p1", "", "grant_type", "authorization_code", "code", code)
	if w.Code == 200 {
		t.Fatal("redeemed without the redirect URI")
	}
''', '')

plant('c07-code-scope', 'C07',
 'a redemption that asks for another scope',
 'the token request may choose a scope the authorization did not grant',
 [('server.go',
  '\t// issue tokens\n\tr := s.issueTokens(true, storedAuthorizationCode.Scope,',
  '\t// allow other scope\n'
  '\tscope := storedAuthorizationCode.Scope\n'
  '\tif !rq.Scope.Empty() && s.Config.AllowedScope.Includes(rq.Scope) {\n'
  '\t\tscope = rq.Scope\n'
  '\t}\n'
  '\n'
  '\t// issue tokens\n'
  '\tr := s.issueTokens(true, scope,')],
 '''
	s := zzServer()
	code := zzCode(t, s, "a1", "foo")
	w := zzPost(s, "token", "a1", "s1", "grant_type", "authorization_code", "code", code, "scope", "bar", "redirect_uri", url.QueryEscape(s.Clients["a1"].RedirectURI))
	if w.Code == 200 && zzAPI(s, zzStr(w, "access_token"), "bar") == 200 {
		t.Fatal("scope escalated")
	}
''', '')

plant('c20-cache-401', 'C20',
 'a refusal with status 401',
 'answers to failed authentication may be cached',
 [('oauth2.go',
  '\tw.Header().Set("Cache-Control", "no-store")\n\tw.Header().Set("Pragma", "no-cache")\n\n\t// set status',
  '\tif status != http.StatusUnauthorized {\n\t\tw.Header().Set("Cache-Control", "no-store")\n\t\tw.Header().Set("Pragma", "no-cache")\n\t}\n\n\t// set status')],
 '''
	s := zzServer()
	w := zzPost(s, "token", "a1", "bad", "grant_type", "client_credentials")
	if !strings.Contains(w.Header().Get("Cache-Control"), "no-store") {
		t.Fatalf("%d may be cached", w.Code)
	}
''', '')

plant('c19-one-at-a-time', 'C19',
 'two calls at once, the first against a server that does not answer',
 'calls wait for each other, so one stalled answer stops all',
 [('client.go', 'type Client struct {\n', 'type Client struct {\n\tmutex sync.Mutex\n'),
 ('client.go', '\t"net/http"\n', '\t"net/http"\n\t"sync"\n'),
 ('client.go', '\t// build request\n\treq, err := BuildTokenRequest(', '\tc.mutex.Lock()\n\tdefer c.mutex.Unlock()\n\n\t// build request\n\treq, err := BuildTokenRequest('),
 ('client.go', '\t// build request\n\treq, err := BuildIntrospectionRequest(', '\tc.mutex.Lock()\n\tdefer c.mutex.Unlock()\n\n\t// build request\n\treq, err := BuildIntrospectionRequest(')],
 '''
	block := make(chan struct{})
	first := make(chan struct{}, 1)
	first <- struct{}{}
	started := make(chan struct{})
	tr := zzTransport(func(r *http.Request) (*http.Response, error) {
		select {
		case <-first:
			close(started)
			<-block
		default:
		}
		return zzResponse(200, "application/json", io.NopCloser(strings.NewReader(`{"token_type":"bearer","access_token":"x","expires_in":1}`))), nil
	})
	c := NewClientWithClient(Default("http://a.example"), &http.Client{Transport: tr})
	go func() { _, _ = c.Authenticate(TokenRequest{GrantType: ClientCredentialsGrantType}) }()
	<-started
	defer close(block)
	zzWithin(t, 5*time.Second, func() { _, _ = c.Authenticate(TokenRequest{GrantType: ClientCredentialsGrantType}) })
''', '')

plant('c18-content-length', 'C18',
 'a server whose body is longer than the announced length, through a transport that does not cut',
 'a complete looking prefix of the announced length is accepted',
 [('token.go',
  '\t// read response\n\tdata, err := ioutil.ReadAll(io.LimitReader(res.Body, limit))',
  '\t// read response\n\tif res.ContentLength > 0 && res.ContentLength < limit {\n\t\tlimit = res.ContentLength\n\t}\n\tdata, err := ioutil.ReadAll(io.LimitReader(res.Body, limit))')],
 '''
	body := `{"token_type":"bearer","access_token":"x","expires_in":1}`
	tr := zzTransport(func(r *http.Request) (*http.Response, error) {
		res := zzResponse(200, "application/json", io.NopCloser(strings.NewReader(body+"trailing")))
		res.ContentLength = int64(len(body))
		return res, nil
	})
	c := NewClientWithClient(Default("http://a.example"), &http.Client{Transport: tr})
	r, err := c.Authenticate(TokenRequest{GrantType: ClientCredentialsGrantType})
	if err == nil {
		t.Fatalf("accepted: %v", r)
	}
''', '')

plant('c05-same-moment', 'C05',
 'a replay while another grant of the same user expires at the same instant',
 'the replay also ends an unrelated refresh token of that user',
 [('server.go',
  '\t\t\tif token.Code == authorizationCode.SignatureString() {\n\t\t\t\tdelete(s.RefreshTokens, key)',
  '\t\t\tif token.Code == authorizationCode.SignatureString() || (token.Code != "" && token.Username == storedAuthorizationCode.Username && token.ExpiresAt.Equal(storedAuthorizationCode.ExpiresAt)) '
  '{\n'
  '\t\t\t\tdelete(s.RefreshTokens, key)')],
 '''
	s := zzServer()
	code := zzCode(t, s, "a1", "foo")
	zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
	other := zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, zzCode(t, s, "a1", "foo"))
	// both expire at one instant
	var at time.Time
	for _, c := range s.AuthorizationCodes {
		if at.IsZero() {
			at = c.ExpiresAt
		}
		c.ExpiresAt = at
	}
	for _, c := range s.RefreshTokens {
		c.ExpiresAt = at
	}
	zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
	if w := zzRefresh(s, "a1", "s1", zzStr(other, "refresh_token"), ""); w.Code != 200 {
		t.Fatalf("an unrelated refresh token died: %d %s", w.Code, w.Body)
	}
''', '')

plant('c08-early-clock', 'C08',
 'a request whose body arrives after the credential expired',
 'expiry is checked against the time at which the request began to arrive',
 [('token.go', '\tRedirectURI  string\n\tCode         string\n}', '\tRedirectURI  string\n\tCode         string\n\n\tnow time.Time\n}'),
 ('token.go', '\t"strings"\n)', '\t"strings"\n\t"time"\n)'),
 ('server.go', '\t// parse token request\n\treq, err := ParseTokenRequest(r)\n', '\tnow := time.Now()\n\n\t// parse token request\n\treq, err := ParseTokenRequest(r)\n'),
 ('server.go', '\t// make sure the grant type is known\n', '\treq.now = now\n\n\t// make sure the grant type is known\n'),
 ('server.go', '\tif storedAuthorizationCode.ExpiresAt.Before(time.Now()) {', '\tif storedAuthorizationCode.ExpiresAt.Before(rq.now) {'),
 ('server.go', '\tif storedRefreshToken.ExpiresAt.Before(time.Now()) {', '\tif storedRefreshToken.ExpiresAt.Before(rq.now) {')],
 '''
	s := zzServer()
	s.Config.RefreshTokenLifespan = 100 * time.Millisecond
	_, r := zzPassword(t, s, "a1", "s1", "foo")
	pr, pw := io.Pipe()
	req := httptest.NewRequest("POST", "/oauth2/token", pr)
	req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	req.SetBasicAuth("a1", "s1")
	go func() {
		f := zzForm("grant_type", "refresh_token", "refresh_token", r).Encode()
		_, _ = io.WriteString(pw, f[:10])
		time.Sleep(300 * time.Millisecond)
		_, _ = io.WriteString(pw, f[10:])
		pw.Close()
	}()
	w := httptest.NewRecorder()
	s.ServeHTTP(w, req)
	if w.Code == 200 {
		t.Fatal("an expired refresh token was accepted")
	}
''', '')

plant('c13-lock-order', 'C13',
 'an authorization and a redemption at once',
 'two mutexes are taken in different order',
 [('server.go', '\tMutex              sync.Mutex\n}', '\tMutex              sync.Mutex\n\tcodes              sync.Mutex\n}'),
 ('server.go',
  '\t// acquire mutex\n\ts.Mutex.Lock()\n\tdefer s.Mutex.Unlock()\n\n\t// make sure the response type is known',
  '\t// acquire mutexes\n\ts.codes.Lock()\n\tdefer s.codes.Unlock()\n\ts.Mutex.Lock()\n\tdefer s.Mutex.Unlock()\n\n\t// make sure the response type is known'),
 ('server.go', '\t// parse authorization code\n\tauthorizationCode, err', '\t// acquire codes\n\ts.codes.Lock()\n\tdefer s.codes.Unlock()\n\n\t// parse authorization code\n\tauthorizationCode, err')],
 '''
	s := zzServer()
	var wg sync.WaitGroup
	zzWithin(t, 60*time.Second, func() {
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 3000; i++ {
					if g%2 == 0 {
						zzPost(s, "authorize", "", "", "response_type", "code", "client_id", "a2", "redirect_uri", url.QueryEscape(s.Clients["a2"].RedirectURI), "scope", "foo", "username", "u1", "password", "pw1")
					} else {
						zzExchange(s, "a2", "s2", s.Clients["a2"].RedirectURI, "x.y")
					}
				}
			}(g)
		}
		wg.Wait()
	})
''', '')

plant('c05-forget-codes', 'C05',
 'a replay a minute after the code expired',
 'a timer forgets codes after their lifespan, used ones too',
 [('server.go',
  '\t// write response\n\t_ = WriteCodeResponse(w, r)',
  '\t// forget later\n'
  '\tkey := authorizationCode.SignatureString()\n'
  '\ttime.AfterFunc(s.Config.AuthorizationCodeLifespan+time.Minute, func() {\n'
  '\t\ts.Mutex.Lock()\n'
  '\t\tdefer s.Mutex.Unlock()\n'
  '\t\tdelete(s.AuthorizationCodes, key)\n'
  '\t})\n'
  '\n'
  '\t// write response\n'
  '\t_ = WriteCodeResponse(w, r)')],
 '''
	s := zzServer()
	s.Config.AuthorizationCodeLifespan = time.Second - time.Minute + 500*time.Millisecond
	code := zzCode(t, s, "a1", "foo")
	for _, c := range s.AuthorizationCodes {
		c.ExpiresAt = time.Now().Add(time.Minute)
	}
	a := zzStr(zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code), "access_token")
	if zzAPI(s, a, "foo") != 200 {
		t.Fatal("not served")
	}
	time.Sleep(2500 * time.Millisecond)
	zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, code)
	if zzAPI(s, a, "foo") == 200 {
		t.Fatal("the token survived the replay")
	}
''', '')

plant('c07-inplace', 'C07',
 'a refresh that narrows, then a look at the access token issued before',
 'narrowing writes into the scope that earlier tokens share',
 [('server.go',
  '\t// issue tokens\n\tr := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken',
  '\t// keep the granted items\n'
  '\tgranted := storedRefreshToken.Scope[:0]\n'
  '\tfor _, item := range storedRefreshToken.Scope {\n'
  '\t\tif rq.Scope.Contains(item) {\n'
  '\t\t\tgranted = append(granted, item)\n'
  '\t\t}\n'
  '\t}\n'
  '\tif len(granted) == len(rq.Scope) {\n'
  '\t\trq.Scope = granted\n'
  '\t}\n'
  '\n'
  '\t// issue tokens\n'
  '\tr := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken')],
 '''
	s := zzServer()
	a, r := zzPassword(t, s, "a1", "s1", "foo bar baz")
	zzRefresh(s, "a1", "s1", r, "baz")
	if c := zzAPI(s, a, "foo"); c != 200 {
		t.Fatalf("the earlier token lost its scope: %d", c)
	}
''', '')

plant('c20-shared-error', 'C20',
 'an authorization refused for its scope, then a token request refused for its scope',
 'errors without description are one shared value that keeps the redirect of an earlier request',
 [('error.go', 'func InvalidScope(', 'var invalidScope = &Error{Status: http.StatusBadRequest, Name: "invalid_scope"}\n\n// xInvalidScope returns.\nfunc xInvalidScope('),
 ('error.go', 'func xInvalidScope(description string) *Error {\n', 'func InvalidScope(description string) *Error {\n\tif description == "" {\n\t\treturn invalidScope\n\t}\n')],
 '''
	s := zzServer()
	zzPost(s, "authorize", "", "", "response_type", "code", "client_id", "a1", "redirect_uri", url.QueryEscape(s.Clients["a1"].RedirectURI), "scope", "nope", "username", "u1", "password", "pw1")
	w := zzPost(s, "token", "a1", "s1", "grant_type", "password", "username", "u1", "password", "pw1", "scope", "nope")
	if w.Code != 400 || zzStr(w, "error") != "invalid_scope" {
		t.Fatalf("%d %v %s", w.Code, w.Header(), w.Body)
	}
''', '')

plant('c11-user-fold', 'C11',
 'two users whose names differ in case',
 'a name in another spelling authenticates as another user',
 [('server.go', '\towner, found := s.Users[rq.Username]\n', '\towner, found := s.Users[strings.ToLower(rq.Username)]\n\tif !found {\n\t\towner, found = s.Users[rq.Username]\n\t}\n')],
 '''
	s := zzServer()
	s.Users["U1"] = &ServerEntity{Secret: "pwU"}
	w := zzPost(s, "token", "a1", "s1", "grant_type", "password", "username", "U1", "password", "pw1")
	if w.Code == 200 {
		t.Fatal("another user's password was accepted")
	}
''', '')

plant('c11-id-trim', 'C11',
 'a client whose identifier begins or ends with a space',
 'identifiers are trimmed, so such a client is turned away',
 [('token.go', '\t// check client id\n\tif clientID == "" {', '\tclientID = strings.TrimSpace(clientID)\n\n\t// check client id\n\tif clientID == "" {')],
 '''
	s := zzServer()
	s.Clients["a1 "] = &ServerEntity{Secret: "x", Confidential: true}
	if w := zzPost(s, "token", "a1 ", "x", "grant_type", "client_credentials"); w.Code != 200 {
		t.Fatalf("%d %s", w.Code, w.Body)
	}
''', '')

plant('c13-hundred', 'C13',
 'more than a hundred token requests within one second',
 'requests beyond the hundredth of a second are refused',
 [('server.go', '\tMutex              sync.Mutex\n}', '\tMutex              sync.Mutex\n\tsecond             int64\n\tserved             int\n}'),
 ('server.go',
  '\t// make sure the grant type is known\n',
  '\t// limit rate\n'
  '\tif now := time.Now().Unix(); now != s.second {\n'
  '\t\ts.second, s.served = now, 0\n'
  '\t}\n'
  '\ts.served++\n'
  '\tif s.served > 100 {\n'
  '\t\t_ = WriteError(w, TemporarilyUnavailable(""))\n'
  '\t\treturn\n'
  '\t}\n'
  '\n'
  '\t// make sure the grant type is known\n')],
 '''
	s := zzServer()
	for i := 0; i < 400; i++ {
		if w := zzPost(s, "token", "a1", "s1", "grant_type", "client_credentials"); w.Code != 200 {
			t.Fatalf("request %d: %d %s", i, w.Code, w.Body)
		}
	}
''', '')

plant('c13-sixteen', 'C13',
 'sixteen requests stalled in their bodies',
 'stalled requests hold slots that all others need',
 [('server.go', '\tMutex              sync.Mutex\n}', '\tMutex              sync.Mutex\n\tslots              chan struct{}\n}'),
 ('server.go', '\t\tAuthorizationCodes: map[string]*ServerCredential{},\n\t}\n', '\t\tAuthorizationCodes: map[string]*ServerCredential{},\n\t\tslots:              make(chan struct{}, 16),\n\t}\n'),
 ('server.go', '\t// get path\n', '\ts.slots <- struct{}{}\n\tdefer func() { <-s.slots }()\n\n\t// get path\n')],
 '''
	s := zzServer()
	for i := 0; i < 16; i++ {
		pr, _ := io.Pipe()
		r := httptest.NewRequest("POST", "/oauth2/token", pr)
		r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		go s.ServeHTTP(httptest.NewRecorder(), r)
	}
	time.Sleep(300 * time.Millisecond)
	zzWithin(t, 5*time.Second, func() { zzPost(s, "token", "a1", "s1", "grant_type", "client_credentials") })
''', '')

plant('c13-path-panic', 'C13',
 'an empty request path',
 'an empty path panics',
 [('server.go', '\t// get path\n\tpath := r.URL.Path\n', '\t// get path\n\tpath := r.URL.Path\n\tif path[0] != \'/\' {\n\t\tpath = "/" + path\n\t}\n')],
 '''
	s := zzServer()
	r := httptest.NewRequest("POST", "/x", nil)
	r.URL.Path = ""
	if zzTry(func() { s.ServeHTTP(httptest.NewRecorder(), r) }) {
		t.Fatal("panic")
	}
''', '')

plant('c08-zero-forever', 'C08',
 'an access token lifespan of zero',
 'tokens that live for no time live forever',
 [('server.go', '\tif accessToken.ExpiresAt.Before(time.Now()) {\n\t\t_ = WriteB', '\tif s.Config.AccessTokenLifespan > 0 && accessToken.ExpiresAt.Before(time.Now()) {\n\t\t_ = WriteB')],
 '''
	s := zzServer()
	s.Config.AccessTokenLifespan = 0
	a, _ := zzPassword(t, s, "a1", "s1", "foo")
	time.Sleep(20 * time.Millisecond)
	if zzAPI(s, a, "foo") == 200 {
		t.Fatal("an expired token is honoured")
	}
''', '')

plant('c06-reuse-detection', 'C06',
 'a rotated refresh token presented again',
 'the successor dies when the old refresh token is presented again',
 [('server.go', '\tMutex              sync.Mutex\n}', '\tMutex              sync.Mutex\n\trotated            map[string]string\n}'),
 ('server.go',
  '\tif !found {\n\t\t_ = WriteError(w, InvalidGrant("unknown refresh token"))',
  '\tif !found {\n\t\tif next, ok := s.rotated[refreshToken.SignatureString()]; ok {\n\t\t\tdelete(s.RefreshTokens, next)\n\t\t}\n\t\t_ = WriteError(w, InvalidGrant("unknown refresh token"))'),
 ('server.go',
  '\t// delete used refresh token\n',
  '\tif s.rotated == nil {\n'
  '\t\ts.rotated = map[string]string{}\n'
  '\t}\n'
  '\tif next, err := ParseHS256Token(s.Config.Secret, r.RefreshToken); err == nil {\n'
  '\t\ts.rotated[refreshToken.SignatureString()] = next.SignatureString()\n'
  '\t}\n'
  '\n'
  '\t// delete used refresh token\n')],
 '''
	s := zzServer()
	_, r := zzPassword(t, s, "a1", "s1", "foo")
	next := zzStr(zzRefresh(s, "a1", "s1", r, ""), "refresh_token")
	zzRefresh(s, "a1", "s1", r, "")
	if w := zzRefresh(s, "a1", "s1", next, ""); w.Code != 200 {
		t.Fatalf("the successor died: %d %s", w.Code, w.Body)
	}
''', '')

plant('c08-one-code', 'C08',
 'two authorizations of one client and user before the first code is redeemed',
 'a new code ends a pending one of the same client and user',
 [('server.go',
  '\t// save authorization code\n',
  '\t// drop pending codes\n'
  '\tfor key, c := range s.AuthorizationCodes {\n'
  '\t\tif c.ClientID == rq.ClientID && c.Username == username && !c.Used {\n'
  '\t\t\tdelete(s.AuthorizationCodes, key)\n'
  '\t\t}\n'
  '\t}\n'
  '\n'
  '\t// save authorization code\n')],
 '''
	s := zzServer()
	c1 := zzCode(t, s, "a1", "foo")
	zzCode(t, s, "a1", "foo")
	if w := zzExchange(s, "a1", "s1", s.Clients["a1"].RedirectURI, c1); w.Code != 200 {
		t.Fatalf("a living code is refused: %d %s", w.Code, w.Body)
	}
''', '')

plant('c18-breaker', 'C18',
 'ten failed calls, then a server that answers',
 'after ten transport failures the client never sends again',
 [('client.go', '\tclient *http.Client\n}', '\tclient *http.Client\n\tfails  int32\n}'),
 ('client.go', 'import (\n', 'import (\n\t"sync/atomic"\n\t"errors"\n'),
 ('client.go',
  '\tres, err := c.client.Do(req)\n\tif err != nil {\n\t\treturn nil, err\n\t}',
  '\tif atomic.LoadInt32(&c.fails) > 9 {\n'
  '\t\treturn nil, errors.New("circuit open")\n'
  '\t}\n'
  '\tres, err := c.client.Do(req)\n'
  '\tif err != nil {\n'
  '\t\tatomic.AddInt32(&c.fails, 1)\n'
  '\t\treturn nil, err\n'
  '\t}\n'
  '\tatomic.StoreInt32(&c.fails, 0)',
  2)],
 '''
	fail := true
	tr := zzTransport(func(r *http.Request) (*http.Response, error) {
		if fail {
			return nil, errors.New("down")
		}
		return zzResponse(200, "application/json", io.NopCloser(strings.NewReader(`{"token_type":"bearer","access_token":"x","expires_in":1}`))), nil
	})
	c := NewClientWithClient(Default("http://a.example"), &http.Client{Transport: tr})
	for i := 0; i < 12; i++ {
		_, _ = c.Authenticate(TokenRequest{GrantType: ClientCredentialsGrantType})
	}
	fail = false
	if _, err := c.Authenticate(TokenRequest{GrantType: ClientCredentialsGrantType}); err != nil {
		t.Fatal(err)
	}
''', '')

plant('c19-last-limit', 'C19',
 'two clients with different limits',
 'all clients use the limit of the one created last',
 [('client.go', '// NewClient will create', 'var limit int64\n\n// NewClient will create'),
 ('client.go', '\treturn &Client{\n', '\tlimit = config.ResponseLimit\n\treturn &Client{\n'),
 ('client.go', 'c.config.ResponseLimit)', 'limit)', 5)],
 '''
	b := &zzBody{r: strings.NewReader(strings.Repeat(" ", 1<<20))}
	tr := zzTransport(func(r *http.Request) (*http.Response, error) { return zzResponse(200, "application/json", b), nil })
	small := Default("http://a.example")
	small.ResponseLimit = 100
	c := NewClientWithClient(small, &http.Client{Transport: tr})
	_ = NewClientWithClient(Default("http://b.example"), &http.Client{Transport: tr})
	_, _ = c.Authenticate(TokenRequest{GrantType: ClientCredentialsGrantType})
	if b.read > 1000 {
		t.Fatalf("read %d bytes", b.read)
	}
''', '')

plant('c18-plain-http', 'C18',
 'a base URI with https',
 'the token request, with its secrets, goes over plain http',
 [('client.go', '\tendpoint := c.config.BaseURI + c.config.TokenEndpoint', '\tendpoint := strings.Replace(c.config.BaseURI, "https:", "http:", 1) + c.config.TokenEndpoint'),
 ('client.go', 'import (\n', 'import (\n\t"strings"\n')],
 '''
	tr := zzTransport(func(r *http.Request) (*http.Response, error) {
		if r.URL.Scheme != "https" {
			t.Error("sent to " + r.URL.String())
		}
		return nil, errors.New("down")
	})
	c := NewClientWithClient(Default("https://a.example"), &http.Client{Transport: tr})
	_, _ = c.Authenticate(TokenRequest{GrantType: ClientCredentialsGrantType})
''', '')

plant('c18-kept-answer', 'C18',
 'two client credentials calls with equal arguments',
 'the second call is answered with the first answer, without a request',
 [('client.go', '\tclient *http.Client\n}', '\tclient *http.Client\n\tmu     sync.Mutex\n\tcache  map[string]*TokenResponse\n}'),
 ('client.go', 'import (\n', 'import (\n\t"sync"\n'),
 ('client.go',
  '\t// prepare endpoint\n\tendpoint := c.config.BaseURI + c.config.TokenEndpoint\n',
  '\tkey := ""\n'
  '\tif trq.GrantType == ClientCredentialsGrantType {\n'
  '\t\tkey = trq.ClientID + ":" + trq.ClientSecret + ":" + trq.Scope.String()\n'
  '\t\tc.mu.Lock()\n'
  '\t\tr := c.cache[key]\n'
  '\t\tc.mu.Unlock()\n'
  '\t\tif r != nil {\n'
  '\t\t\treturn r, nil\n'
  '\t\t}\n'
  '\t}\n'
  '\t// prepare endpoint\n'
  '\tendpoint := c.config.BaseURI + c.config.TokenEndpoint\n'),
 ('client.go',
  '\ttrs, err := ParseTokenResponse(res, c.config.ResponseLimit)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\n\treturn trs, nil',
  '\tr, err := ParseTokenResponse(res, c.config.ResponseLimit)\n'
  '\tif err == nil && key != "" {\n'
  '\t\tc.mu.Lock()\n'
  '\t\tif c.cache == nil {\n'
  '\t\t\tc.cache = map[string]*TokenResponse{}\n'
  '\t\t}\n'
  '\t\tc.cache[key] = r\n'
  '\t\tc.mu.Unlock()\n'
  '\t}\n'
  '\treturn r, err')],
 '''
	n := 0
	tr := zzTransport(func(r *http.Request) (*http.Response, error) {
		n++
		return zzResponse(200, "application/json", io.NopCloser(strings.NewReader(`{"token_type":"bearer","access_token":"x`+string(rune('0'+n))+`","expires_in":1}`))), nil
	})
	c := NewClientWithClient(Default("http://a.example"), &http.Client{Transport: tr})
	a, _ := c.Authenticate(TokenRequest{GrantType: ClientCredentialsGrantType, ClientID: "a"})
	b, _ := c.Authenticate(TokenRequest{GrantType: ClientCredentialsGrantType, ClientID: "a"})
	if a.AccessToken == b.AccessToken {
		t.Fatal("the same answer twice")
	}
''', '')

plant('c11-verified-cache', 'C11',
 'a client that authenticated before its secret was changed',
 'secrets that were right once stay right',
 [('server.go', '\tMutex              sync.Mutex\n}', '\tMutex              sync.Mutex\n\tverified           map[string]bool\n}'),
 ('server.go',
  '\tif client.Confidential && client.Secret != req.ClientSecret {\n\t\t_ = WriteError(w, InvalidClient("unknown client"))\n\t\treturn\n\t}\n\n\t// handle grant type',
  '\tif s.verified == nil {\n'
  '\t\ts.verified = map[string]bool{}\n'
  '\t}\n'
  '\tkey := req.ClientID + "\\x00" + req.ClientSecret\n'
  '\tif client.Confidential && !s.verified[key] {\n'
  '\t\tif client.Secret != req.ClientSecret {\n'
  '\t\t\t_ = WriteError(w, InvalidClient("unknown client"))\n'
  '\t\t\treturn\n'
  '\t\t}\n'
  '\t\ts.verified[key] = true\n'
  '\t}\n'
  '\n'
  '\t// handle grant type')],
 '''
	s := zzServer()
	zzPost(s, "token", "a1", "s1", "grant_type", "client_credentials")
	s.Clients["a1"].Secret = "changed"
	if w := zzPost(s, "token", "a1", "s1", "grant_type", "client_credentials"); w.Code == 200 {
		t.Fatal("the old secret is accepted")
	}
''', '')

plant('c04-current-uri', 'C04',
 'the registered URI changes between authorization and redemption',
 'the redemption is compared with the registered URI, not with that of the authorization',
 [('server.go', '\tif storedAuthorizationCode.RedirectURI != rq.RedirectURI {', '\tif s.Clients[rq.ClientID].RedirectURI != rq.RedirectURI {')],
 '''
	s := zzServer()
	code := zzCode(t, s, "a1", "foo")
	s.Clients["a1"].RedirectURI = "https://moved.example/cb"
	if w := zzExchange(s, "a1", "s1", "https://moved.example/cb", code); w.Code == 200 {
		t.Fatal("redeemed with another URI")
	}
''', '')

plant('c13-abandoned-lock', 'C13',
 'a request cancelled by its client while it waits for the mutex',
 'the abandoned wait takes the mutex later and never gives it back',
 [('server.go',
  '\t// acquire mutex\n\ts.Mutex.Lock()\n\tdefer s.Mutex.Unlock()\n\n\t// make sure the grant type is known',
  '\t// acquire mutex unless the client goes away\n'
  '\tlocked := make(chan struct{})\n'
  '\tgo func() {\n'
  '\t\ts.Mutex.Lock()\n'
  '\t\tclose(locked)\n'
  '\t}()\n'
  '\tselect {\n'
  '\tcase <-locked:\n'
  '\tcase <-r.Context().Done():\n'
  '\t\treturn\n'
  '\t}\n'
  '\tdefer s.Mutex.Unlock()\n'
  '\n'
  '\t// make sure the grant type is known')],
 '''
	s := zzServer()
	s.Mutex.Lock()
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() {
		defer close(done)
		s.ServeHTTP(httptest.NewRecorder(), zzReq("/oauth2/token", "a1", "s1", "grant_type", "client_credentials").WithContext(ctx))
	}()
	time.Sleep(100 * time.Millisecond)
	cancel()
	time.Sleep(100 * time.Millisecond)
	s.Mutex.Unlock()
	<-done
	time.Sleep(100 * time.Millisecond)
	zzWithin(t, 5*time.Second, func() { zzPost(s, "token", "a1", "s1", "grant_type", "client_credentials") })
''', '')

plant('c13-abandoned-slots', 'C13',
 'sixty-four requests cancelled by their clients while they are served',
 'the slot of a cancelled request is not given back',
 [('server.go', '\tMutex              sync.Mutex\n}', '\tMutex              sync.Mutex\n\tslots              chan struct{}\n}'),
 ('server.go', '\t\tAuthorizationCodes: map[string]*ServerCredential{},\n\t}\n', '\t\tAuthorizationCodes: map[string]*ServerCredential{},\n\t\tslots:              make(chan struct{}, 64),\n\t}\n'),
 ('server.go',
  '\t// get path\n',
  '\tselect {\n\tcase s.slots <- struct{}{}:\n\tcase <-r.Context().Done():\n\t}\n\tdefer func() {\n\t\tif r.Context().Err() == nil {\n\t\t\t<-s.slots\n\t\t}\n\t}()\n\n\t// get path\n')],
 '''
	s := zzServer()
	for i := 0; i < 64; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		pr, pw := io.Pipe()
		r := httptest.NewRequest("POST", "/oauth2/token", pr).WithContext(ctx)
		r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		go func() {
			_, _ = io.WriteString(pw, "grant")
			cancel()
			pw.CloseWithError(errors.New("gone"))
		}()
		s.ServeHTTP(httptest.NewRecorder(), r)
	}
	zzWithin(t, 5*time.Second, func() { zzPost(s, "token", "a1", "s1", "grant_type", "client_credentials") })
''', '')
