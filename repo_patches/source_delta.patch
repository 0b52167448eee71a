From b40367b0c8b47c2e467a5554f7ae33cf3a06809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:11 +0000
Subject: [PATCH 01/10] fix: reject redirect URIs that carry a fragment

url.ParseRequestURI assumes that there is no fragment and never sets it, the
check for a fragment was therefore never effective.
---
 authorization.go | 5 +++--
 token.go         | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/authorization.go b/authorization.go
index 28e012f..f8e7850 100644
--- a/authorization.go
+++ b/authorization.go
@@ -3,6 +3,7 @@ package oauth2
 import (
 	"net/http"
 	"net/url"
+	"strings"
 )
 
 // A AuthorizationRequest is typically returned by ParseAuthorizationRequest and
@@ -55,8 +56,8 @@ func ParseAuthorizationRequest(r *http.Request) (*AuthorizationRequest, error) {
 	}
 
 	// parse redirect uri
-	redirectURI, err := url.ParseRequestURI(redirectURIString)
-	if err != nil || redirectURI.Fragment != "" {
+	_, err = url.ParseRequestURI(redirectURIString)
+	if err != nil || strings.Contains(redirectURIString, "#") {
 		return nil, InvalidRequest("invalid redirect URI")
 	}
 
diff --git a/token.go b/token.go
index f0a4db9..140ea5f 100644
--- a/token.go
+++ b/token.go
@@ -79,8 +79,8 @@ func ParseTokenRequest(r *http.Request) (*TokenRequest, error) {
 
 	// validate redirect uri if present
 	if redirectURIString != "" {
-		redirectURI, err := url.ParseRequestURI(redirectURIString)
-		if err != nil || redirectURI.Fragment != "" {
+		_, err := url.ParseRequestURI(redirectURIString)
+		if err != nil || strings.Contains(redirectURIString, "#") {
 			return nil, InvalidRequest("invalid redirect URI")
 		}
 	}
-- 
2.43.0


From 8893872097f3b6fefb3c43352637db9a3b5d5840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 02/10] fix: do not encode fragment parameters twice when
 redirecting

The already encoded parameters have been assigned as the decoded form of the
fragment, which encoded every percent sign again.
---
 oauth2.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oauth2.go b/oauth2.go
index ce4e4f3..24dbf82 100644
--- a/oauth2.go
+++ b/oauth2.go
@@ -96,6 +96,7 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 	}
 
 	// add params to fragment if requested
+	var fragment string
 	if useFragment {
 		// prepare fragment
 		f := make(url.Values)
@@ -106,7 +107,9 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 		}
 
 		// encode fragment
-		redirectURI.Fragment = f.Encode()
+		if len(f) > 0 {
+			fragment = "#" + f.Encode()
+		}
 	} else {
 		// get current query
 		q := redirectURI.Query()
@@ -121,7 +124,7 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 	}
 
 	// set location
-	w.Header().Add("Location", redirectURI.String())
+	w.Header().Add("Location", redirectURI.String()+fragment)
 
 	// prevent caching
 	w.Header().Set("Cache-Control", "no-store")
-- 
2.43.0


From 48b20a958686752f49928a2d58fd257dcd460f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 03/10] fix: report expired tokens as inactive during
 introspection

---
 server.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/server.go b/server.go
index b926c76..a9e8dd5 100644
--- a/server.go
+++ b/server.go
@@ -553,13 +553,15 @@ func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 
-		// set response
-		res.Active = true
-		res.Scope = accessToken.Scope
-		res.ClientID = accessToken.ClientID
-		res.Username = accessToken.Username
-		res.TokenType = AccessToken
-		res.ExpiresAt = accessToken.ExpiresAt.Unix()
+		// set response if not expired
+		if !accessToken.ExpiresAt.Before(time.Now()) {
+			res.Active = true
+			res.Scope = accessToken.Scope
+			res.ClientID = accessToken.ClientID
+			res.Username = accessToken.Username
+			res.TokenType = AccessToken
+			res.ExpiresAt = accessToken.ExpiresAt.Unix()
+		}
 	}
 
 	// check refresh token
@@ -570,13 +572,15 @@ func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 
-		// set response
-		res.Active = true
-		res.Scope = refreshToken.Scope
-		res.ClientID = refreshToken.ClientID
-		res.Username = refreshToken.Username
-		res.TokenType = RefreshToken
-		res.ExpiresAt = refreshToken.ExpiresAt.Unix()
+		// set response if not expired
+		if !refreshToken.ExpiresAt.Before(time.Now()) {
+			res.Active = true
+			res.Scope = refreshToken.Scope
+			res.ClientID = refreshToken.ClientID
+			res.Username = refreshToken.Username
+			res.TokenType = RefreshToken
+			res.ExpiresAt = refreshToken.ExpiresAt.Unix()
+		}
 	}
 
 	// write response
-- 
2.43.0


From 610718edd18f7123608483b9b91cab35394c52b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:14 +0000
Subject: [PATCH 04/10] fix: revoke refreshed tokens on authorization code
 replay

Tokens issued by the refresh token grant lost the relation to their
authorization code and survived its replay.
---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index a9e8dd5..0e784e4 100644
--- a/server.go
+++ b/server.go
@@ -437,7 +437,7 @@ func (s *Server) handleRefreshTokenGrant(w http.ResponseWriter, rq *TokenRequest
 	}
 
 	// issue tokens
-	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, "")
+	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, storedRefreshToken.Code)
 
 	// delete used refresh token
 	delete(s.RefreshTokens, refreshToken.SignatureString())
-- 
2.43.0


From 71b49abb371154789b12736692ca122d152d78e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 05/10] fix: keep the granted scope of replaced refresh tokens

A refresh with a narrowed scope also narrowed the replacement refresh token,
while it must keep the scope of the presented refresh token (RFC 6749, 6).
---
 server.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/server.go b/server.go
index 0e784e4..23e454e 100644
--- a/server.go
+++ b/server.go
@@ -212,7 +212,7 @@ func (s *Server) handleImplicitGrant(w http.ResponseWriter, username, password s
 	}
 
 	// issue tokens
-	r := s.issueTokens(false, rq.Scope, rq.ClientID, username, "")
+	r := s.issueTokens(false, rq.Scope, nil, rq.ClientID, username, "")
 
 	// redirect token
 	r.SetRedirect(rq.RedirectURI, rq.State)
@@ -309,7 +309,7 @@ func (s *Server) handleResourceOwnerPasswordCredentialsGrant(w http.ResponseWrit
 	}
 
 	// issue tokens
-	r := s.issueTokens(true, rq.Scope, rq.ClientID, rq.Username, "")
+	r := s.issueTokens(true, rq.Scope, rq.Scope, rq.ClientID, rq.Username, "")
 
 	// write response
 	_ = WriteTokenResponse(w, r)
@@ -329,7 +329,7 @@ func (s *Server) handleClientCredentialsGrant(w http.ResponseWriter, rq *TokenRe
 	}
 
 	// save tokens
-	r := s.issueTokens(true, rq.Scope, rq.ClientID, "", "")
+	r := s.issueTokens(true, rq.Scope, rq.Scope, rq.ClientID, "", "")
 
 	// write response
 	_ = WriteTokenResponse(w, r)
@@ -389,7 +389,7 @@ func (s *Server) handleAuthorizationCodeGrant(w http.ResponseWriter, rq *TokenRe
 	}
 
 	// issue tokens
-	r := s.issueTokens(true, storedAuthorizationCode.Scope, rq.ClientID, storedAuthorizationCode.Username, authorizationCode.SignatureString())
+	r := s.issueTokens(true, storedAuthorizationCode.Scope, storedAuthorizationCode.Scope, rq.ClientID, storedAuthorizationCode.Username, authorizationCode.SignatureString())
 
 	// mark authorization code
 	storedAuthorizationCode.Used = true
@@ -437,7 +437,7 @@ func (s *Server) handleRefreshTokenGrant(w http.ResponseWriter, rq *TokenRequest
 	}
 
 	// issue tokens
-	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, storedRefreshToken.Code)
+	r := s.issueTokens(true, rq.Scope, storedRefreshToken.Scope, rq.ClientID, storedRefreshToken.Username, storedRefreshToken.Code)
 
 	// delete used refresh token
 	delete(s.RefreshTokens, refreshToken.SignatureString())
@@ -587,7 +587,7 @@ func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
 	_ = WriteIntrospectionResponse(w, res)
 }
 
-func (s *Server) issueTokens(issueRefreshToken bool, scope Scope, clientID, username, code string) *TokenResponse {
+func (s *Server) issueTokens(issueRefreshToken bool, scope, refreshScope Scope, clientID, username, code string) *TokenResponse {
 	// generate access token
 	accessToken := s.Config.MustGenerate()
 
@@ -623,7 +623,7 @@ func (s *Server) issueTokens(issueRefreshToken bool, scope Scope, clientID, user
 			ClientID:  clientID,
 			Username:  username,
 			ExpiresAt: time.Now().Add(s.Config.RefreshTokenLifespan),
-			Scope:     scope,
+			Scope:     refreshScope,
 			Code:      code,
 		}
 	}
-- 
2.43.0


From d4d4aeed686ef311530ed3b32317c21597bdc075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 06/10] fix: escape quotes and backslashes in error parameters

Unescaped values could end the quoted string early and add or alter parameters
of the bearer challenge.
---
 error.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 5a0fb03..bcb8d50 100644
--- a/error.go
+++ b/error.go
@@ -87,6 +87,8 @@ func (e *Error) Map() map[string]string {
 	return m
 }
 
+var quotedStringEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 // Params returns a string encoded representation of the error parameters.
 func (e *Error) Params() string {
 	// prepare params
@@ -94,7 +96,7 @@ func (e *Error) Params() string {
 
 	// add all params
 	for k, v := range e.Map() {
-		params = append(params, fmt.Sprintf(`%s="%s"`, k, v))
+		params = append(params, fmt.Sprintf(`%s="%s"`, k, quotedStringEscaper.Replace(v)))
 	}
 
 	// sort params
-- 
2.43.0


From 7854dfbb536134baf95b0d43864bec00fbf520a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 07/10] fix: make the returned form values independent of each
 other

The values shared one backing array with spare capacity, adding a value to one
key overwrote the value of the next.
---
 introspection.go |  4 ++--
 revocation.go    |  4 ++--
 token.go         | 14 +++++++-------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/introspection.go b/introspection.go
index 7497713..3995ade 100644
--- a/introspection.go
+++ b/introspection.go
@@ -111,12 +111,12 @@ func IntrospectionRequestValues(r IntrospectionRequest) url.Values {
 
 	// set token if available
 	if r.Token != "" {
-		values["token"] = slice[0:1]
+		values["token"] = slice[0:1:1]
 	}
 
 	// set token type hint if available
 	if len(r.TokenTypeHint) != 0 {
-		values["token_type_hint"] = slice[1:2]
+		values["token_type_hint"] = slice[1:2:2]
 	}
 
 	return values
diff --git a/revocation.go b/revocation.go
index f321679..ddee64e 100644
--- a/revocation.go
+++ b/revocation.go
@@ -66,12 +66,12 @@ func RevocationRequestValues(r RevocationRequest) url.Values {
 
 	// set token if available
 	if r.Token != "" {
-		values["token"] = slice[0:1]
+		values["token"] = slice[0:1:1]
 	}
 
 	// set token type hint if available
 	if len(r.TokenTypeHint) != 0 {
-		values["token_type_hint"] = slice[1:2]
+		values["token_type_hint"] = slice[1:2:2]
 	}
 
 	return values
diff --git a/token.go b/token.go
index 140ea5f..96bfe4f 100644
--- a/token.go
+++ b/token.go
@@ -196,37 +196,37 @@ func TokenRequestValues(r TokenRequest) url.Values {
 
 	// set grant type if available
 	if r.GrantType != "" {
-		values["grant_type"] = slice[0:1]
+		values["grant_type"] = slice[0:1:1]
 	}
 
 	// set scope if available
 	if len(r.Scope) != 0 {
-		values["scope"] = slice[1:2]
+		values["scope"] = slice[1:2:2]
 	}
 
 	// set username if available
 	if r.Username != "" {
-		values["username"] = slice[2:3]
+		values["username"] = slice[2:3:3]
 	}
 
 	// set password if available
 	if r.Password != "" {
-		values["password"] = slice[3:4]
+		values["password"] = slice[3:4:4]
 	}
 
 	// set refresh token if available
 	if r.RefreshToken != "" {
-		values["refresh_token"] = slice[4:5]
+		values["refresh_token"] = slice[4:5:5]
 	}
 
 	// set redirect uri if available
 	if r.RedirectURI != "" {
-		values["redirect_uri"] = slice[5:6]
+		values["redirect_uri"] = slice[5:6:6]
 	}
 
 	// set code if available
 	if r.Code != "" {
-		values["code"] = slice[6:7]
+		values["code"] = slice[6:7:7]
 	}
 
 	return values
-- 
2.43.0


From 1e2c969f79a4c51da4178ad577944c6d2a87b1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:58 +0000
Subject: [PATCH 08/10] fix: read the raw fragment in the conformance suite

The fragment of a parsed URL is already decoded. Parsing it as a query
decoded it twice, so that the implicit grant test failed for scopes that
contain reserved characters.
---
 oauth2test/utils.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/oauth2test/utils.go b/oauth2test/utils.go
index ca1fe9e..cd13905 100644
--- a/oauth2test/utils.go
+++ b/oauth2test/utils.go
@@ -59,12 +59,20 @@ func jsonFieldFloat(r *httptest.ResponseRecorder, field string) float64 {
 }
 
 func fragment(r *httptest.ResponseRecorder, key string) string {
-	u, err := url.Parse(r.Header().Get("Location"))
+	location := r.Header().Get("Location")
+
+	_, err := url.Parse(location)
 	if err != nil {
 		panic(err)
 	}
 
-	f, err := url.ParseQuery(u.Fragment)
+	// use the raw fragment, as the fragment of a parsed URL is already decoded
+	raw := ""
+	if idx := strings.IndexByte(location, '#'); idx >= 0 {
+		raw = location[idx+1:]
+	}
+
+	f, err := url.ParseQuery(raw)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From aaa438bb65f083f3adedf6f884472a1f87c0692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:43 +0000
Subject: [PATCH 09/10] fix: read challenge parameters by the HTTP grammar in
 the conformance suite

A challenge whose parameters are separated by other than a comma and one
blank, contain a comma in a quoted value or are not quoted was misread, so
that the suite failed on conforming servers.
---
 oauth2test/utils.go | 54 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/oauth2test/utils.go b/oauth2test/utils.go
index cd13905..80df0ae 100644
--- a/oauth2test/utils.go
+++ b/oauth2test/utils.go
@@ -91,18 +91,56 @@ func query(r *httptest.ResponseRecorder, key string) string {
 
 func auth(r *httptest.ResponseRecorder, key string) string {
 	header := r.Header().Get("WWW-Authenticate")
-	parts := strings.SplitN(header, " ", 2)
-	parts = strings.Split(parts[1], ", ")
 
-	for _, part := range parts {
-		values := strings.SplitN(part, "=", 2)
-		if values[0] != key {
-			continue
+	// skip scheme
+	idx := strings.IndexByte(header, ' ')
+	if idx < 0 {
+		return ""
+	}
+
+	// go through all parameters
+	rest := header[idx+1:]
+	for {
+		// get name
+		rest = strings.TrimLeft(rest, ", \t")
+		idx = strings.IndexByte(rest, '=')
+		if idx < 0 {
+			return ""
+		}
+		name := strings.TrimSpace(rest[:idx])
+
+		// get value
+		var value string
+		value, rest = authValue(strings.TrimLeft(rest[idx+1:], " \t"))
+		if name == key {
+			return value
+		}
+	}
+}
+
+func authValue(str string) (string, string) {
+	// handle token
+	if !strings.HasPrefix(str, `"`) {
+		idx := strings.IndexAny(str, ", \t")
+		if idx < 0 {
+			return str, ""
+		}
+		return str[:idx], str[idx:]
+	}
+
+	// handle quoted string
+	var value []byte
+	for i := 1; i < len(str); i++ {
+		switch {
+		case str[i] == '"':
+			return string(value), str[i+1:]
+		case str[i] == '\\' && i+1 < len(str):
+			i++
 		}
-		return strings.Trim(values[1], "\",")
+		value = append(value, str[i])
 	}
 
-	return ""
+	return string(value), ""
 }
 
 func debug(rec *httptest.ResponseRecorder) string {
-- 
2.43.0


From 9deefaa5e9d0f2286be7ecdc67dd1b159ec903f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 10/10] fix: send forms as real bodies and queries in the
 conformance suite

---
 oauth2test/request.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/oauth2test/request.go b/oauth2test/request.go
index 6b74417..25f7359 100644
--- a/oauth2test/request.go
+++ b/oauth2test/request.go
@@ -5,6 +5,7 @@ import (
 	"net/http"
 	"net/http/httptest"
 	"net/url"
+	"strings"
 )
 
 // A Request is a convenience wrapper to specify test requests.
@@ -20,12 +21,35 @@ type Request struct {
 
 // Do will perform the specified request on the specified handler.
 func Do(handler http.Handler, req *Request) {
+	// prepare form
+	form := make(url.Values)
+
+	// add params
+	for k, v := range req.Form {
+		form.Set(k, v)
+	}
+
+	// the form is sent in the body, or in the query if there is none
+	path, body := req.Path, form.Encode()
+	if req.Method == "GET" && body != "" {
+		sep := "?"
+		if strings.Contains(path, "?") {
+			sep = "&"
+		}
+		path, body = path+sep+body, ""
+	}
+
 	// create request
-	r, err := http.NewRequest(req.Method, req.Path, nil)
+	r, err := http.NewRequest(req.Method, path, strings.NewReader(body))
 	if err != nil {
 		panic(err)
 	}
 
+	// set content type
+	if body != "" {
+		r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
+	}
+
 	// add headers
 	for k, v := range req.Header {
 		r.Header.Set(k, v)
@@ -38,14 +62,6 @@ func Do(handler http.Handler, req *Request) {
 		r.Header.Set("Authorization", auth)
 	}
 
-	// prepare form
-	r.PostForm = make(url.Values)
-
-	// add params
-	for k, v := range req.Form {
-		r.PostForm.Set(k, v)
-	}
-
 	// prepare recorder
 	rec := httptest.NewRecorder()
 
-- 
2.43.0

