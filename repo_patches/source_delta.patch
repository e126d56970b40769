From c19085cbf2d891b0a585f881870391e712485ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:44 +0000
Subject: [PATCH 01/41] fix: redeem an authorization code at most once

Reading and deleting the session were two unrelated steps, so concurrent
token requests could all obtain tokens for one code. Deleting is now atomic in
the in-memory store and a request that loses is refused. Sessions are stored
and returned as copies.
---
 .../token/grant_authorization_code.go         |  7 ++++++-
 .../inmemory/authorization_code_session.go    | 21 ++++++++++++++++---
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index 7502547..113df7b 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -120,7 +120,12 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 	// Delete session
 	err = s.authorizationCodeSessions.Delete(ctx, req.Issuer, grant.Code)
 	if err != nil {
-		res.Error = rfcerrors.ServerError().Build()
+		if err != storage.ErrNotFound {
+			res.Error = rfcerrors.ServerError().Build()
+		} else {
+			// Consumed by a concurrent request
+			res.Error = rfcerrors.InvalidGrant().Build()
+		}
 		return res, fmt.Errorf("unable to remove authorization session from code '%s': %w", grant.Code, err)
 	}
 
diff --git a/server/storage/inmemory/authorization_code_session.go b/server/storage/inmemory/authorization_code_session.go
index e0822e8..a730286 100644
--- a/server/storage/inmemory/authorization_code_session.go
+++ b/server/storage/inmemory/authorization_code_session.go
@@ -20,16 +20,19 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
 	"golang.org/x/crypto/blake2b"
+	"google.golang.org/protobuf/proto"
 
 	sessionv1 "zntr.io/solid/api/oidc/session/v1"
 	"zntr.io/solid/server/storage"
 )
 
 type sessionStorage struct {
+	mu      sync.Mutex
 	backend *cache.Cache
 }
 
@@ -46,15 +49,27 @@ func AuthorizationCodeSessions() storage.AuthorizationCodeSession {
 // -----------------------------------------------------------------------------
 
 func (s *sessionStorage) Register(ctx context.Context, issuer, code string, req *sessionv1.AuthorizationCodeSession) (uint64, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// Insert in cache
-	s.backend.Set(s.deriveKey(issuer, code), req, cache.DefaultExpiration)
+	s.backend.Set(s.deriveKey(issuer, code), proto.Clone(req), cache.DefaultExpiration)
 
 	// No error
 	return uint64(60), nil
 }
 
 func (s *sessionStorage) Delete(ctx context.Context, issuer, code string) error {
-	s.backend.Delete(s.deriveKey(issuer, code))
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	// Only one of several concurrent deletions can succeed
+	key := s.deriveKey(issuer, code)
+	if _, found := s.backend.Get(key); !found {
+		return storage.ErrNotFound
+	}
+
+	s.backend.Delete(key)
 	// No error
 	return nil
 }
@@ -63,7 +78,7 @@ func (s *sessionStorage) Get(ctx context.Context, issuer, code string) (*session
 	// Retrieve from cache
 	if x, found := s.backend.Get(s.deriveKey(issuer, code)); found {
 		req := x.(*sessionv1.AuthorizationCodeSession)
-		return req, nil
+		return proto.Clone(req).(*sessionv1.AuthorizationCodeSession), nil
 	}
 
 	return nil, storage.ErrNotFound
-- 
2.43.0


From d5b9c865e20299a2102e8be676f1fa2ec67b8784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:51 +0000
Subject: [PATCH 02/41] fix: start at most one authorization from a pushed
 request

---
 .../storage/inmemory/authorization_request.go | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/server/storage/inmemory/authorization_request.go b/server/storage/inmemory/authorization_request.go
index 6c24209..7a4aa53 100644
--- a/server/storage/inmemory/authorization_request.go
+++ b/server/storage/inmemory/authorization_request.go
@@ -20,16 +20,19 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
 	"golang.org/x/crypto/blake2b"
+	"google.golang.org/protobuf/proto"
 
 	flowv1 "zntr.io/solid/api/oidc/flow/v1"
 	"zntr.io/solid/server/storage"
 )
 
 type authorizationRequestStorage struct {
+	mu      sync.Mutex
 	backend *cache.Cache
 }
 
@@ -46,15 +49,27 @@ func AuthorizationRequests() storage.AuthorizationRequest {
 // -----------------------------------------------------------------------------
 
 func (s *authorizationRequestStorage) Register(ctx context.Context, issuer, requestURI string, req *flowv1.AuthorizationRequest) (uint64, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// Insert in cache
-	s.backend.Set(s.deriveKey(issuer, requestURI), req, cache.DefaultExpiration)
+	s.backend.Set(s.deriveKey(issuer, requestURI), proto.Clone(req), cache.DefaultExpiration)
 
 	// No error
 	return 60, nil
 }
 
 func (s *authorizationRequestStorage) Delete(ctx context.Context, issuer, requestURI string) error {
-	s.backend.Delete(s.deriveKey(issuer, requestURI))
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	// Only one of several concurrent deletions can succeed
+	key := s.deriveKey(issuer, requestURI)
+	if _, found := s.backend.Get(key); !found {
+		return storage.ErrNotFound
+	}
+
+	s.backend.Delete(key)
 	// No error
 	return nil
 }
@@ -63,7 +78,7 @@ func (s *authorizationRequestStorage) Get(ctx context.Context, issuer, requestUR
 	// Retrieve from cache
 	if x, found := s.backend.Get(s.deriveKey(issuer, requestURI)); found {
 		req := x.(*flowv1.AuthorizationRequest)
-		return req, nil
+		return proto.Clone(req).(*flowv1.AuthorizationRequest), nil
 	}
 
 	return nil, storage.ErrNotFound
-- 
2.43.0


From cdf46da862cc25ebc569dfaa32b8d1cffd522b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:12 +0000
Subject: [PATCH 03/41] fix: only redeem an authorization code for the client
 it was issued to

---
 server/services/token/grant_authorization_code.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index 113df7b..a557160 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -112,11 +112,17 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 	}
 
 	// Check if not nil
-	if ar.Request == nil {
+	if ar.GetRequest() == nil {
 		res.Error = rfcerrors.InvalidGrant().Build()
 		return res, fmt.Errorf("retrieve authorization request is invalid '%s': %w", grant.Code, err)
 	}
 
+	// Check code ownership
+	if ar.Request.ClientId != req.Client.GetClientId() {
+		res.Error = rfcerrors.InvalidGrant().Build()
+		return res, fmt.Errorf("invalid authorization request: the code '%s' has been issued to another client", grant.Code)
+	}
+
 	// Delete session
 	err = s.authorizationCodeSessions.Delete(ctx, req.Issuer, grant.Code)
 	if err != nil {
-- 
2.43.0


From 8f50bfa1c5ab78ca6aa8af4d85f7e5dd332f04b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:05 +0000
Subject: [PATCH 04/41] fix: only start a pushed authorization request for its
 owner

---
 server/services/authorization/service.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index 0270f37..5f68315 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -117,6 +117,12 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.AuthorizeRequest) (
 			return res, fmt.Errorf("unable to retrieve request by uri: %w", err)
 		}
 
+		// Check pushed request ownership
+		if ar == nil || (req.Client != nil && req.Client.ClientId != ar.ClientId) || (req.Request.ClientId != "" && req.Request.ClientId != ar.ClientId) {
+			res.Error = rfcerrors.InvalidRequest().Build()
+			return res, fmt.Errorf("request_uri '%s' has been issued to another client", *req.Request.RequestUri)
+		}
+
 		// Override request
 		req.Request = ar
 	}
-- 
2.43.0


From 307c453a556cc77cd5b03c753aa4336c6a1e7337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:25 +0000
Subject: [PATCH 05/41] fix: generate request_uri values accepted by the
 validator

---
 sdk/generator/request_uri.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdk/generator/request_uri.go b/sdk/generator/request_uri.go
index c20ec95..6ee6d17 100644
--- a/sdk/generator/request_uri.go
+++ b/sdk/generator/request_uri.go
@@ -29,9 +29,11 @@ import (
 const (
 	// DefaultRequestURILen defines default request_uri length.
 	DefaultRequestURILen = 32
+	// requestURIPrefix defines the request_uri namespace.
+	requestURIPrefix = "urn:solid:"
 )
 
-var requestURIMatcher = regexp.MustCompile(`urn:solid:[A-Za-z0-9]{32}`)
+var requestURIMatcher = regexp.MustCompile(`^urn:solid:[A-Za-z0-9]{32}$`)
 
 // DefaultRequestURI returns the default request uri generator.
 func DefaultRequestURI() RequestURI {
@@ -44,7 +46,7 @@ type requestUriGenerator struct{}
 
 func (c *requestUriGenerator) Generate(_ context.Context, _ string) (string, error) {
 	code := uniuri.NewLen(DefaultRequestURILen)
-	return code, nil
+	return requestURIPrefix + code, nil
 }
 
 func (c *requestUriGenerator) Validate(_ context.Context, issuer, in string) error {
-- 
2.43.0


From f28be5a1575c13890d4c99a905e4c0c00c3bf296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:45 +0000
Subject: [PATCH 06/41] fix: compare redirect_uri values exactly and refuse a
 nil client

---
 server/services/authorization/service.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index 5f68315..d146161 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -342,6 +342,11 @@ func (s *service) validateClientCapabilities(ctx context.Context, req *flowv1.Au
 		return rfcerrors.InvalidRequest().State(req.State).Build(), fmt.Errorf("unable to retrieve client details: %w", err)
 	}
 
+	// Check client
+	if client == nil {
+		return rfcerrors.ServerError().State(req.State).Build(), fmt.Errorf("retrieved nil client for '%s'", req.ClientId)
+	}
+
 	// Validate client capabilities
 	if !types.StringArray(client.GrantTypes).Contains(oidc.GrantTypeAuthorizationCode) {
 		return rfcerrors.UnsupportedGrantType().State(req.State).Build(), fmt.Errorf("client doesn't support 'authorization_code' as grant type")
@@ -353,7 +358,7 @@ func (s *service) validateClientCapabilities(ctx context.Context, req *flowv1.Au
 	}
 
 	// Validate client response_types
-	if !types.StringArray(client.RedirectUris).Contains(req.RedirectUri) {
+	if !hasRedirectURI(client.RedirectUris, req.RedirectUri) {
 		return rfcerrors.InvalidRequest().State(req.State).Build(), fmt.Errorf("client doesn't support `%s` as redirect_uri type", req.RedirectUri)
 	}
 
@@ -367,3 +372,15 @@ func (s *service) validateClientCapabilities(ctx context.Context, req *flowv1.Au
 	// No error
 	return nil, nil
 }
+
+// hasRedirectURI compares uris using simple string comparison.
+// https://www.rfc-editor.org/rfc/rfc9700#section-4.1.3
+func hasRedirectURI(uris []string, uri string) bool {
+	for _, u := range uris {
+		if u == uri {
+			return true
+		}
+	}
+
+	return false
+}
-- 
2.43.0


From 11e72949ff9e954a466e4f031bf41147f65877ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:33 +0000
Subject: [PATCH 07/41] fix: remove every occurrence of an item from a string
 array

---
 sdk/types/string_array.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/sdk/types/string_array.go b/sdk/types/string_array.go
index fa12e66..4f6e393 100644
--- a/sdk/types/string_array.go
+++ b/sdk/types/string_array.go
@@ -45,17 +45,18 @@ func (s *StringArray) AddIfNotContains(item string) {
 
 // Remove item from collection
 func (s *StringArray) Remove(item string) {
-	idx := -1
-	for i, v := range *s {
-		if strings.EqualFold(item, v) {
-			idx = i
-			break
-		}
-	}
-	if idx < 0 {
+	if !s.Contains(item) {
 		return
 	}
-	*s = append((*s)[:idx], (*s)[idx+1:]...)
+
+	// Don't alter the array shared with the caller
+	kept := make(StringArray, 0, len(*s))
+	for _, v := range *s {
+		if !strings.EqualFold(item, v) {
+			kept = append(kept, v)
+		}
+	}
+	*s = kept
 }
 
 // HasOneOf returns true when one of provided items is found in array.
-- 
2.43.0


From 18019639610a8fa8055e83113fab66cdf6ca731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:51 +0000
Subject: [PATCH 08/41] fix: give device codes a pending status and an
 expiration

---
 server/services/device/service.go             |  1 +
 .../storage/inmemory/device_code_session.go   | 33 +++++++++++++++----
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/server/services/device/service.go b/server/services/device/service.go
index 51f2bff..a896eaa 100644
--- a/server/services/device/service.go
+++ b/server/services/device/service.go
@@ -113,6 +113,7 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.DeviceAuthorization
 		Scope:      req.Scope,
 		Audience:   req.Audience,
 		DeviceCode: deviceCode,
+		Status:     sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING,
 	}
 
 	// Store device code request
diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index 3f975f3..27f827c 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -20,16 +20,25 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
 	"golang.org/x/crypto/blake2b"
+	"google.golang.org/protobuf/proto"
 
 	sessionv1 "zntr.io/solid/api/oidc/session/v1"
 	"zntr.io/solid/server/storage"
 )
 
+const (
+	deviceCodeSessionExpiration = 2 * time.Minute
+)
+
+var timeFunc = time.Now
+
 type deviceCodeSessionStorage struct {
+	mu              sync.Mutex
 	userCodeIndex   *cache.Cache
 	deviceCodeIndex *cache.Cache
 }
@@ -37,8 +46,8 @@ type deviceCodeSessionStorage struct {
 // DeviceCodeSessions returns a device authorization session manager.
 func DeviceCodeSessions() storage.DeviceCodeSession {
 	// Initialize in-memory caches
-	userCodeCache := cache.New(2*time.Minute, 10*time.Minute)
-	deviceCodeCache := cache.New(2*time.Minute, 10*time.Minute)
+	userCodeCache := cache.New(deviceCodeSessionExpiration, 10*time.Minute)
+	deviceCodeCache := cache.New(deviceCodeSessionExpiration, 10*time.Minute)
 
 	return &deviceCodeSessionStorage{
 		userCodeIndex:   userCodeCache,
@@ -49,15 +58,25 @@ func DeviceCodeSessions() storage.DeviceCodeSession {
 // -----------------------------------------------------------------------------
 
 func (s *deviceCodeSessionStorage) Register(ctx context.Context, issuer, userCode string, req *sessionv1.DeviceCodeSession) (uint64, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	// The session expires with its storage entries
+	session := proto.Clone(req).(*sessionv1.DeviceCodeSession)
+	session.ExpiresAt = uint64(timeFunc().Add(deviceCodeSessionExpiration).Unix())
+
 	// Insert in cache
-	s.userCodeIndex.Set(s.deriveUserCode(req.Issuer, userCode), req, cache.DefaultExpiration)
-	s.deviceCodeIndex.Set(s.deriveDeviceCode(req.Issuer, req.DeviceCode), req, cache.DefaultExpiration)
+	s.userCodeIndex.Set(s.deriveUserCode(issuer, userCode), session, cache.DefaultExpiration)
+	s.deviceCodeIndex.Set(s.deriveDeviceCode(issuer, session.DeviceCode), session, cache.DefaultExpiration)
 
 	// No error
-	return uint64(120), nil
+	return uint64(deviceCodeSessionExpiration / time.Second), nil
 }
 
 func (s *deviceCodeSessionStorage) Delete(ctx context.Context, issuer, code string) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	s.userCodeIndex.Delete(s.deriveUserCode(issuer, code))
 	// No error
 	return nil
@@ -67,7 +86,7 @@ func (s *deviceCodeSessionStorage) GetByDeviceCode(ctx context.Context, issuer,
 	// Retrieve from cache
 	if x, found := s.deviceCodeIndex.Get(s.deriveDeviceCode(issuer, deviceCode)); found {
 		req := x.(*sessionv1.DeviceCodeSession)
-		return req, nil
+		return proto.Clone(req).(*sessionv1.DeviceCodeSession), nil
 	}
 
 	return nil, storage.ErrNotFound
@@ -77,7 +96,7 @@ func (s *deviceCodeSessionStorage) GetByUserCode(ctx context.Context, issuer, us
 	// Retrieve from cache
 	if x, found := s.userCodeIndex.Get(s.deriveUserCode(issuer, userCode)); found {
 		req := x.(*sessionv1.DeviceCodeSession)
-		return req, nil
+		return proto.Clone(req).(*sessionv1.DeviceCodeSession), nil
 	}
 
 	return nil, storage.ErrNotFound
-- 
2.43.0


From a4b30010314998a74ec5b96da0cff5a3e8a624d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:38 +0000
Subject: [PATCH 09/41] fix: approve a device authorization for exactly one
 user

---
 server/services/device/service.go             | 12 ++++++++--
 .../storage/inmemory/device_code_session.go   | 22 +++++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/server/services/device/service.go b/server/services/device/service.go
index a896eaa..fbc9e86 100644
--- a/server/services/device/service.go
+++ b/server/services/device/service.go
@@ -22,6 +22,8 @@ import (
 	"fmt"
 	"time"
 
+	"google.golang.org/protobuf/proto"
+
 	flowv1 "zntr.io/solid/api/oidc/flow/v1"
 	sessionv1 "zntr.io/solid/api/oidc/session/v1"
 	"zntr.io/solid/oidc"
@@ -202,13 +204,19 @@ func (s *service) Validate(ctx context.Context, req *flowv1.DeviceCodeValidation
 		return res, fmt.Errorf("user_code '%s' is already authorized", req.UserCode)
 	}
 
-	// Update session
+	// Update a copy, the stored session must only change when the validation is stored
+	session = proto.Clone(session).(*sessionv1.DeviceCodeSession)
 	session.Subject = types.StringRef(req.Subject)
 	session.Status = sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED
 
 	// Update ephemeral storage
 	if err := s.deviceCodeSessions.Validate(ctx, req.Issuer, req.UserCode, session); err != nil {
-		res.Error = rfcerrors.ServerError().Build()
+		if err != storage.ErrNotFound {
+			res.Error = rfcerrors.ServerError().Build()
+		} else {
+			// Authorized by a concurrent request
+			res.Error = rfcerrors.InvalidRequest().Build()
+		}
 		return res, fmt.Errorf("user_code '%s' could not be authorized: %v", req.UserCode, err)
 	}
 
diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index 27f827c..ee1c949 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -103,9 +103,27 @@ func (s *deviceCodeSessionStorage) GetByUserCode(ctx context.Context, issuer, us
 }
 
 func (s *deviceCodeSessionStorage) Validate(ctx context.Context, issuer, userCode string, req *sessionv1.DeviceCodeSession) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	// Only one of several concurrent validations can succeed
+	x, expiration, found := s.userCodeIndex.GetWithExpiration(s.deriveUserCode(issuer, userCode))
+	if !found {
+		return storage.ErrNotFound
+	}
+	current := x.(*sessionv1.DeviceCodeSession)
+	if current.Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING {
+		return storage.ErrNotFound
+	}
+	ttl := expiration.Sub(timeFunc())
+	if ttl <= 0 {
+		return storage.ErrNotFound
+	}
+
 	// Insert in cache
-	s.userCodeIndex.Set(s.deriveUserCode(req.Issuer, userCode), req, cache.DefaultExpiration)
-	s.deviceCodeIndex.Set(s.deriveDeviceCode(req.Issuer, req.DeviceCode), req, cache.DefaultExpiration)
+	session := proto.Clone(req).(*sessionv1.DeviceCodeSession)
+	s.userCodeIndex.Set(s.deriveUserCode(issuer, userCode), session, ttl)
+	s.deviceCodeIndex.Set(s.deriveDeviceCode(issuer, current.DeviceCode), session, ttl)
 
 	// No error
 	return nil
-- 
2.43.0


From 42875618d422a0c1edd1258f62433036675c4298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:59 +0000
Subject: [PATCH 10/41] fix: issue device tokens for the requested audience

---
 server/services/token/grant_device_code.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/services/token/grant_device_code.go b/server/services/token/grant_device_code.go
index 5bff691..9c2e845 100644
--- a/server/services/token/grant_device_code.go
+++ b/server/services/token/grant_device_code.go
@@ -139,6 +139,9 @@ func (s *service) deviceCode(ctx context.Context, client *clientv1.Client, req *
 	if session.Scope != nil {
 		tm.Scope = *session.Scope
 	}
+	if session.Audience != nil {
+		tm.Audience = *session.Audience
+	}
 
 	// Generate access token
 	at, err := s.generateAccessToken(ctx, client, tm, req.TokenConfirmation)
-- 
2.43.0


From 40f5b11b9d54cc3264f169e5dd30a68b5ed5ef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:19 +0000
Subject: [PATCH 11/41] fix: redeem a device code at most once

---
 server/services/token/grant_device_code.go     | 13 +++++++++++++
 server/storage/api.go                          |  6 ++++++
 server/storage/inmemory/device_code_session.go | 15 +++++++++++++++
 3 files changed, 34 insertions(+)

diff --git a/server/services/token/grant_device_code.go b/server/services/token/grant_device_code.go
index 9c2e845..0ea468a 100644
--- a/server/services/token/grant_device_code.go
+++ b/server/services/token/grant_device_code.go
@@ -131,6 +131,19 @@ func (s *service) deviceCode(ctx context.Context, client *clientv1.Client, req *
 		return res, fmt.Errorf("session has no subject for '%s'", grant.DeviceCode)
 	}
 
+	// Burn after read
+	if consumer, ok := s.deviceCodeSessions.(storage.DeviceCodeSessionConsumer); ok {
+		if err := consumer.Consume(ctx, req.Issuer, grant.DeviceCode); err != nil {
+			if err != storage.ErrNotFound {
+				res.Error = rfcerrors.ServerError().Build()
+			} else {
+				// Consumed by a concurrent request
+				res.Error = rfcerrors.InvalidToken().Build()
+			}
+			return res, fmt.Errorf("unable to consume device code '%s': %w", grant.DeviceCode, err)
+		}
+	}
+
 	// Prepare token
 	tm := &tokenv1.TokenMeta{
 		Issuer:  req.Issuer,
diff --git a/server/storage/api.go b/server/storage/api.go
index 433288c..1fd9f48 100644
--- a/server/storage/api.go
+++ b/server/storage/api.go
@@ -150,6 +150,12 @@ type DeviceCodeSession interface {
 	DeviceCodeSessionWriter
 }
 
+// DeviceCodeSessionConsumer is implemented by device code session storages
+// able to atomically consume a device code, so that it is only used once.
+type DeviceCodeSessionConsumer interface {
+	Consume(ctx context.Context, issuer, deviceCode string) error
+}
+
 //go:generate mockgen -destination mock/dpop.gen.go -package mock zntr.io/solid/server/storage DPoP
 
 // DPoP describes dpop proof jti storage to prevent dpop replay attack.
diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index ee1c949..a8af0cf 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -129,6 +129,21 @@ func (s *deviceCodeSessionStorage) Validate(ctx context.Context, issuer, userCod
 	return nil
 }
 
+func (s *deviceCodeSessionStorage) Consume(ctx context.Context, issuer, deviceCode string) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	// Only one of several concurrent consumptions can succeed
+	key := s.deriveDeviceCode(issuer, deviceCode)
+	if _, found := s.deviceCodeIndex.Get(key); !found {
+		return storage.ErrNotFound
+	}
+
+	s.deviceCodeIndex.Delete(key)
+	// No error
+	return nil
+}
+
 // -----------------------------------------------------------------------------
 
 func (s *deviceCodeSessionStorage) deriveUserCode(issuer, code string) string {
-- 
2.43.0


From 0685991f8eb8900e6e230f7bc1eca02fc03ce19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:58 +0000
Subject: [PATCH 12/41] fix: rotate a refresh token at most once and isolate
 token records

---
 server/services/token/grant_refresh_token.go |  7 ++-
 server/storage/inmemory/token.go             | 60 ++++++++++++++------
 2 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/server/services/token/grant_refresh_token.go b/server/services/token/grant_refresh_token.go
index 79f98d9..7703a8b 100644
--- a/server/services/token/grant_refresh_token.go
+++ b/server/services/token/grant_refresh_token.go
@@ -128,7 +128,12 @@ func (s *service) refreshToken(ctx context.Context, client *clientv1.Client, req
 
 		// Revoke old refresh token
 		if err := s.tokens.Revoke(ctx, req.Issuer, rt.TokenId); err != nil {
-			res.Error = rfcerrors.ServerError().Build()
+			if err != storage.ErrNotFound {
+				res.Error = rfcerrors.ServerError().Build()
+			} else {
+				// Rotated or revoked by a concurrent request
+				res.Error = rfcerrors.InvalidRequest().Build()
+			}
 			return res, fmt.Errorf("unable to revoke old refresh token '%s': %w", rt.Value, err)
 		}
 
diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index 6f9c93e..22a8f2e 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -30,6 +30,7 @@ import (
 )
 
 type tokenStorage struct {
+	mu         sync.RWMutex
 	idIndex    sync.Map
 	valueIndex sync.Map
 }
@@ -56,7 +57,10 @@ func (s *tokenStorage) Create(ctx context.Context, issuer string, t *tokenv1.Tok
 	// Compute token value hash
 	tCopy.Value = s.deriveValue(issuer, tCopy.Value)
 
-	s.idIndex.Store(tCopy.TokenId, tCopy)
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	s.idIndex.Store(s.deriveID(issuer, tCopy.TokenId), tCopy)
 	s.valueIndex.Store(tCopy.Value, tCopy)
 
 	// No error
@@ -64,53 +68,73 @@ func (s *tokenStorage) Create(ctx context.Context, issuer string, t *tokenv1.Tok
 }
 
 func (s *tokenStorage) Get(ctx context.Context, issuer, id string) (*tokenv1.Token, error) {
-	// Check is client exists
-	client, ok := s.idIndex.Load(id)
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+
+	// Check is token exists
+	t, ok := s.idIndex.Load(s.deriveID(issuer, id))
 	if !ok {
 		return nil, storage.ErrNotFound
 	}
 
 	// No error
-	return client.(*tokenv1.Token), nil
+	return proto.Clone(t.(*tokenv1.Token)).(*tokenv1.Token), nil
 }
 
 func (s *tokenStorage) GetByValue(ctx context.Context, issuer, value string) (*tokenv1.Token, error) {
-	// Check is client exists
-	client, ok := s.valueIndex.Load(s.deriveValue(issuer, value))
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+
+	// Check is token exists
+	t, ok := s.valueIndex.Load(s.deriveValue(issuer, value))
 	if !ok {
 		return nil, storage.ErrNotFound
 	}
 
 	// No error
-	return client.(*tokenv1.Token), nil
+	return proto.Clone(t.(*tokenv1.Token)).(*tokenv1.Token), nil
 }
 
 func (s *tokenStorage) Delete(ctx context.Context, issuer, id string) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// Retrieve token
-	t, err := s.Get(ctx, issuer, id)
-	if err != nil {
-		return err
+	key := s.deriveID(issuer, id)
+	x, ok := s.idIndex.Load(key)
+	if !ok {
+		return storage.ErrNotFound
 	}
 
-	s.idIndex.Delete(t.TokenId)
-	s.valueIndex.Delete(t.Value)
+	s.idIndex.Delete(key)
+	s.valueIndex.Delete(x.(*tokenv1.Token).Value)
 
 	// No error
 	return nil
 }
 
 func (s *tokenStorage) Revoke(ctx context.Context, issuer, id string) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// Retrieve token
-	t, err := s.Get(ctx, issuer, id)
-	if err != nil {
-		return err
+	key := s.deriveID(issuer, id)
+	x, ok := s.idIndex.Load(key)
+	if !ok {
+		return storage.ErrNotFound
+	}
+
+	// Only one of several concurrent revocations can succeed
+	t := proto.Clone(x.(*tokenv1.Token)).(*tokenv1.Token)
+	if t.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
+		return storage.ErrNotFound
 	}
 
 	// Set as revoked
 	t.Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
 
 	// Update maps
-	s.idIndex.Store(t.TokenId, t)
+	s.idIndex.Store(key, t)
 	s.valueIndex.Store(t.Value, t)
 
 	// No error
@@ -119,6 +143,10 @@ func (s *tokenStorage) Revoke(ctx context.Context, issuer, id string) error {
 
 // -----------------------------------------------------------------------------
 
+func (s *tokenStorage) deriveID(issuer, id string) string {
+	return fmt.Sprintf("%d:%s%s", len(issuer), issuer, id)
+}
+
 func (s *tokenStorage) deriveValue(issuer, value string) string {
 	// Create hasher
 	h, err := blake2b.New256([]byte(`%JwQL_C=w^R@9?{J,=;LHe=&n0L1P{QrS=MsA}7H]V3fHd8&$noL&"hZH;&Uw)3`))
-- 
2.43.0


From f9aee17368869b6481965d87335bc11ad7681c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:20 +0000
Subject: [PATCH 13/41] fix: derive storage keys that cannot collide between
 issuers

---
 server/storage/inmemory/authorization_code_session.go | 1 +
 server/storage/inmemory/authorization_request.go      | 1 +
 server/storage/inmemory/device_code_session.go        | 2 ++
 server/storage/inmemory/token.go                      | 1 +
 4 files changed, 5 insertions(+)

diff --git a/server/storage/inmemory/authorization_code_session.go b/server/storage/inmemory/authorization_code_session.go
index a730286..832a59b 100644
--- a/server/storage/inmemory/authorization_code_session.go
+++ b/server/storage/inmemory/authorization_code_session.go
@@ -94,6 +94,7 @@ func (s *sessionStorage) deriveKey(issuer, code string) string {
 	}
 
 	h.Write([]byte("solid:authorization-code-sessions:v1"))
+	h.Write([]byte(fmt.Sprintf("%d:", len(issuer))))
 	h.Write([]byte(issuer))
 	h.Write([]byte(code))
 
diff --git a/server/storage/inmemory/authorization_request.go b/server/storage/inmemory/authorization_request.go
index 7a4aa53..0d55c56 100644
--- a/server/storage/inmemory/authorization_request.go
+++ b/server/storage/inmemory/authorization_request.go
@@ -94,6 +94,7 @@ func (s *authorizationRequestStorage) deriveKey(issuer, requestURI string) strin
 	}
 
 	h.Write([]byte("solid:authorization-requests:v1"))
+	h.Write([]byte(fmt.Sprintf("%d:", len(issuer))))
 	h.Write([]byte(issuer))
 	h.Write([]byte(requestURI))
 
diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index a8af0cf..13a100a 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -154,6 +154,7 @@ func (s *deviceCodeSessionStorage) deriveUserCode(issuer, code string) string {
 	}
 
 	h.Write([]byte("solid:device-authorization-user-code:v1"))
+	h.Write([]byte(fmt.Sprintf("%d:", len(issuer))))
 	h.Write([]byte(issuer))
 	h.Write([]byte(code))
 
@@ -168,6 +169,7 @@ func (s *deviceCodeSessionStorage) deriveDeviceCode(issuer, code string) string
 	}
 
 	h.Write([]byte("solid:device-authorization-device-code:v1"))
+	h.Write([]byte(fmt.Sprintf("%d:", len(issuer))))
 	h.Write([]byte(issuer))
 	h.Write([]byte(code))
 
diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index 22a8f2e..dd86235 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -155,6 +155,7 @@ func (s *tokenStorage) deriveValue(issuer, value string) string {
 	}
 
 	h.Write([]byte("solid:token:v1"))
+	h.Write([]byte(fmt.Sprintf("%d:", len(issuer))))
 	h.Write([]byte(issuer))
 	h.Write([]byte(value))
 
-- 
2.43.0


From 31dbc69b01c20dcf16c8185f88518dac566f6b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:58 +0000
Subject: [PATCH 14/41] fix: accept a DPoP proof at most once under concurrency

---
 server/storage/inmemory/proof.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/storage/inmemory/proof.go b/server/storage/inmemory/proof.go
index d22c3ba..15085d8 100644
--- a/server/storage/inmemory/proof.go
+++ b/server/storage/inmemory/proof.go
@@ -19,6 +19,7 @@ package inmemory
 
 import (
 	"context"
+	"fmt"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -43,8 +44,10 @@ func DPoPProofs() storage.DPoP {
 // -----------------------------------------------------------------------------
 
 func (s *proofCache) Register(ctx context.Context, id string) error {
-	// Insert in cache
-	s.backend.Set(id, id, cache.DefaultExpiration)
+	// Insert in cache, only one of several concurrent registrations can succeed
+	if err := s.backend.Add(id, id, cache.DefaultExpiration); err != nil {
+		return fmt.Errorf("proof is already registered: %w", err)
+	}
 	// No error
 	return nil
 }
-- 
2.43.0


From 935833644cc872ef0ba12f5714f4f9ae1c6aaaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:16 +0000
Subject: [PATCH 15/41] fix: refuse a DPoP proof without identifier

---
 sdk/dpop/verifier.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdk/dpop/verifier.go b/sdk/dpop/verifier.go
index aefb950..069ef48 100644
--- a/sdk/dpop/verifier.go
+++ b/sdk/dpop/verifier.go
@@ -212,6 +212,11 @@ func (v *defaultVerifier) validateProofClaims(htm, htu string, claims *proofClai
 		return "", fmt.Errorf("claims must not be nil")
 	}
 
+	// Check identifier
+	if claims.JTI == "" {
+		return "", fmt.Errorf("invalid proof: jti must not be blank")
+	}
+
 	// Check http parameters
 	if claims.HTTPMethod != htm {
 		return "", fmt.Errorf("invalid proof: http method don't match, got:'%s', expected: '%s'", htm, claims.HTTPMethod)
-- 
2.43.0


From fc70503eee9cfebdcdc8d6bdcf38704c5fde0fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:08 +0000
Subject: [PATCH 16/41] fix: set the registered type header on signed tokens

---
 sdk/token/jwt/signer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/token/jwt/signer.go b/sdk/token/jwt/signer.go
index 822e031..b4833b5 100644
--- a/sdk/token/jwt/signer.go
+++ b/sdk/token/jwt/signer.go
@@ -59,7 +59,7 @@ func (ds *defaultSigner) Serialize(ctx context.Context, claims any) (string, err
 		return "", fmt.Errorf("key provider returned a unidentifiable key")
 	}
 	// Prepare JWT header
-	options := (&jose.SignerOptions{}).WithType(jose.ContentType(ds.tokenType))
+	options := (&jose.SignerOptions{}).WithType(jose.ContentType(fmt.Sprintf("%s+jwt", ds.tokenType)))
 	options = options.WithHeader(jose.HeaderKey("kid"), key.KeyID)
 	options.EmbedJWK = ds.embedJWK
 
-- 
2.43.0


From a5a39c59beb7d024cccbeb0b014499a70e262065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:47 +0000
Subject: [PATCH 17/41] fix: answer a PKCE challenge with its verifier only

---
 sdk/pkce/verifier.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdk/pkce/verifier.go b/sdk/pkce/verifier.go
index b5d7857..fbe9f11 100644
--- a/sdk/pkce/verifier.go
+++ b/sdk/pkce/verifier.go
@@ -65,13 +65,15 @@ func Validate(challenge, verifier string) (bool, error) {
 		return false, fmt.Errorf("invalid challenge format: %w", err)
 	}
 
-	verRaw, err := base64.RawURLEncoding.DecodeString(verifier)
-	if err != nil {
+	if _, err := base64.RawURLEncoding.DecodeString(verifier); err != nil {
 		return false, fmt.Errorf("invalid verifier format: %w", err)
 	}
 
+	// Compute the challenge answered by the verifier
+	hash := sha256.Sum256([]byte(verifier))
+
 	// Compare values
-	same := types.SecureCompare(chRaw, verRaw)
+	same := types.SecureCompare(chRaw, hash[:])
 
 	// No error
 	return same, nil
-- 
2.43.0


From 1df02eb36b5c84b4c01877e8acb777d08cea44c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:31 +0000
Subject: [PATCH 18/41] fix: refuse oversized verifiable token values without
 panic

---
 sdk/token/verifiable/helpers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/token/verifiable/helpers.go b/sdk/token/verifiable/helpers.go
index bbe431d..640af85 100644
--- a/sdk/token/verifiable/helpers.go
+++ b/sdk/token/verifiable/helpers.go
@@ -31,5 +31,9 @@ func parsePaddedBase62(s string, length int) ([]byte, error) {
 		return []byte{}, fmt.Errorf("cannot parse base62: %q", s)
 	}
 
+	if i.Sign() < 0 || i.BitLen() > 8*length {
+		return []byte{}, fmt.Errorf("value is too large: %q", s)
+	}
+
 	return i.FillBytes(out), nil
 }
-- 
2.43.0


From ccfe56eb2dc621ef0de20965d49e2c047856c278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:49 +0000
Subject: [PATCH 19/41] fix: refuse a zero-extended verifiable token

---
 sdk/token/verifiable/uuid.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdk/token/verifiable/uuid.go b/sdk/token/verifiable/uuid.go
index 50dce15..59d469e 100644
--- a/sdk/token/verifiable/uuid.go
+++ b/sdk/token/verifiable/uuid.go
@@ -170,6 +170,11 @@ func (vu *uuidGenerator) Extract(in string) ([]byte, error) {
 		return nil, errors.New("invalid token syntax")
 	}
 
+	// Only accept the canonical encoding
+	if toPaddedBase62(sig, 59) != parts[1] {
+		return nil, errors.New("invalid token syntax")
+	}
+
 	// Derive a signature key to prevent direct secret key usages which could
 	// threaten all generated tokens in the potential case of a secret leak.
 	var authKey [32]byte
-- 
2.43.0


From 0be3192eb8a6d3db8a81c65c28d335936d5985b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:06 +0000
Subject: [PATCH 20/41] fix: keep the key confirmation in refresh tokens

---
 sdk/token/refresh_token.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sdk/token/refresh_token.go b/sdk/token/refresh_token.go
index 760fc88..68cb879 100644
--- a/sdk/token/refresh_token.go
+++ b/sdk/token/refresh_token.go
@@ -88,6 +88,12 @@ func (c *refreshTokenGenerator) Generate(ctx context.Context, t *tokenv1.Token)
 		Scope:    t.Metadata.Scope,
 	}
 
+	// If token has a confirmation
+	if t.Confirmation != nil {
+		// Add key token proof
+		claims.Cnf = t.Confirmation
+	}
+
 	// Sign the assertion
 	raw, err := c.signer.Serialize(ctx, claims)
 	if err != nil {
-- 
2.43.0


From e9f74b4ee0b8d4e90ac1e422799ff6b36cd73656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:58 +0000
Subject: [PATCH 21/41] fix: never amplify a token through an exchange

---
 server/services/token/grant_token_exchange.go | 34 ++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index 97abbd8..4b53b10 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -22,6 +22,7 @@ import (
 	"errors"
 	"fmt"
 	"net/url"
+	"strings"
 	"time"
 
 	"github.com/dchest/uniuri"
@@ -132,6 +133,10 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 	}
 
 	// Check token
+	if st == nil {
+		res.Error = rfcerrors.ServerError().Build()
+		return fmt.Errorf("retrieved nil token")
+	}
 	if st.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
 		res.Error = rfcerrors.InvalidRequest().Build()
 		return fmt.Errorf("subject_token in not active")
@@ -155,6 +160,18 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 	scope := st.Metadata.Scope
 	if req.Scope != nil {
 		scope = *req.Scope
+
+		// Requested scope must be granted by the subject token
+		granted := map[string]struct{}{}
+		for _, s := range strings.Fields(st.Metadata.Scope) {
+			granted[s] = struct{}{}
+		}
+		for _, s := range strings.Fields(scope) {
+			if _, ok := granted[s]; !ok {
+				res.Error = rfcerrors.InvalidScope().Build()
+				return fmt.Errorf("scope '%s' is not granted by the subject_token", s)
+			}
+		}
 	}
 
 	// Create access token spec
@@ -167,23 +184,35 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 			Subject:   st.Metadata.Subject,
 			ClientId:  client.ClientId,
 			IssuedAt:  uint64(now.Unix()),
+			NotBefore: uint64(now.Unix()),
 			ExpiresAt: uint64(now.Add(1 * time.Minute).Unix()),
 			Scope:     scope,
+			Audience:  st.Metadata.Audience,
 		},
 		Confirmation: st.Confirmation,
 		Status:       tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,
 	}
 
+	// Must not outlive the subject token
+	if at.Metadata.ExpiresAt > st.Metadata.ExpiresAt {
+		at.Metadata.ExpiresAt = st.Metadata.ExpiresAt
+	}
+
 	// Add optional meta
 	if req.Audience != nil {
 		aud, err := s.resources.GetByURI(ctx, *req.Audience)
-		if err != nil && errors.Is(err, storage.ErrNotFound) {
+		if err != nil && !errors.Is(err, storage.ErrNotFound) {
+			res.Error = rfcerrors.ServerError().Build()
 			return fmt.Errorf("unable to validate audience: %w", err)
 		}
 		if errors.Is(err, storage.ErrNotFound) {
 			res.Error = rfcerrors.InvalidTarget().Build()
 			return fmt.Errorf("audience '%s' not found", *req.Audience)
 		}
+		if aud == nil {
+			res.Error = rfcerrors.ServerError().Build()
+			return fmt.Errorf("retrieved nil resource for audience '%s'", *req.Audience)
+		}
 
 		// Assign urn
 		at.Metadata.Audience = aud.Urn
@@ -192,16 +221,19 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 	// Generate an access token
 	at.Value, err = s.accessTokenGen.Generate(ctx, at)
 	if err != nil {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("unable to generate an accessToken: %w", err)
 	}
 
 	// Check generator value
 	if at.Value == "" {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("accessTokenGenerator generated an empty value")
 	}
 
 	// Store the token spec
 	if err := s.tokens.Create(ctx, req.Issuer, at); err != nil {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("unable to register access token spec in token storage: %w", err)
 	}
 
-- 
2.43.0


From 38f6d8f56b1d5b98790b4d1d26a0fe069e38b247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:17 +0000
Subject: [PATCH 22/41] fix: only revoke tokens of the requesting client

---
 server/services/token/revoke.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/server/services/token/revoke.go b/server/services/token/revoke.go
index 8ec4a7c..1c0ec34 100644
--- a/server/services/token/revoke.go
+++ b/server/services/token/revoke.go
@@ -19,6 +19,7 @@ package token
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"net/url"
 
@@ -71,8 +72,18 @@ func (s *service) Revoke(ctx context.Context, req *tokenv1.RevokeRequest) (*toke
 		return res, fmt.Errorf("unable to retrieve token '%s': %w", req.Token, err)
 	}
 
+	// Check token ownership
+	if t == nil {
+		res.Error = rfcerrors.ServerError().Build()
+		return res, fmt.Errorf("retrieved nil token")
+	}
+	if t.Metadata != nil && t.Metadata.ClientId != req.Client.ClientId {
+		res.Error = rfcerrors.UnauthorizedClient().Build()
+		return res, fmt.Errorf("only the client the token was issued to can revoke it")
+	}
+
 	// Update token status
-	if err := s.tokens.Revoke(ctx, req.Issuer, t.TokenId); err != nil {
+	if err := s.tokens.Revoke(ctx, req.Issuer, t.TokenId); err != nil && !errors.Is(err, storage.ErrNotFound) {
 		return res, fmt.Errorf("unable to revoke token '%s': %w", req.Token, err)
 	}
 
-- 
2.43.0


From 2c91105ffa819765124a6be7f1701f639c520851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:23 +0000
Subject: [PATCH 23/41] fix: fail closed when the storage returns no record

---
 server/services/token/grant_refresh_token.go |  4 ++++
 server/services/token/introspection.go       | 11 ++++++++++-
 server/services/token/revoke.go              |  6 +++++-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/server/services/token/grant_refresh_token.go b/server/services/token/grant_refresh_token.go
index 7703a8b..54f3728 100644
--- a/server/services/token/grant_refresh_token.go
+++ b/server/services/token/grant_refresh_token.go
@@ -85,6 +85,10 @@ func (s *service) refreshToken(ctx context.Context, client *clientv1.Client, req
 	}
 
 	// Check token
+	if rt == nil {
+		res.Error = rfcerrors.ServerError().Build()
+		return res, fmt.Errorf("retrieved nil token")
+	}
 	if rt.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
 		res.Error = rfcerrors.InvalidRequest().Build()
 		return res, fmt.Errorf("refresh_token in not active")
diff --git a/server/services/token/introspection.go b/server/services/token/introspection.go
index 29989c9..f0f0627 100644
--- a/server/services/token/introspection.go
+++ b/server/services/token/introspection.go
@@ -56,7 +56,7 @@ func (s *service) Introspect(ctx context.Context, req *tokenv1.IntrospectRequest
 	}
 
 	// Retrieve client information
-	_, err = s.clients.Get(ctx, req.Client.ClientId)
+	client, err := s.clients.Get(ctx, req.Client.ClientId)
 	if err != nil {
 		if !errors.Is(err, storage.ErrNotFound) {
 			res.Error = rfcerrors.ServerError().Build()
@@ -65,6 +65,10 @@ func (s *service) Introspect(ctx context.Context, req *tokenv1.IntrospectRequest
 		}
 		return res, fmt.Errorf("unable to retrieve client details: %w", err)
 	}
+	if client == nil {
+		res.Error = rfcerrors.ServerError().Build()
+		return res, fmt.Errorf("unable to process with nil client")
+	}
 
 	// Retrieve token by value
 	t, err := s.tokens.GetByValue(ctx, req.Issuer, req.Token)
@@ -81,6 +85,11 @@ func (s *service) Introspect(ctx context.Context, req *tokenv1.IntrospectRequest
 		return res, nil
 	}
 
+	if t == nil {
+		res.Error = rfcerrors.ServerError().Build()
+		return res, fmt.Errorf("retrieved nil token")
+	}
+
 	// Return the token
 	res.Token = t
 
diff --git a/server/services/token/revoke.go b/server/services/token/revoke.go
index 1c0ec34..f12b059 100644
--- a/server/services/token/revoke.go
+++ b/server/services/token/revoke.go
@@ -56,7 +56,7 @@ func (s *service) Revoke(ctx context.Context, req *tokenv1.RevokeRequest) (*toke
 	}
 
 	// Retrieve client information
-	_, err = s.clients.Get(ctx, req.Client.ClientId)
+	client, err := s.clients.Get(ctx, req.Client.ClientId)
 	if err != nil {
 		if err != storage.ErrNotFound {
 			res.Error = rfcerrors.ServerError().Build()
@@ -65,6 +65,10 @@ func (s *service) Revoke(ctx context.Context, req *tokenv1.RevokeRequest) (*toke
 		}
 		return res, fmt.Errorf("unable to retrieve client details: %w", err)
 	}
+	if client == nil {
+		res.Error = rfcerrors.ServerError().Build()
+		return res, fmt.Errorf("unable to process with nil client")
+	}
 
 	// Retrieve token by value
 	t, err := s.tokens.GetByValue(ctx, req.Issuer, req.Token)
-- 
2.43.0


From 6f7587051722ded92e8de172d8a9aa019f37e620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:46 +0000
Subject: [PATCH 24/41] fix: only refresh a key-bound token of a public client
 with its key

---
 server/services/token/grant_refresh_token.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/server/services/token/grant_refresh_token.go b/server/services/token/grant_refresh_token.go
index 54f3728..0264cfd 100644
--- a/server/services/token/grant_refresh_token.go
+++ b/server/services/token/grant_refresh_token.go
@@ -114,6 +114,15 @@ func (s *service) refreshToken(ctx context.Context, client *clientv1.Client, req
 		return res, fmt.Errorf("only requestor client must use the refresh_token")
 	}
 
+	// Check refresh token / key association
+	// https://www.rfc-editor.org/rfc/rfc9449#section-5-10
+	if client.ClientType == clientv1.ClientType_CLIENT_TYPE_PUBLIC && rt.Confirmation != nil {
+		if req.TokenConfirmation == nil || req.TokenConfirmation.Jkt != rt.Confirmation.Jkt {
+			res.Error = rfcerrors.InvalidRequest().Build()
+			return res, fmt.Errorf("refresh_token is bound to another key")
+		}
+	}
+
 	// Generate access token
 	at, err := s.generateAccessToken(ctx, client, rt.Metadata, rt.Confirmation)
 	if err != nil {
-- 
2.43.0


From 746af301d8f184a54452087bc962ea3b0ef020c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:05 +0000
Subject: [PATCH 25/41] fix: make refresh tokens live seven days across
 daylight saving changes

---
 server/services/token/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/services/token/generator.go b/server/services/token/generator.go
index 6e7cafb..c044dde 100644
--- a/server/services/token/generator.go
+++ b/server/services/token/generator.go
@@ -90,7 +90,7 @@ func (s *service) generateRefreshToken(ctx context.Context, client *clientv1.Cli
 			ClientId:  client.ClientId,
 			IssuedAt:  uint64(now.Unix()),
 			NotBefore: uint64(now.Unix() + 1),
-			ExpiresAt: uint64(now.AddDate(0, 0, 7).Unix()),
+			ExpiresAt: uint64(now.Add(7 * 24 * time.Hour).Unix()),
 			Scope:     meta.Scope,
 			Audience:  meta.Audience,
 		},
-- 
2.43.0


From 0e24a171213b7840bb06c58743d4b282a34cb461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:24 +0000
Subject: [PATCH 26/41] fix: protect and isolate in-memory client records

---
 server/storage/inmemory/client.go   | 18 +++++++++++++++---
 server/storage/inmemory/resource.go |  4 +++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/server/storage/inmemory/client.go b/server/storage/inmemory/client.go
index de66df2..6c1ca1f 100644
--- a/server/storage/inmemory/client.go
+++ b/server/storage/inmemory/client.go
@@ -20,8 +20,10 @@ package inmemory
 import (
 	"context"
 	"strings"
+	"sync"
 
 	"github.com/dchest/uniuri"
+	"google.golang.org/protobuf/proto"
 
 	clientv1 "zntr.io/solid/api/oidc/client/v1"
 	"zntr.io/solid/oidc"
@@ -29,6 +31,7 @@ import (
 )
 
 type clientStorage struct {
+	mu      sync.RWMutex
 	backend map[string]*clientv1.Client
 }
 
@@ -172,6 +175,9 @@ func Clients() storage.Client {
 // -----------------------------------------------------------------------------
 
 func (s *clientStorage) Get(ctx context.Context, id string) (*clientv1.Client, error) {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+
 	// Check is client exists
 	client, ok := s.backend[id]
 	if !ok {
@@ -179,14 +185,17 @@ func (s *clientStorage) Get(ctx context.Context, id string) (*clientv1.Client, e
 	}
 
 	// No error
-	return client, nil
+	return proto.Clone(client).(*clientv1.Client), nil
 }
 
 func (s *clientStorage) GetByName(ctx context.Context, name string) (*clientv1.Client, error) {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+
 	// Iterate over bakend map
 	for _, c := range s.backend {
 		if strings.EqualFold(c.ClientName, name) {
-			return c, nil
+			return proto.Clone(c).(*clientv1.Client), nil
 		}
 	}
 
@@ -197,11 +206,14 @@ func (s *clientStorage) GetByName(ctx context.Context, name string) (*clientv1.C
 // -----------------------------------------------------------------------------
 
 func (s *clientStorage) Register(ctx context.Context, c *clientv1.Client) (string, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// Assign client id
 	c.ClientId = uniuri.NewLen(16)
 
 	// Assign to storage
-	s.backend[c.ClientId] = c
+	s.backend[c.ClientId] = proto.Clone(c).(*clientv1.Client)
 
 	// No error
 	return c.ClientId, nil
diff --git a/server/storage/inmemory/resource.go b/server/storage/inmemory/resource.go
index 94a4828..8efa1bc 100644
--- a/server/storage/inmemory/resource.go
+++ b/server/storage/inmemory/resource.go
@@ -20,6 +20,8 @@ package inmemory
 import (
 	"context"
 
+	"google.golang.org/protobuf/proto"
+
 	resourcev1 "zntr.io/solid/api/oidc/resource/v1"
 	"zntr.io/solid/server/storage"
 )
@@ -57,5 +59,5 @@ func (s *resourceStorage) GetByURI(ctx context.Context, urn string) (*resourcev1
 	}
 
 	// No error
-	return resource, nil
+	return proto.Clone(resource).(*resourcev1.Resource), nil
 }
-- 
2.43.0


From 8cf2ae706a3a1820e2aa5ba6d1f0bb534a6b8c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:44 +0000
Subject: [PATCH 27/41] fix: only authenticate the attested client instance

---
 .../client_attestation.go                     | 67 +++++++++++++------
 .../clientauthentication/private_key_jwt.go   |  5 ++
 2 files changed, 53 insertions(+), 19 deletions(-)

diff --git a/server/clientauthentication/client_attestation.go b/server/clientauthentication/client_attestation.go
index be1662a..4557eaf 100644
--- a/server/clientauthentication/client_attestation.go
+++ b/server/clientauthentication/client_attestation.go
@@ -30,6 +30,9 @@ type clientAttestationConfirmationClaims struct {
 	JWK *jose.JSONWebKey `json:"jwk"`
 }
 
+// errAttesterRetrieval is raised when the attester could not be resolved.
+var errAttesterRetrieval = errors.New("error during client retrieval")
+
 type clientAttestationClaims struct {
 	Issuer       string                               `json:"iss"`
 	Subject      string                               `json:"sub"`
@@ -58,6 +61,12 @@ type clientAttestationPOPClaims struct {
 func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req *clientv1.AuthenticateRequest) (*clientv1.AuthenticateResponse, error) {
 	res := &clientv1.AuthenticateResponse{}
 
+	// Validate request
+	if req == nil {
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("unable to process nil request")
+	}
+
 	// Validate required fields for this authentication method
 	if req.ClientAssertionType == nil {
 		res.Error = rfcerrors.InvalidRequest().Build()
@@ -84,9 +93,13 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 	}
 
 	// Decode assertions without validation first
-	clientPublicKey, err := p.validateClientAttestation(ctx, assertions[0])
+	attestedClientID, clientPublicKey, err := p.validateClientAttestation(ctx, assertions[0])
 	if err != nil {
-		res.Error = rfcerrors.UnauthorizedClient().Build()
+		if errors.Is(err, errAttesterRetrieval) {
+			res.Error = rfcerrors.ServerError().Build()
+		} else {
+			res.Error = rfcerrors.UnauthorizedClient().Build()
+		}
 		return res, errors.New("invalid client attestation")
 	}
 
@@ -101,18 +114,25 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 	var claims clientAttestationPOPClaims
 	if err := rawPoP.Claims(clientPublicKey, &claims); err != nil {
 		res.Error = rfcerrors.UnauthorizedClient().Build()
-		return nil, fmt.Errorf("client attestation PoP is invalid: %w", err)
+		return res, fmt.Errorf("client attestation PoP is invalid: %w", err)
 	}
 
 	// Validate claims
 	if claims.Issuer == "" || claims.Expires == 0 || claims.JTI == "" || claims.Audience == "" {
-		return nil, fmt.Errorf("iss, exp, jti, aud are mandatory and not empty")
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("iss, exp, jti, aud are mandatory and not empty")
 	}
 	if claims.Expires < uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("expired token")
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("expired token")
 	}
 	if claims.NotBefore > uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("not useable token")
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("not useable token")
+	}
+	if claims.Issuer != attestedClientID {
+		res.Error = rfcerrors.UnauthorizedClient().Build()
+		return res, fmt.Errorf("client attestation PoP is not issued by the attested client")
 	}
 
 	// Check client in storage
@@ -126,6 +146,11 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 		return res, fmt.Errorf("client not found")
 	}
 
+	if client == nil {
+		res.Error = rfcerrors.ServerError().Build()
+		return res, fmt.Errorf("retrieved nil client")
+	}
+
 	// Assign to response
 	res.Client = client
 
@@ -134,55 +159,59 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 
 // -----------------------------------------------------------------------------
 
-func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.Context, clientAttestation string) (*jose.JSONWebKey, error) {
+func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.Context, clientAttestation string) (string, *jose.JSONWebKey, error) {
 	// Parse attestation without cryptogrpahic verification first
 	rawAttestation, err := jose.ParseSigned(clientAttestation, p.supportedAlgorithms)
 	if err != nil {
-		return nil, fmt.Errorf("client attestation is syntaxically invalid: %w", err)
+		return "", nil, fmt.Errorf("client attestation is syntaxically invalid: %w", err)
 	}
 
 	// Retrieve payload claims
 	var claims clientAttestationClaims
 	if errDecode := json.Unmarshal(rawAttestation.UnsafePayloadWithoutVerification(), &claims); errDecode != nil {
-		return nil, fmt.Errorf("unable to decode payload claims: %w", errDecode)
+		return "", nil, fmt.Errorf("unable to decode payload claims: %w", errDecode)
 	}
 
 	// Validate claims
-	if claims.Issuer == "" || claims.Subject == "" || claims.Expires == 0 || claims.Confirmation == nil {
-		return nil, fmt.Errorf("iss, sub, exp, cnf are mandatory and not empty")
+	if claims.Issuer == "" || claims.Subject == "" || claims.Expires == 0 || claims.Confirmation == nil || claims.Confirmation.JWK == nil {
+		return "", nil, fmt.Errorf("iss, sub, exp, cnf are mandatory and not empty")
 	}
 	if claims.Expires < uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("expired token")
+		return "", nil, fmt.Errorf("expired token")
 	}
 	if claims.NotBefore > uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("not useable token")
+		return "", nil, fmt.Errorf("not useable token")
 	}
 
 	// Check client in storage
 	client, err := p.clients.Get(ctx, claims.Issuer)
 	if err != nil {
 		if err != storage.ErrNotFound {
-			return nil, fmt.Errorf("error during client retrieval: %w", err)
+			return "", nil, fmt.Errorf("%w: %w", errAttesterRetrieval, err)
 		}
-		return nil, fmt.Errorf("client not found")
+		return "", nil, fmt.Errorf("client not found")
+	}
+
+	if client == nil {
+		return "", nil, fmt.Errorf("%w: nil client", errAttesterRetrieval)
 	}
 
 	// Retrieve JWK associated to the client
 	if len(client.Jwks) == 0 {
-		return nil, fmt.Errorf("client jwks is nil")
+		return "", nil, fmt.Errorf("client jwks is nil")
 	}
 
 	// Parse JWKS
 	var jwks jose.JSONWebKeySet
 	if err := json.Unmarshal(client.Jwks, &jwks); err != nil {
-		return nil, fmt.Errorf("client jwks is invalid: %w", err)
+		return "", nil, fmt.Errorf("client jwks is invalid: %w", err)
 	}
 
 	// Try to validate assertion with one of keys
 	if err := jwk.ValidateSignature(&jwks, rawAttestation); err != nil {
-		return nil, fmt.Errorf("client assertion is invalid: %w", err)
+		return "", nil, fmt.Errorf("client assertion is invalid: %w", err)
 	}
 
 	// Extract client public key
-	return claims.Confirmation.JWK, nil
+	return claims.Subject, claims.Confirmation.JWK, nil
 }
diff --git a/server/clientauthentication/private_key_jwt.go b/server/clientauthentication/private_key_jwt.go
index 748c56b..9e6f3dd 100644
--- a/server/clientauthentication/private_key_jwt.go
+++ b/server/clientauthentication/private_key_jwt.go
@@ -121,6 +121,11 @@ func (p *privateKeyJWTAuthentication) Authenticate(ctx context.Context, req *cli
 		return res, fmt.Errorf("client not found")
 	}
 
+	if client == nil {
+		res.Error = rfcerrors.ServerError().Build()
+		return res, fmt.Errorf("retrieved nil client")
+	}
+
 	// Retrieve JWK associated to the client
 	if len(client.Jwks) == 0 {
 		res.Error = rfcerrors.InvalidClient().Build()
-- 
2.43.0


From 8ca22e3bf9eb5cdd231c1de7af8b012a8423945a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:50 +0000
Subject: [PATCH 28/41] fix: refuse an authorization request naming another
 client

---
 server/services/authorization/service.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index d146161..8456420 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -134,6 +134,12 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.AuthorizeRequest) (
 		return res, err
 	}
 
+	// Check request / client association
+	if req.Client != nil && req.Client.ClientId != req.Request.ClientId {
+		res.Error = rfcerrors.InvalidRequest().State(req.Request.State).Build()
+		return res, fmt.Errorf("unable to start an authorization for another client")
+	}
+
 	// Create an authorization code
 	code, err := s.codeGenerator.Generate(ctx, req.Issuer)
 	if err != nil {
-- 
2.43.0


From 9f752405b110c6aa931447ae5eed83d8d53ded13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:24 +0000
Subject: [PATCH 29/41] fix: read device sessions atomically

---
 server/storage/inmemory/device_code_session.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index 13a100a..b6eb874 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -83,6 +83,10 @@ func (s *deviceCodeSessionStorage) Delete(ctx context.Context, issuer, code stri
 }
 
 func (s *deviceCodeSessionStorage) GetByDeviceCode(ctx context.Context, issuer, deviceCode string) (*sessionv1.DeviceCodeSession, error) {
+	// Never observe an update between its two indices
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// Retrieve from cache
 	if x, found := s.deviceCodeIndex.Get(s.deriveDeviceCode(issuer, deviceCode)); found {
 		req := x.(*sessionv1.DeviceCodeSession)
@@ -93,6 +97,10 @@ func (s *deviceCodeSessionStorage) GetByDeviceCode(ctx context.Context, issuer,
 }
 
 func (s *deviceCodeSessionStorage) GetByUserCode(ctx context.Context, issuer, userCode string) (*sessionv1.DeviceCodeSession, error) {
+	// Never observe an update between its two indices
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// Retrieve from cache
 	if x, found := s.userCodeIndex.Get(s.deriveUserCode(issuer, userCode)); found {
 		req := x.(*sessionv1.DeviceCodeSession)
-- 
2.43.0


From 6be05b334fe01c6b9e7c736109a59e0e264be8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:45 +0000
Subject: [PATCH 30/41] fix: refuse tokens without an embedded key and missing
 key sets instead of panicking

---
 sdk/token/jwt/embedded_verifier.go | 3 +++
 sdk/token/jwt/token_adapter.go     | 5 +++++
 sdk/token/jwt/verifier.go          | 8 ++++++++
 3 files changed, 16 insertions(+)

diff --git a/sdk/token/jwt/embedded_verifier.go b/sdk/token/jwt/embedded_verifier.go
index b0e88dc..97245d2 100644
--- a/sdk/token/jwt/embedded_verifier.go
+++ b/sdk/token/jwt/embedded_verifier.go
@@ -94,6 +94,9 @@ func (v *embeddedKeyVerifier) Claims(ctx context.Context, raw string, claims any
 
 	// Get embedded key.
 	embeddedJwk := t.Headers[0].JSONWebKey
+	if embeddedJwk == nil {
+		return errors.New("token has no embedded public key")
+	}
 
 	// Try to verify with current key
 	if err := t.Claims(embeddedJwk, claims); err != nil {
diff --git a/sdk/token/jwt/token_adapter.go b/sdk/token/jwt/token_adapter.go
index 962f65f..31da8eb 100644
--- a/sdk/token/jwt/token_adapter.go
+++ b/sdk/token/jwt/token_adapter.go
@@ -60,6 +60,11 @@ func (tw *tokenAdapter) PublicKeyThumbPrint() (string, error) {
 		return "", fmt.Errorf("unable to retrieve embededded jwk from header")
 	}
 
+	// Ensure the token embeds a key
+	if tw.token.Headers[0].JSONWebKey == nil {
+		return "", fmt.Errorf("unable to retrieve embededded jwk from header")
+	}
+
 	// Generate thumbprint
 	h, err := tw.token.Headers[0].JSONWebKey.Thumbprint(crypto.SHA256)
 	if err != nil {
diff --git a/sdk/token/jwt/verifier.go b/sdk/token/jwt/verifier.go
index f2d1e3c..80ec754 100644
--- a/sdk/token/jwt/verifier.go
+++ b/sdk/token/jwt/verifier.go
@@ -81,11 +81,19 @@ func (v *defaultVerifier) Claims(ctx context.Context, raw string, claims any) er
 		return fmt.Errorf("unable to parse signed token: %w", err)
 	}
 
+	// Check key set provider
+	if v.keySetProvider == nil {
+		return errors.New("unable to use nil keySetProvider")
+	}
+
 	// Retrieve KeySet
 	jwks, err := v.keySetProvider(ctx)
 	if err != nil {
 		return fmt.Errorf("unable to retrieve KeySet: %w", err)
 	}
+	if jwks == nil {
+		return errors.New("key set provider returned a nil key set")
+	}
 
 	// Set all keys by default
 	keys := jwks.Keys
-- 
2.43.0


From 15a7e8ba9ec9915b7ec9e0c44f875322e95e9f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:05 +0000
Subject: [PATCH 31/41] fix: bind proofs to the same form of a URL when proving
 and verifying

---
 sdk/dpop/prover.go   |  2 +-
 sdk/dpop/url.go      | 13 ++++++++++++-
 sdk/dpop/verifier.go |  2 +-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/sdk/dpop/prover.go b/sdk/dpop/prover.go
index b3d0d01..0dcc8ba 100644
--- a/sdk/dpop/prover.go
+++ b/sdk/dpop/prover.go
@@ -86,7 +86,7 @@ func (p *defaultProver) Prove(htm, htu string, opts ...Option) (string, error) {
 	claims := &proofClaims{
 		JTI:        uniuri.NewLen(JTICodeLength),
 		HTTPMethod: htm,
-		HTTPURL:    fmt.Sprintf("%s://%s%s", u.Scheme, u.Host, u.Path),
+		HTTPURL:    targetURI(u),
 		IssuedAt:   uint64(time.Now().UTC().Unix()),
 	}
 
diff --git a/sdk/dpop/url.go b/sdk/dpop/url.go
index db340c6..8f7f5b2 100644
--- a/sdk/dpop/url.go
+++ b/sdk/dpop/url.go
@@ -20,6 +20,7 @@ package dpop
 import (
 	"fmt"
 	"net/http"
+	"net/url"
 )
 
 // CleanURL returns a cleanurl for DPoP proof.
@@ -34,5 +35,15 @@ func CleanURL(r *http.Request) string {
 	}
 
 	// Assemble response
-	return fmt.Sprintf("%s://%s%s", scheme, r.Host, r.URL.Path)
+	return fmt.Sprintf("%s://%s%s", scheme, r.Host, r.URL.EscapedPath())
+}
+
+// targetURI returns the URL a proof is bound to, which is the request URL
+// without its credentials, query and fragment.
+func targetURI(u *url.URL) string {
+	target := *u
+	target.User = nil
+	target.RawQuery, target.ForceQuery = "", false
+	target.Fragment, target.RawFragment = "", ""
+	return target.String()
 }
diff --git a/sdk/dpop/verifier.go b/sdk/dpop/verifier.go
index 069ef48..a569a6b 100644
--- a/sdk/dpop/verifier.go
+++ b/sdk/dpop/verifier.go
@@ -108,7 +108,7 @@ func (v *defaultVerifier) Verify(ctx context.Context, htm, htu, proof string, op
 	}
 
 	// Validate proof claims
-	jtiHash, errJti := v.validateProofClaims(htm, u.String(), claims)
+	jtiHash, errJti := v.validateProofClaims(htm, targetURI(u), claims)
 	if errJti != nil {
 		return "", errJti
 	}
-- 
2.43.0


From 93f9d98f73d92758511cf6ba8fe719075858a1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:34 +0000
Subject: [PATCH 32/41] fix: refuse CWT signing without algorithm or key
 provider

The CWT signer panicked when it was built with a nil algorithm or a nil key
provider; the JWT signer returns an error in the same situation.
---
 sdk/token/cwt/signer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sdk/token/cwt/signer.go b/sdk/token/cwt/signer.go
index 5ed4a10..fc26d4b 100644
--- a/sdk/token/cwt/signer.go
+++ b/sdk/token/cwt/signer.go
@@ -54,6 +54,12 @@ func (ds *defaultSigner) Serialize(ctx context.Context, claims any) (string, err
 	if types.IsNil(claims) {
 		return "", errors.New("unable to sign nil claim object")
 	}
+	if ds.alg == nil {
+		return "", errors.New("unable to use nil algorithm")
+	}
+	if ds.keyProvider == nil {
+		return "", errors.New("unable to use nil keyProvider")
+	}
 
 	// Retrieve signing key
 	key, err := ds.keyProvider(ctx)
-- 
2.43.0


From f26b81ebce3809f2b8b92e781340671daf5c97cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:57 +0000
Subject: [PATCH 33/41] fix: release the random source when a call panics

---
 sdk/randomness/locked_rand.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sdk/randomness/locked_rand.go b/sdk/randomness/locked_rand.go
index 7c313c1..32a87e0 100644
--- a/sdk/randomness/locked_rand.go
+++ b/sdk/randomness/locked_rand.go
@@ -72,8 +72,8 @@ func (lr *LockedRand) Int() (n int) {
 // It panics if n <= 0.
 func (lr *LockedRand) Int63n(n int64) (r int64) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Int63n(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -81,8 +81,8 @@ func (lr *LockedRand) Int63n(n int64) (r int64) {
 // It panics if n <= 0.
 func (lr *LockedRand) Int31n(n int32) (r int32) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Int31n(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -90,8 +90,8 @@ func (lr *LockedRand) Int31n(n int32) (r int32) {
 // It panics if n <= 0.
 func (lr *LockedRand) Intn(n int) (r int) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Intn(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -114,8 +114,8 @@ func (lr *LockedRand) Float32() (n float32) {
 // Perm returns, as a slice of n ints, a pseudo-random permutation of the integers [0,n).
 func (lr *LockedRand) Perm(n int) (r []int) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Perm(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -152,8 +152,8 @@ func (lr *LockedRand) ExpFloat64() (n float64) {
 // swap swaps the elements with indexes i and j.
 func (lr *LockedRand) Shuffle(n int, swap func(i, j int)) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	lr.r.Shuffle(n, swap)
-	lr.lk.Unlock()
 }
 
 // Read generates len(p) random bytes and writes them into p. It
-- 
2.43.0


From f29e394e1755bf38abc44f2bcb269494985f43f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:33 +0000
Subject: [PATCH 34/41] fix: close every HTTP client response and refuse
 missing options or metadata

---
 client/http.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/client/http.go b/client/http.go
index a67df99..3f6ec37 100644
--- a/client/http.go
+++ b/client/http.go
@@ -20,6 +20,7 @@ package client
 import (
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -42,6 +43,11 @@ const bodyLimiterSize = 5 << 20 // 5 Mb
 
 // HTTP creates an HTTP OIDC Client.
 func HTTP(ctx context.Context, issuer string, opts *Options) (Client, error) {
+	// Check arguments
+	if opts == nil {
+		return nil, errors.New("client options must not be nil")
+	}
+
 	// Initialize solid client
 	c := &httpClient{
 		opts:       opts,
@@ -57,15 +63,22 @@ func HTTP(ctx context.Context, issuer string, opts *Options) (Client, error) {
 
 	// Do the query
 	response, err := c.httpClient.Do(req)
-	if err != nil || response.StatusCode != http.StatusOK {
-		return nil, fmt.Errorf("unable to parse server metadata request: %w", err)
+	if err != nil {
+		return nil, fmt.Errorf("unable to retrieve server metadata: %w", err)
 	}
 	defer response.Body.Close()
 
+	if response.StatusCode != http.StatusOK {
+		return nil, fmt.Errorf("unable to retrieve server metadata: unexpected status code %d", response.StatusCode)
+	}
+
 	// Parse response
-	if err := json.NewDecoder(response.Body).Decode(&c.serverMetadata); err != nil {
+	if err := json.NewDecoder(io.LimitReader(response.Body, bodyLimiterSize)).Decode(&c.serverMetadata); err != nil {
 		return nil, fmt.Errorf("unable to decode server metadata: %w", err)
 	}
+	if c.serverMetadata == nil {
+		return nil, errors.New("server metadata must not be empty")
+	}
 
 	// Retrieve public keys
 	if _, _, err := c.PublicKeys(ctx); err != nil {
@@ -451,6 +464,8 @@ func (c *httpClient) PublicKeys(ctx context.Context) (*jose.JSONWebKeySet, uint6
 	if err != nil {
 		return nil, 0, fmt.Errorf("unable to retrieve jwks: %w", err)
 	}
+	defer response.Body.Close()
+
 	if response.StatusCode != http.StatusOK {
 		var err corev1.Error
 
-- 
2.43.0


From 13738e22d87541eb50fc1664fcf20a278a1346c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:57 +0000
Subject: [PATCH 35/41] fix: read the lifetime of the token response and refuse
 one without a token

---
 client/claims.go |  7 +++++++
 client/http.go   | 19 ++++++++++++++++---
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/client/claims.go b/client/claims.go
index f00bd7d..11ff10e 100644
--- a/client/claims.go
+++ b/client/claims.go
@@ -49,6 +49,13 @@ type jsonError struct {
 	ErrorDescription string `json:"error_description,omitempty"`
 }
 
+type jsonTokenResponse struct {
+	AccessToken  string `json:"access_token"`
+	TokenType    string `json:"token_type"`
+	RefreshToken string `json:"refresh_token"`
+	ExpiresIn    uint64 `json:"expires_in"`
+}
+
 type jsonRequestURIResponse struct {
 	Error *jsonError `json:"inline"`
 
diff --git a/client/http.go b/client/http.go
index 3f6ec37..8539f62 100644
--- a/client/http.go
+++ b/client/http.go
@@ -370,13 +370,26 @@ func (c *httpClient) ClientCredentials(ctx context.Context, assertion string) (*
 	}
 
 	// Decode payload
-	var token oauth2.Token
-	if err := json.NewDecoder(io.LimitReader(response.Body, bodyLimiterSize)).Decode(&token); err != nil {
+	var payload jsonTokenResponse
+	if err := json.NewDecoder(io.LimitReader(response.Body, bodyLimiterSize)).Decode(&payload); err != nil {
 		return nil, fmt.Errorf("unable to decode json response: %w", err)
 	}
+	if payload.AccessToken == "" {
+		return nil, errors.New("token response doesn't contain an access token")
+	}
+
+	// Prepare token
+	token := &oauth2.Token{
+		AccessToken:  payload.AccessToken,
+		TokenType:    payload.TokenType,
+		RefreshToken: payload.RefreshToken,
+	}
+	if payload.ExpiresIn > 0 {
+		token.Expiry = time.Unix(time.Now().Unix()+int64(payload.ExpiresIn), 0)
+	}
 
 	// No error
-	return &token, nil
+	return token, nil
 }
 
 func (c *httpClient) Introspect(ctx context.Context, assertion, token string) (*tokenv1.Token, error) {
-- 
2.43.0


From 781d721738b3f89286c2686caac89d47dad7eada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:20 +0000
Subject: [PATCH 36/41] fix: read introspection responses by their standard
 names

---
 client/claims.go | 18 +++++++++++++++---
 client/http.go   | 24 ++++++++++++++++++++----
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/client/claims.go b/client/claims.go
index 11ff10e..6cf4d20 100644
--- a/client/claims.go
+++ b/client/claims.go
@@ -19,6 +19,7 @@ package client
 
 import (
 	"github.com/go-jose/go-jose/v4"
+	"github.com/go-jose/go-jose/v4/jwt"
 
 	tokenv1 "zntr.io/solid/api/oidc/token/v1"
 )
@@ -67,8 +68,19 @@ type jsonJWKSResponse struct {
 	Expires             uint64 `json:"exp"`
 }
 
+// https://www.rfc-editor.org/rfc/rfc7662#section-2.2
 type jsonTokenIntrospectionResponse struct {
-	*tokenv1.TokenMeta `json:",inline"`
-	Active             bool                       `json:"active"`
-	Confirmation       *tokenv1.TokenConfirmation `json:"cnf,omitempty"`
+	Active       *bool                      `json:"active"`
+	TokenID      string                     `json:"jti"`
+	Issuer       string                     `json:"iss"`
+	Subject      string                     `json:"sub"`
+	Audience     jwt.Audience               `json:"aud"`
+	ClientID     string                     `json:"client_id"`
+	Scope        string                     `json:"scope"`
+	IssuedAt     uint64                     `json:"iat"`
+	NotBefore    uint64                     `json:"nbf"`
+	ExpiresAt    uint64                     `json:"exp"`
+	ACR          *string                    `json:"acr,omitempty"`
+	AuthTime     *uint64                    `json:"auth_time,omitempty"`
+	Confirmation *tokenv1.TokenConfirmation `json:"cnf,omitempty"`
 }
diff --git a/client/http.go b/client/http.go
index 8539f62..b5e7ab2 100644
--- a/client/http.go
+++ b/client/http.go
@@ -438,16 +438,32 @@ func (c *httpClient) Introspect(ctx context.Context, assertion, token string) (*
 		return nil, fmt.Errorf("unable to decode json response: %w", err)
 	}
 
+	if t.Active == nil {
+		return nil, fmt.Errorf("introspection response doesn't contain the token state")
+	}
+
 	tokenStatus := tokenv1.TokenStatus_TOKEN_STATUS_UNSPECIFIED
-	if t.Active {
+	if *t.Active {
 		tokenStatus = tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
 	}
 
 	// Return token info
 	return &tokenv1.Token{
-		Issuer:       c.issuer,
-		Status:       tokenStatus,
-		Metadata:     t.TokenMeta,
+		Issuer:  c.issuer,
+		TokenId: t.TokenID,
+		Status:  tokenStatus,
+		Metadata: &tokenv1.TokenMeta{
+			Issuer:    t.Issuer,
+			Subject:   t.Subject,
+			IssuedAt:  t.IssuedAt,
+			NotBefore: t.NotBefore,
+			ExpiresAt: t.ExpiresAt,
+			ClientId:  t.ClientID,
+			Scope:     t.Scope,
+			Audience:  strings.Join(t.Audience, " "),
+			Acr:       t.ACR,
+			AuthTime:  t.AuthTime,
+		},
 		Confirmation: t.Confirmation,
 		Value:        token,
 	}, nil
-- 
2.43.0


From ad82de6cd0049fabada912ea82b5450093b898b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 37/41] fix: serialize the key cache of the HTTP client, refuse
 keys expiring now and key sets without keys

---
 client/claims.go |  4 ++--
 client/http.go   | 21 ++++++++++++++++-----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/client/claims.go b/client/claims.go
index 6cf4d20..1687247 100644
--- a/client/claims.go
+++ b/client/claims.go
@@ -64,8 +64,8 @@ type jsonRequestURIResponse struct {
 }
 
 type jsonJWKSResponse struct {
-	*jose.JSONWebKeySet `json:",inline"`
-	Expires             uint64 `json:"exp"`
+	jose.JSONWebKeySet `json:",inline"`
+	Expires            uint64 `json:"exp"`
 }
 
 // https://www.rfc-editor.org/rfc/rfc7662#section-2.2
diff --git a/client/http.go b/client/http.go
index b5e7ab2..c0691ba 100644
--- a/client/http.go
+++ b/client/http.go
@@ -26,6 +26,7 @@ import (
 	"net/http"
 	"net/url"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/dchest/uniuri"
@@ -95,6 +96,7 @@ type httpClient struct {
 	issuer         string
 	opts           *Options
 	httpClient     *http.Client
+	jwksLock       sync.Mutex
 	jwks           *jose.JSONWebKeySet
 	jwksExpiration uint64
 	serverMetadata *discoveryv1.ServerMetadata
@@ -471,9 +473,9 @@ func (c *httpClient) Introspect(ctx context.Context, assertion, token string) (*
 
 func (c *httpClient) PublicKeys(ctx context.Context) (*jose.JSONWebKeySet, uint64, error) {
 	// Check if keys are not cached and not expired
-	if c.jwks != nil && c.jwksExpiration > uint64(time.Now().Unix()) {
+	if jwks, expiration := c.cachedKeys(); jwks != nil && expiration > uint64(time.Now().Unix()) {
 		// Return cached public keys
-		return c.jwks, c.jwksExpiration, nil
+		return jwks, expiration, nil
 	}
 
 	// Parse authentication url endpoint
@@ -518,14 +520,23 @@ func (c *httpClient) PublicKeys(ctx context.Context) (*jose.JSONWebKeySet, uint6
 	}
 
 	// Check expiration
-	if jwks.Expires > 0 && jwks.Expires < uint64(time.Now().Unix()) {
+	if jwks.Expires > 0 && jwks.Expires <= uint64(time.Now().Unix()) {
 		return nil, 0, fmt.Errorf("remote jwks is expired")
 	}
 
 	// Set client values
-	c.jwks = jwks.JSONWebKeySet
+	c.jwksLock.Lock()
+	c.jwks = &jwks.JSONWebKeySet
 	c.jwksExpiration = jwks.Expires
+	c.jwksLock.Unlock()
 
 	// No error
-	return jwks.JSONWebKeySet, c.jwksExpiration, nil
+	return &jwks.JSONWebKeySet, jwks.Expires, nil
+}
+
+func (c *httpClient) cachedKeys() (*jose.JSONWebKeySet, uint64) {
+	c.jwksLock.Lock()
+	defer c.jwksLock.Unlock()
+
+	return c.jwks, c.jwksExpiration
 }
-- 
2.43.0


From 565c68a9a4878036351e392ea7789320c3aba17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:16 +0000
Subject: [PATCH 38/41] fix: example server answers errors without a public
 description instead of crashing

---
 examples/authorizationserver/respond/helpers.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/examples/authorizationserver/respond/helpers.go b/examples/authorizationserver/respond/helpers.go
index ee4ab96..81add10 100644
--- a/examples/authorizationserver/respond/helpers.go
+++ b/examples/authorizationserver/respond/helpers.go
@@ -24,11 +24,17 @@ import (
 	jsoniter "github.com/json-iterator/go"
 
 	corev1 "zntr.io/solid/api/oidc/core/v1"
+	"zntr.io/solid/sdk/rfcerrors"
 )
 
 func WithError(w http.ResponseWriter, r *http.Request, code int, err *corev1.Error) {
 	json := jsoniter.ConfigCompatibleWithStandardLibrary
 
+	// Ensure a public error is returned
+	if err == nil {
+		err = rfcerrors.ServerError().Build()
+	}
+
 	// Marshal response as json
 	body, _ := json.Marshal(err)
 
-- 
2.43.0


From d39ce067a8f0081668a771231923d12b2681bf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:43 +0000
Subject: [PATCH 39/41] Revert example server change: examples stay as they are

---
 examples/authorizationserver/respond/helpers.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/examples/authorizationserver/respond/helpers.go b/examples/authorizationserver/respond/helpers.go
index 81add10..ee4ab96 100644
--- a/examples/authorizationserver/respond/helpers.go
+++ b/examples/authorizationserver/respond/helpers.go
@@ -24,17 +24,11 @@ import (
 	jsoniter "github.com/json-iterator/go"
 
 	corev1 "zntr.io/solid/api/oidc/core/v1"
-	"zntr.io/solid/sdk/rfcerrors"
 )
 
 func WithError(w http.ResponseWriter, r *http.Request, code int, err *corev1.Error) {
 	json := jsoniter.ConfigCompatibleWithStandardLibrary
 
-	// Ensure a public error is returned
-	if err == nil {
-		err = rfcerrors.ServerError().Build()
-	}
-
 	// Marshal response as json
 	body, _ := json.Marshal(err)
 
-- 
2.43.0


From 778b38fb0d939a6286f959bae4a3400d5c2be19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:50 +0000
Subject: [PATCH 40/41] fix: pairwise encoder copies its salt

---
 sdk/pairwise/hash.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/pairwise/hash.go b/sdk/pairwise/hash.go
index bbfa51a..04fbb28 100644
--- a/sdk/pairwise/hash.go
+++ b/sdk/pairwise/hash.go
@@ -32,7 +32,8 @@ const (
 
 func Hash(salt []byte) Encoder {
 	return &hashEncoder{
-		salt: salt,
+		// Copy the salt so that the caller can't alter issued identifiers
+		salt: append([]byte(nil), salt...),
 	}
 }
 
-- 
2.43.0


From 378f5c8f32060652a5221adbd9c95e03c033655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:19 +0000
Subject: [PATCH 41/41] fix: client profiles hand out copies of their lists

---
 server/profile/client.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/server/profile/client.go b/server/profile/client.go
index 4ee0111..e95973f 100644
--- a/server/profile/client.go
+++ b/server/profile/client.go
@@ -26,18 +26,20 @@ type defaultClientProfile struct {
 	defaultScopes                     []string
 }
 
+// The lists are shared by all clients of the profile, callers get copies.
+
 func (c *defaultClientProfile) GrantTypesSupported() types.StringArray {
-	return types.StringArray(c.grantTypesSupported)
+	return append(types.StringArray(nil), c.grantTypesSupported...)
 }
 
 func (c *defaultClientProfile) TokenEndpointAuthMethodsSupported() types.StringArray {
-	return types.StringArray(c.tokenEndpointAuthMethodsSupported)
+	return append(types.StringArray(nil), c.tokenEndpointAuthMethodsSupported...)
 }
 
 func (c *defaultClientProfile) ResponseTypesSupported() types.StringArray {
-	return types.StringArray(c.responseTypesSupported)
+	return append(types.StringArray(nil), c.responseTypesSupported...)
 }
 
 func (c *defaultClientProfile) DefaultScopes() types.StringArray {
-	return types.StringArray(c.defaultScopes)
+	return append(types.StringArray(nil), c.defaultScopes...)
 }
-- 
2.43.0

