From cc9064d758900cb449ed87a02f116549fd673856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:17 +0000
Subject: [PATCH 01/41] fix: bind authorization codes to the client they were
 issued to

The authorization_code grant never compared the client which redeems a code
with the client which started the authorization request.
---
 server/services/token/grant_authorization_code.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index 7502547..bfd9b38 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -124,6 +124,12 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 		return res, fmt.Errorf("unable to remove authorization session from code '%s': %w", grant.Code, err)
 	}
 
+	// Check client match
+	if ar.Request.ClientId != req.GetClient().GetClientId() {
+		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
+		return res, fmt.Errorf("invalid authorization request: code '%s' was not issued to the requesting client", grant.Code)
+	}
+
 	// Validate redirectUri
 	if ar.Request.RedirectUri != grant.RedirectUri {
 		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
-- 
2.43.0


From dabcf98cd35f102fe902da6ac9381698674e71d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:06 +0000
Subject: [PATCH 02/41] fix: consume authorization codes and pushed requests
 atomically

In-memory Delete reported success for entries which were already consumed, so
two concurrent redemptions of the same code (or request_uri) both succeeded.
Delete now returns storage.ErrNotFound to every caller but one, which the
services already map (request_uri) or now map (code) to a client error.
---
 .../services/token/grant_authorization_code.go   |  6 +++++-
 .../inmemory/authorization_code_session.go       | 16 ++++++++++++++--
 server/storage/inmemory/authorization_request.go | 16 ++++++++++++++--
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index bfd9b38..d4683a3 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -120,7 +120,11 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 	// Delete session
 	err = s.authorizationCodeSessions.Delete(ctx, req.Issuer, grant.Code)
 	if err != nil {
-		res.Error = rfcerrors.ServerError().Build()
+		if err != storage.ErrNotFound {
+			res.Error = rfcerrors.ServerError().Build()
+		} else {
+			res.Error = rfcerrors.InvalidGrant().Build()
+		}
 		return res, fmt.Errorf("unable to remove authorization session from code '%s': %w", grant.Code, err)
 	}
 
diff --git a/server/storage/inmemory/authorization_code_session.go b/server/storage/inmemory/authorization_code_session.go
index e0822e8..26025c4 100644
--- a/server/storage/inmemory/authorization_code_session.go
+++ b/server/storage/inmemory/authorization_code_session.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -30,7 +31,8 @@ import (
 )
 
 type sessionStorage struct {
-	backend *cache.Cache
+	backend  *cache.Cache
+	deleteMu sync.Mutex
 }
 
 // AuthorizationCodeSessions returns an authorization session manager.
@@ -54,7 +56,17 @@ func (s *sessionStorage) Register(ctx context.Context, issuer, code string, req
 }
 
 func (s *sessionStorage) Delete(ctx context.Context, issuer, code string) error {
-	s.backend.Delete(s.deriveKey(issuer, code))
+	key := s.deriveKey(issuer, code)
+
+	// Only one concurrent caller is allowed to consume the entry
+	s.deleteMu.Lock()
+	defer s.deleteMu.Unlock()
+
+	if _, found := s.backend.Get(key); !found {
+		return storage.ErrNotFound
+	}
+	s.backend.Delete(key)
+
 	// No error
 	return nil
 }
diff --git a/server/storage/inmemory/authorization_request.go b/server/storage/inmemory/authorization_request.go
index 6c24209..801222b 100644
--- a/server/storage/inmemory/authorization_request.go
+++ b/server/storage/inmemory/authorization_request.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -30,7 +31,8 @@ import (
 )
 
 type authorizationRequestStorage struct {
-	backend *cache.Cache
+	backend  *cache.Cache
+	deleteMu sync.Mutex
 }
 
 // AuthorizationRequests returns an authorization request manager.
@@ -54,7 +56,17 @@ func (s *authorizationRequestStorage) Register(ctx context.Context, issuer, requ
 }
 
 func (s *authorizationRequestStorage) Delete(ctx context.Context, issuer, requestURI string) error {
-	s.backend.Delete(s.deriveKey(issuer, requestURI))
+	key := s.deriveKey(issuer, requestURI)
+
+	// Only one concurrent caller is allowed to consume the entry
+	s.deleteMu.Lock()
+	defer s.deleteMu.Unlock()
+
+	if _, found := s.backend.Get(key); !found {
+		return storage.ErrNotFound
+	}
+	s.backend.Delete(key)
+
 	// No error
 	return nil
 }
-- 
2.43.0


From d6947822651bdca03527b76bee023577e404bee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:40 +0000
Subject: [PATCH 03/41] fix: register DPoP proofs atomically

Two concurrent verifications of the same proof could both observe it as unused
and both be accepted.
---
 server/storage/inmemory/proof.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/storage/inmemory/proof.go b/server/storage/inmemory/proof.go
index d22c3ba..e7bdedd 100644
--- a/server/storage/inmemory/proof.go
+++ b/server/storage/inmemory/proof.go
@@ -19,6 +19,7 @@ package inmemory
 
 import (
 	"context"
+	"fmt"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -43,8 +44,10 @@ func DPoPProofs() storage.DPoP {
 // -----------------------------------------------------------------------------
 
 func (s *proofCache) Register(ctx context.Context, id string) error {
-	// Insert in cache
-	s.backend.Set(id, id, cache.DefaultExpiration)
+	// Insert in cache, only one concurrent caller is allowed to register the proof
+	if err := s.backend.Add(id, id, cache.DefaultExpiration); err != nil {
+		return fmt.Errorf("proof is already registered: %w", err)
+	}
 	// No error
 	return nil
 }
-- 
2.43.0


From 377aa0dc2b39a085d1d456b620cabb415c29cb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:05 +0000
Subject: [PATCH 04/41] fix: refuse DPoP proofs without jti

A proof without identifier can't be tracked individually, RFC9449 makes jti
mandatory.
---
 sdk/dpop/verifier.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdk/dpop/verifier.go b/sdk/dpop/verifier.go
index aefb950..8012c8b 100644
--- a/sdk/dpop/verifier.go
+++ b/sdk/dpop/verifier.go
@@ -212,6 +212,11 @@ func (v *defaultVerifier) validateProofClaims(htm, htu string, claims *proofClai
 		return "", fmt.Errorf("claims must not be nil")
 	}
 
+	// Check proof identifier
+	if claims.JTI == "" {
+		return "", fmt.Errorf("invalid proof: jti must not be blank")
+	}
+
 	// Check http parameters
 	if claims.HTTPMethod != htm {
 		return "", fmt.Errorf("invalid proof: http method don't match, got:'%s', expected: '%s'", htm, claims.HTTPMethod)
-- 
2.43.0


From 887388973e774e6f3c075e6b32a12765fa1402f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:21 +0000
Subject: [PATCH 05/41] fix: make the device authorization flow reachable and
 approve a user code only once

Sessions were registered without a pending status nor an expiration, so a
user code could never be validated. The in-memory storage shared mutable
sessions and let concurrent validations overwrite each other.
---
 server/services/device/service.go             |  1 +
 .../storage/inmemory/device_code_session.go   | 56 +++++++++++++++----
 2 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/server/services/device/service.go b/server/services/device/service.go
index 51f2bff..a896eaa 100644
--- a/server/services/device/service.go
+++ b/server/services/device/service.go
@@ -113,6 +113,7 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.DeviceAuthorization
 		Scope:      req.Scope,
 		Audience:   req.Audience,
 		DeviceCode: deviceCode,
+		Status:     sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING,
 	}
 
 	// Store device code request
diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index 3f975f3..d309bbb 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -20,16 +20,22 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
 	"golang.org/x/crypto/blake2b"
+	"google.golang.org/protobuf/proto"
 
 	sessionv1 "zntr.io/solid/api/oidc/session/v1"
 	"zntr.io/solid/server/storage"
 )
 
+// deviceCodeExpiration defines the device authorization session lifetime.
+const deviceCodeExpiration = 2 * time.Minute
+
 type deviceCodeSessionStorage struct {
+	mu              sync.Mutex
 	userCodeIndex   *cache.Cache
 	deviceCodeIndex *cache.Cache
 }
@@ -37,8 +43,8 @@ type deviceCodeSessionStorage struct {
 // DeviceCodeSessions returns a device authorization session manager.
 func DeviceCodeSessions() storage.DeviceCodeSession {
 	// Initialize in-memory caches
-	userCodeCache := cache.New(2*time.Minute, 10*time.Minute)
-	deviceCodeCache := cache.New(2*time.Minute, 10*time.Minute)
+	userCodeCache := cache.New(deviceCodeExpiration, 10*time.Minute)
+	deviceCodeCache := cache.New(deviceCodeExpiration, 10*time.Minute)
 
 	return &deviceCodeSessionStorage{
 		userCodeIndex:   userCodeCache,
@@ -49,12 +55,19 @@ func DeviceCodeSessions() storage.DeviceCodeSession {
 // -----------------------------------------------------------------------------
 
 func (s *deviceCodeSessionStorage) Register(ctx context.Context, issuer, userCode string, req *sessionv1.DeviceCodeSession) (uint64, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	// Store a private copy bounded to the session lifetime
+	session := cloneDeviceCodeSession(req)
+	session.ExpiresAt = uint64(time.Now().Add(deviceCodeExpiration).Unix())
+
 	// Insert in cache
-	s.userCodeIndex.Set(s.deriveUserCode(req.Issuer, userCode), req, cache.DefaultExpiration)
-	s.deviceCodeIndex.Set(s.deriveDeviceCode(req.Issuer, req.DeviceCode), req, cache.DefaultExpiration)
+	s.userCodeIndex.Set(s.deriveUserCode(session.Issuer, userCode), session, cache.DefaultExpiration)
+	s.deviceCodeIndex.Set(s.deriveDeviceCode(session.Issuer, session.DeviceCode), session, cache.DefaultExpiration)
 
 	// No error
-	return uint64(120), nil
+	return uint64(deviceCodeExpiration / time.Second), nil
 }
 
 func (s *deviceCodeSessionStorage) Delete(ctx context.Context, issuer, code string) error {
@@ -66,8 +79,7 @@ func (s *deviceCodeSessionStorage) Delete(ctx context.Context, issuer, code stri
 func (s *deviceCodeSessionStorage) GetByDeviceCode(ctx context.Context, issuer, deviceCode string) (*sessionv1.DeviceCodeSession, error) {
 	// Retrieve from cache
 	if x, found := s.deviceCodeIndex.Get(s.deriveDeviceCode(issuer, deviceCode)); found {
-		req := x.(*sessionv1.DeviceCodeSession)
-		return req, nil
+		return cloneDeviceCodeSession(x.(*sessionv1.DeviceCodeSession)), nil
 	}
 
 	return nil, storage.ErrNotFound
@@ -76,17 +88,33 @@ func (s *deviceCodeSessionStorage) GetByDeviceCode(ctx context.Context, issuer,
 func (s *deviceCodeSessionStorage) GetByUserCode(ctx context.Context, issuer, userCode string) (*sessionv1.DeviceCodeSession, error) {
 	// Retrieve from cache
 	if x, found := s.userCodeIndex.Get(s.deriveUserCode(issuer, userCode)); found {
-		req := x.(*sessionv1.DeviceCodeSession)
-		return req, nil
+		return cloneDeviceCodeSession(x.(*sessionv1.DeviceCodeSession)), nil
 	}
 
 	return nil, storage.ErrNotFound
 }
 
 func (s *deviceCodeSessionStorage) Validate(ctx context.Context, issuer, userCode string, req *sessionv1.DeviceCodeSession) error {
-	// Insert in cache
-	s.userCodeIndex.Set(s.deriveUserCode(req.Issuer, userCode), req, cache.DefaultExpiration)
-	s.deviceCodeIndex.Set(s.deriveDeviceCode(req.Issuer, req.DeviceCode), req, cache.DefaultExpiration)
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	// Only a pending session can be validated, and only once
+	key := s.deriveUserCode(issuer, userCode)
+	x, expiration, found := s.userCodeIndex.GetWithExpiration(key)
+	if !found {
+		return storage.ErrNotFound
+	}
+	if x.(*sessionv1.DeviceCodeSession).Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING {
+		return fmt.Errorf("user_code is not pending an authorization")
+	}
+
+	// Update cache and preserve the original session lifetime
+	session, ttl := cloneDeviceCodeSession(req), time.Until(expiration)
+	if ttl <= 0 {
+		return storage.ErrNotFound
+	}
+	s.userCodeIndex.Set(key, session, ttl)
+	s.deviceCodeIndex.Set(s.deriveDeviceCode(issuer, session.DeviceCode), session, ttl)
 
 	// No error
 	return nil
@@ -121,3 +149,7 @@ func (s *deviceCodeSessionStorage) deriveDeviceCode(issuer, code string) string
 
 	return fmt.Sprintf("%x", h.Sum(nil))
 }
+
+func cloneDeviceCodeSession(s *sessionv1.DeviceCodeSession) *sessionv1.DeviceCodeSession {
+	return proto.Clone(s).(*sessionv1.DeviceCodeSession)
+}
-- 
2.43.0


From 4c2fc8cb320ca5a6c6615e81f395140d3c317696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:26 +0000
Subject: [PATCH 06/41] fix: keep the requested audience in tokens issued by
 the device flow

---
 server/services/token/grant_device_code.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/services/token/grant_device_code.go b/server/services/token/grant_device_code.go
index 5bff691..9c2e845 100644
--- a/server/services/token/grant_device_code.go
+++ b/server/services/token/grant_device_code.go
@@ -139,6 +139,9 @@ func (s *service) deviceCode(ctx context.Context, client *clientv1.Client, req *
 	if session.Scope != nil {
 		tm.Scope = *session.Scope
 	}
+	if session.Audience != nil {
+		tm.Audience = *session.Audience
+	}
 
 	// Generate access token
 	at, err := s.generateAccessToken(ctx, client, tm, req.TokenConfirmation)
-- 
2.43.0


From aaf7f99a9abea4670c35a18db240d47f54952b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:49 +0000
Subject: [PATCH 07/41] fix: exchanged tokens never exceed the subject token

The requested scope was not compared with the subject token scope, the
audience restriction was dropped, the issued token could outlive the
subject token, an unknown audience dereferenced a nil resource and server
side failures were reported without error.
---
 server/services/token/grant_token_exchange.go | 37 +++++++++++++++++--
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index 97abbd8..248c7d9 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -22,6 +22,7 @@ import (
 	"errors"
 	"fmt"
 	"net/url"
+	"strings"
 	"time"
 
 	"github.com/dchest/uniuri"
@@ -155,10 +156,19 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 	scope := st.Metadata.Scope
 	if req.Scope != nil {
 		scope = *req.Scope
+		if !isScopeSubset(scope, st.Metadata.Scope) {
+			res.Error = rfcerrors.InvalidScope().Build()
+			return fmt.Errorf("requested scope '%s' exceeds the subject_token scope", scope)
+		}
 	}
 
 	// Create access token spec
 	now := timeFunc()
+	expiresAt := uint64(now.Add(1 * time.Minute).Unix())
+	if expiresAt > st.Metadata.ExpiresAt {
+		// The issued token must not outlive the subject_token
+		expiresAt = st.Metadata.ExpiresAt
+	}
 	at := &tokenv1.Token{
 		TokenType: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN,
 		TokenId:   uniuri.NewLen(jtiLength),
@@ -167,8 +177,10 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 			Subject:   st.Metadata.Subject,
 			ClientId:  client.ClientId,
 			IssuedAt:  uint64(now.Unix()),
-			ExpiresAt: uint64(now.Add(1 * time.Minute).Unix()),
+			NotBefore: uint64(now.Unix() + 1),
+			ExpiresAt: expiresAt,
 			Scope:     scope,
+			Audience:  st.Metadata.Audience,
 		},
 		Confirmation: st.Confirmation,
 		Status:       tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,
@@ -177,10 +189,11 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 	// Add optional meta
 	if req.Audience != nil {
 		aud, err := s.resources.GetByURI(ctx, *req.Audience)
-		if err != nil && errors.Is(err, storage.ErrNotFound) {
+		if err != nil && !errors.Is(err, storage.ErrNotFound) {
+			res.Error = rfcerrors.ServerError().Build()
 			return fmt.Errorf("unable to validate audience: %w", err)
 		}
-		if errors.Is(err, storage.ErrNotFound) {
+		if err != nil || aud == nil {
 			res.Error = rfcerrors.InvalidTarget().Build()
 			return fmt.Errorf("audience '%s' not found", *req.Audience)
 		}
@@ -192,16 +205,19 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 	// Generate an access token
 	at.Value, err = s.accessTokenGen.Generate(ctx, at)
 	if err != nil {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("unable to generate an accessToken: %w", err)
 	}
 
 	// Check generator value
 	if at.Value == "" {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("accessTokenGenerator generated an empty value")
 	}
 
 	// Store the token spec
 	if err := s.tokens.Create(ctx, req.Issuer, at); err != nil {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("unable to register access token spec in token storage: %w", err)
 	}
 
@@ -218,3 +234,18 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 	// No error
 	return nil
 }
+
+// isScopeSubset returns true when all requested scope values are granted ones.
+func isScopeSubset(requested, granted string) bool {
+	grantedSet := map[string]struct{}{}
+	for _, s := range strings.Fields(granted) {
+		grantedSet[s] = struct{}{}
+	}
+	for _, s := range strings.Fields(requested) {
+		if _, ok := grantedSet[s]; !ok {
+			return false
+		}
+	}
+
+	return true
+}
-- 
2.43.0


From 743817d407cd2dec036976e8eac1b1db33ef4197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:59 +0000
Subject: [PATCH 08/41] fix: only the client a token was issued to can revoke
 it

---
 server/services/token/revoke.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/server/services/token/revoke.go b/server/services/token/revoke.go
index 8ec4a7c..1ed2ae9 100644
--- a/server/services/token/revoke.go
+++ b/server/services/token/revoke.go
@@ -55,7 +55,7 @@ func (s *service) Revoke(ctx context.Context, req *tokenv1.RevokeRequest) (*toke
 	}
 
 	// Retrieve client information
-	_, err = s.clients.Get(ctx, req.Client.ClientId)
+	client, err := s.clients.Get(ctx, req.Client.ClientId)
 	if err != nil {
 		if err != storage.ErrNotFound {
 			res.Error = rfcerrors.ServerError().Build()
@@ -71,6 +71,12 @@ func (s *service) Revoke(ctx context.Context, req *tokenv1.RevokeRequest) (*toke
 		return res, fmt.Errorf("unable to retrieve token '%s': %w", req.Token, err)
 	}
 
+	// Check client / token match
+	if t.GetMetadata().GetClientId() != client.GetClientId() {
+		res.Error = rfcerrors.InvalidGrant().Build()
+		return res, fmt.Errorf("only the token owner can revoke it")
+	}
+
 	// Update token status
 	if err := s.tokens.Revoke(ctx, req.Issuer, t.TokenId); err != nil {
 		return res, fmt.Errorf("unable to revoke token '%s': %w", req.Token, err)
-- 
2.43.0


From 57b72db6aba602641d12e6ea9c73902afafae3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:22 +0000
Subject: [PATCH 09/41] fix: bind authorization requests to the client of the
 authorization context

---
 server/services/authorization/service.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index 0270f37..12c87ed 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -121,6 +121,12 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.AuthorizeRequest) (
 		req.Request = ar
 	}
 
+	// Check request / client association
+	if req.Client != nil && req.Request.GetClientId() != req.Client.ClientId {
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("unable to process a request of another client")
+	}
+
 	// Delegate to real authorize process
 	publicErr, err := s.validate(ctx, req.Request)
 	if err != nil {
-- 
2.43.0


From 484a9b2be604699f9e158a3408f337d1e6e892b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 10/41] fix: generate request_uri values accepted by their own
 validator

---
 sdk/generator/request_uri.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/generator/request_uri.go b/sdk/generator/request_uri.go
index c20ec95..8a17c31 100644
--- a/sdk/generator/request_uri.go
+++ b/sdk/generator/request_uri.go
@@ -31,7 +31,7 @@ const (
 	DefaultRequestURILen = 32
 )
 
-var requestURIMatcher = regexp.MustCompile(`urn:solid:[A-Za-z0-9]{32}`)
+var requestURIMatcher = regexp.MustCompile(`^urn:solid:[A-Za-z0-9]{32}$`)
 
 // DefaultRequestURI returns the default request uri generator.
 func DefaultRequestURI() RequestURI {
@@ -44,7 +44,7 @@ type requestUriGenerator struct{}
 
 func (c *requestUriGenerator) Generate(_ context.Context, _ string) (string, error) {
 	code := uniuri.NewLen(DefaultRequestURILen)
-	return code, nil
+	return "urn:solid:" + code, nil
 }
 
 func (c *requestUriGenerator) Validate(_ context.Context, issuer, in string) error {
-- 
2.43.0


From bb9891aa907f9bd8602f9216e95f155de60c5dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:31 +0000
Subject: [PATCH 11/41] fix: compare redirect_uri with exact string matching

---
 server/services/authorization/service.go          | 3 ++-
 server/services/token/grant_authorization_code.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index 12c87ed..10993fe 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -21,6 +21,7 @@ import (
 	"context"
 	"fmt"
 	"net/url"
+	"slices"
 	"strings"
 
 	corev1 "zntr.io/solid/api/oidc/core/v1"
@@ -353,7 +354,7 @@ func (s *service) validateClientCapabilities(ctx context.Context, req *flowv1.Au
 	}
 
 	// Validate client response_types
-	if !types.StringArray(client.RedirectUris).Contains(req.RedirectUri) {
+	if !slices.Contains(client.RedirectUris, req.RedirectUri) {
 		return rfcerrors.InvalidRequest().State(req.State).Build(), fmt.Errorf("client doesn't support `%s` as redirect_uri type", req.RedirectUri)
 	}
 
diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index d4683a3..759b46a 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -23,6 +23,7 @@ import (
 	"encoding/base64"
 	"fmt"
 	"net/url"
+	"slices"
 	"strings"
 	"unicode/utf8"
 
@@ -139,7 +140,7 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
 		return res, fmt.Errorf("invalid authorization request: request_uri from request '%s' and token '%s' must be identic", ar.Request.RedirectUri, grant.RedirectUri)
 	}
-	if !types.StringArray(client.RedirectUris).Contains(grant.RedirectUri) {
+	if !slices.Contains(client.RedirectUris, grant.RedirectUri) {
 		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
 		return res, fmt.Errorf("invalid authorization request: request_uri from request '%s' and client '%s' must be validated", grant.RedirectUri, client.RedirectUris)
 	}
-- 
2.43.0


From 2a7c175bbb455f6ec9c9d7eaf06650f96e685bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:53 +0000
Subject: [PATCH 12/41] fix: remove every occurrence of an item from a string
 array

A duplicated offline_access scope survived the consent check and was
granted a refresh token.
---
 sdk/types/string_array.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/sdk/types/string_array.go b/sdk/types/string_array.go
index fa12e66..626cb1e 100644
--- a/sdk/types/string_array.go
+++ b/sdk/types/string_array.go
@@ -43,19 +43,15 @@ func (s *StringArray) AddIfNotContains(item string) {
 	*s = append(*s, item)
 }
 
-// Remove item from collection
+// Remove all occurrences of the item from collection
 func (s *StringArray) Remove(item string) {
-	idx := -1
-	for i, v := range *s {
-		if strings.EqualFold(item, v) {
-			idx = i
-			break
+	kept := (*s)[:0]
+	for _, v := range *s {
+		if !strings.EqualFold(item, v) {
+			kept = append(kept, v)
 		}
 	}
-	if idx < 0 {
-		return
-	}
-	*s = append((*s)[:idx], (*s)[idx+1:]...)
+	*s = kept
 }
 
 // HasOneOf returns true when one of provided items is found in array.
-- 
2.43.0


From 2ebdc4c93b2ecc73a6bc741288050e9ca2cf36ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:39 +0000
Subject: [PATCH 13/41] fix: derive unambiguous in-memory storage keys from the
 issuer and the value

Entries of an issuer were readable from another one when the concatenation
of both issuer and value was the same.
---
 .../inmemory/authorization_code_session.go    |  3 +-
 .../storage/inmemory/authorization_request.go |  3 +-
 .../storage/inmemory/device_code_session.go   |  6 ++--
 server/storage/inmemory/key.go                | 34 +++++++++++++++++++
 server/storage/inmemory/token.go              |  3 +-
 5 files changed, 39 insertions(+), 10 deletions(-)
 create mode 100644 server/storage/inmemory/key.go

diff --git a/server/storage/inmemory/authorization_code_session.go b/server/storage/inmemory/authorization_code_session.go
index 26025c4..23a0f50 100644
--- a/server/storage/inmemory/authorization_code_session.go
+++ b/server/storage/inmemory/authorization_code_session.go
@@ -91,8 +91,7 @@ func (s *sessionStorage) deriveKey(issuer, code string) string {
 	}
 
 	h.Write([]byte("solid:authorization-code-sessions:v1"))
-	h.Write([]byte(issuer))
-	h.Write([]byte(code))
+	writeKey(h, issuer, code)
 
 	return fmt.Sprintf("%x", h.Sum(nil))
 }
diff --git a/server/storage/inmemory/authorization_request.go b/server/storage/inmemory/authorization_request.go
index 801222b..c9b6ef8 100644
--- a/server/storage/inmemory/authorization_request.go
+++ b/server/storage/inmemory/authorization_request.go
@@ -91,8 +91,7 @@ func (s *authorizationRequestStorage) deriveKey(issuer, requestURI string) strin
 	}
 
 	h.Write([]byte("solid:authorization-requests:v1"))
-	h.Write([]byte(issuer))
-	h.Write([]byte(requestURI))
+	writeKey(h, issuer, requestURI)
 
 	return fmt.Sprintf("%x", h.Sum(nil))
 }
diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index d309bbb..7604347 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -130,8 +130,7 @@ func (s *deviceCodeSessionStorage) deriveUserCode(issuer, code string) string {
 	}
 
 	h.Write([]byte("solid:device-authorization-user-code:v1"))
-	h.Write([]byte(issuer))
-	h.Write([]byte(code))
+	writeKey(h, issuer, code)
 
 	return fmt.Sprintf("%x", h.Sum(nil))
 }
@@ -144,8 +143,7 @@ func (s *deviceCodeSessionStorage) deriveDeviceCode(issuer, code string) string
 	}
 
 	h.Write([]byte("solid:device-authorization-device-code:v1"))
-	h.Write([]byte(issuer))
-	h.Write([]byte(code))
+	writeKey(h, issuer, code)
 
 	return fmt.Sprintf("%x", h.Sum(nil))
 }
diff --git a/server/storage/inmemory/key.go b/server/storage/inmemory/key.go
new file mode 100644
index 0000000..da6ec4c
--- /dev/null
+++ b/server/storage/inmemory/key.go
@@ -0,0 +1,34 @@
+// Licensed to SolID under one or more contributor
+// license agreements. See the NOTICE file distributed with
+// this work for additional information regarding copyright
+// ownership. SolID licenses this file to you under
+// the Apache License, Version 2.0 (the "License"); you may
+// not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing,
+// software distributed under the License is distributed on an
+// "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF ANY
+// KIND, either express or implied.  See the License for the
+// specific language governing permissions and limitations
+// under the License.
+
+package inmemory
+
+import (
+	"encoding/binary"
+	"hash"
+)
+
+// writeKey writes length-prefixed parts so that two distinct sequences of parts
+// never produce the same storage key.
+func writeKey(h hash.Hash, parts ...string) {
+	var size [8]byte
+	for _, p := range parts {
+		binary.BigEndian.PutUint64(size[:], uint64(len(p)))
+		h.Write(size[:])
+		h.Write([]byte(p))
+	}
+}
diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index 6f9c93e..b0cca80 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -127,8 +127,7 @@ func (s *tokenStorage) deriveValue(issuer, value string) string {
 	}
 
 	h.Write([]byte("solid:token:v1"))
-	h.Write([]byte(issuer))
-	h.Write([]byte(value))
+	writeKey(h, issuer, value)
 
 	return fmt.Sprintf("%x", h.Sum(nil))
 }
-- 
2.43.0


From 15ee04e2396733d57669014ccb7789091d46b142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:02 +0000
Subject: [PATCH 14/41] fix: protect the in-memory client registry against
 concurrent access

---
 server/storage/inmemory/client.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/server/storage/inmemory/client.go b/server/storage/inmemory/client.go
index de66df2..9e25a29 100644
--- a/server/storage/inmemory/client.go
+++ b/server/storage/inmemory/client.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"strings"
+	"sync"
 
 	"github.com/dchest/uniuri"
 
@@ -29,6 +30,7 @@ import (
 )
 
 type clientStorage struct {
+	mu      sync.RWMutex
 	backend map[string]*clientv1.Client
 }
 
@@ -172,6 +174,9 @@ func Clients() storage.Client {
 // -----------------------------------------------------------------------------
 
 func (s *clientStorage) Get(ctx context.Context, id string) (*clientv1.Client, error) {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+
 	// Check is client exists
 	client, ok := s.backend[id]
 	if !ok {
@@ -183,6 +188,9 @@ func (s *clientStorage) Get(ctx context.Context, id string) (*clientv1.Client, e
 }
 
 func (s *clientStorage) GetByName(ctx context.Context, name string) (*clientv1.Client, error) {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+
 	// Iterate over bakend map
 	for _, c := range s.backend {
 		if strings.EqualFold(c.ClientName, name) {
@@ -197,6 +205,9 @@ func (s *clientStorage) GetByName(ctx context.Context, name string) (*clientv1.C
 // -----------------------------------------------------------------------------
 
 func (s *clientStorage) Register(ctx context.Context, c *clientv1.Client) (string, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// Assign client id
 	c.ClientId = uniuri.NewLen(16)
 
-- 
2.43.0


From 063177fd1957bd681e82b9e1a6fd742b63a26385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:48 +0000
Subject: [PATCH 15/41] fix: serialize in-memory token updates and rotate a
 refresh token only once

Readers shared the mutable stored token, and two concurrent rotations of
the same refresh token both succeeded.
---
 server/services/token/revoke.go  |  5 +++
 server/storage/inmemory/token.go | 75 +++++++++++++++++++++-----------
 2 files changed, 55 insertions(+), 25 deletions(-)

diff --git a/server/services/token/revoke.go b/server/services/token/revoke.go
index 1ed2ae9..56f50de 100644
--- a/server/services/token/revoke.go
+++ b/server/services/token/revoke.go
@@ -19,6 +19,7 @@ package token
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"net/url"
 
@@ -79,6 +80,10 @@ func (s *service) Revoke(ctx context.Context, req *tokenv1.RevokeRequest) (*toke
 
 	// Update token status
 	if err := s.tokens.Revoke(ctx, req.Issuer, t.TokenId); err != nil {
+		if errors.Is(err, storage.ErrNotFound) {
+			// The token has already been revoked
+			return res, nil
+		}
 		return res, fmt.Errorf("unable to revoke token '%s': %w", req.Token, err)
 	}
 
diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index b0cca80..eb33735 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -30,15 +30,16 @@ import (
 )
 
 type tokenStorage struct {
-	idIndex    sync.Map
-	valueIndex sync.Map
+	mu         sync.RWMutex
+	idIndex    map[string]*tokenv1.Token
+	valueIndex map[string]*tokenv1.Token
 }
 
 // Tokens returns a token manager.
 func Tokens() storage.Token {
 	return &tokenStorage{
-		idIndex:    sync.Map{},
-		valueIndex: sync.Map{},
+		idIndex:    map[string]*tokenv1.Token{},
+		valueIndex: map[string]*tokenv1.Token{},
 	}
 }
 
@@ -56,69 +57,93 @@ func (s *tokenStorage) Create(ctx context.Context, issuer string, t *tokenv1.Tok
 	// Compute token value hash
 	tCopy.Value = s.deriveValue(issuer, tCopy.Value)
 
-	s.idIndex.Store(tCopy.TokenId, tCopy)
-	s.valueIndex.Store(tCopy.Value, tCopy)
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	s.idIndex[s.deriveID(issuer, tCopy.TokenId)] = tCopy
+	s.valueIndex[tCopy.Value] = tCopy
 
 	// No error
 	return nil
 }
 
 func (s *tokenStorage) Get(ctx context.Context, issuer, id string) (*tokenv1.Token, error) {
-	// Check is client exists
-	client, ok := s.idIndex.Load(id)
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+
+	// Check is token exists
+	t, ok := s.idIndex[s.deriveID(issuer, id)]
 	if !ok {
 		return nil, storage.ErrNotFound
 	}
 
 	// No error
-	return client.(*tokenv1.Token), nil
+	return proto.Clone(t).(*tokenv1.Token), nil
 }
 
 func (s *tokenStorage) GetByValue(ctx context.Context, issuer, value string) (*tokenv1.Token, error) {
-	// Check is client exists
-	client, ok := s.valueIndex.Load(s.deriveValue(issuer, value))
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+
+	// Check is token exists
+	t, ok := s.valueIndex[s.deriveValue(issuer, value)]
 	if !ok {
 		return nil, storage.ErrNotFound
 	}
 
 	// No error
-	return client.(*tokenv1.Token), nil
+	return proto.Clone(t).(*tokenv1.Token), nil
 }
 
 func (s *tokenStorage) Delete(ctx context.Context, issuer, id string) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// Retrieve token
-	t, err := s.Get(ctx, issuer, id)
-	if err != nil {
-		return err
+	key := s.deriveID(issuer, id)
+	t, ok := s.idIndex[key]
+	if !ok {
+		return storage.ErrNotFound
 	}
 
-	s.idIndex.Delete(t.TokenId)
-	s.valueIndex.Delete(t.Value)
+	delete(s.idIndex, key)
+	delete(s.valueIndex, t.Value)
 
 	// No error
 	return nil
 }
 
 func (s *tokenStorage) Revoke(ctx context.Context, issuer, id string) error {
-	// Retrieve token
-	t, err := s.Get(ctx, issuer, id)
-	if err != nil {
-		return err
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	// Retrieve token, a token can be revoked only once
+	t, ok := s.idIndex[s.deriveID(issuer, id)]
+	if !ok || t.Status == tokenv1.TokenStatus_TOKEN_STATUS_REVOKED {
+		return storage.ErrNotFound
 	}
 
 	// Set as revoked
 	t.Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
 
-	// Update maps
-	s.idIndex.Store(t.TokenId, t)
-	s.valueIndex.Store(t.Value, t)
-
 	// No error
 	return nil
 }
 
 // -----------------------------------------------------------------------------
 
+func (s *tokenStorage) deriveID(issuer, id string) string {
+	// Create hasher
+	h, err := blake2b.New256(nil)
+	if err != nil {
+		panic(err)
+	}
+
+	writeKey(h, "solid:token-id:v1", issuer, id)
+
+	return fmt.Sprintf("%x", h.Sum(nil))
+}
+
 func (s *tokenStorage) deriveValue(issuer, value string) string {
 	// Create hasher
 	h, err := blake2b.New256([]byte(`%JwQL_C=w^R@9?{J,=;LHe=&n0L1P{QrS=MsA}7H]V3fHd8&$noL&"hZH;&Uw)3`))
-- 
2.43.0


From ab4c6940818d10f960d01b04355b070a467c93f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:43 +0000
Subject: [PATCH 16/41] fix: emit the +jwt token type expected by the decoders

DPoP proofs, JARM responses and request objects signed by the SDK were
refused by the SDK verifiers.
---
 sdk/token/jwt/signer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/token/jwt/signer.go b/sdk/token/jwt/signer.go
index 822e031..7447549 100644
--- a/sdk/token/jwt/signer.go
+++ b/sdk/token/jwt/signer.go
@@ -59,7 +59,7 @@ func (ds *defaultSigner) Serialize(ctx context.Context, claims any) (string, err
 		return "", fmt.Errorf("key provider returned a unidentifiable key")
 	}
 	// Prepare JWT header
-	options := (&jose.SignerOptions{}).WithType(jose.ContentType(ds.tokenType))
+	options := (&jose.SignerOptions{}).WithType(jose.ContentType(ds.tokenType + "+jwt"))
 	options = options.WithHeader(jose.HeaderKey("kid"), key.KeyID)
 	options.EmbedJWK = ds.embedJWK
 
-- 
2.43.0


From 2e19714b9b5c59403c3b7695bb9cdf9b099a4d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:28 +0000
Subject: [PATCH 17/41] fix: protect JARM error responses and use the issuer
 given to the encoder

The issuer argument was ignored, error responses carried neither issuer,
audience nor expiration and lost their state when decoded.
---
 sdk/jarm/decoder.go | 12 ++++++++++++
 sdk/jarm/encoder.go |  8 +++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/sdk/jarm/decoder.go b/sdk/jarm/decoder.go
index d6b3932..60003fa 100644
--- a/sdk/jarm/decoder.go
+++ b/sdk/jarm/decoder.go
@@ -94,11 +94,23 @@ func (d *tokenDecoder) Decode(ctx context.Context, audience, response string) (*
 
 	// Decode claims
 	if claims.HasError() {
+		// Issuer, audience and expiration are optional for an error response but
+		// must be valid when given.
+		if (claims.Issuer != "" && claims.Issuer != d.issuer) ||
+			(claims.Audience != "" && claims.Audience != audience) ||
+			(claims.ExpiresAt != 0 && claims.ExpiresAt < uint64(time.Now().Unix())) {
+			return &flowv1.AuthorizeResponse{
+				Error: rfcerrors.InvalidToken().Build(),
+			}, fmt.Errorf("invalid error response token, issuer, audience or expiration does not match expectations")
+		}
+
 		return &flowv1.AuthorizeResponse{
 			Error: &corev1.Error{
 				Err:              claims.Error,
 				ErrorDescription: claims.ErrorDescription,
 			},
+			State:  claims.State,
+			Issuer: claims.Issuer,
 		}, nil
 	}
 
diff --git a/sdk/jarm/encoder.go b/sdk/jarm/encoder.go
index 7c853c5..222ed53 100644
--- a/sdk/jarm/encoder.go
+++ b/sdk/jarm/encoder.go
@@ -26,6 +26,9 @@ import (
 	"zntr.io/solid/sdk/token"
 )
 
+// errorResponseExpiration defines the lifetime of an error response.
+const errorResponseExpiration = 1 * time.Minute
+
 // -----------------------------------------------------------------------------
 
 // Encoder builds a Response Mode encoder instance.
@@ -53,6 +56,9 @@ func (d *tokenEncoder) Encode(ctx context.Context, issuer string, resp *flowv1.A
 	if resp.Error != nil {
 		claims = &responseClaims{
 			State:            resp.State,
+			Issuer:           issuer,
+			Audience:         resp.ClientId,
+			ExpiresAt:        uint64(time.Now().Add(errorResponseExpiration).Unix()),
 			Error:            resp.Error.Err,
 			ErrorDescription: resp.Error.ErrorDescription,
 		}
@@ -73,7 +79,7 @@ func (d *tokenEncoder) Encode(ctx context.Context, issuer string, resp *flowv1.A
 
 		claims = &responseClaims{
 			State:     resp.State,
-			Issuer:    resp.Issuer,
+			Issuer:    issuer,
 			Audience:  resp.ClientId,
 			Code:      resp.Code,
 			ExpiresAt: uint64(time.Now().Add(time.Duration(resp.ExpiresIn) * time.Second).Unix()),
-- 
2.43.0


From 1abeaa36caace4622f190c8ad120bf15457408d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:50 +0000
Subject: [PATCH 18/41] fix: return the requested response_mode in the
 authorization response

---
 server/services/authorization/service.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index 10993fe..fa18822 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -159,6 +159,10 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.AuthorizeRequest) (
 	res.State = req.Request.State
 	// Assign redirectUri to response
 	res.RedirectUri = req.Request.RedirectUri
+	// Assign response mode to response
+	if req.Request.ResponseMode != nil {
+		res.ResponseMode = *req.Request.ResponseMode
+	}
 	// Assign client
 	res.ClientId = req.Request.ClientId
 	// Assign expiration
-- 
2.43.0


From fa578c401ce046ecaf578cdc409ce8d8b0030617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:38 +0000
Subject: [PATCH 19/41] fix: a client attestation authenticates the attested
 client only

The proof of possession issuer selected the authenticated client without
being compared with the attestation subject, and incomplete inputs
dereferenced nil values.
---
 .../client_attestation.go                     | 35 +++++++++++++------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/server/clientauthentication/client_attestation.go b/server/clientauthentication/client_attestation.go
index be1662a..7474f10 100644
--- a/server/clientauthentication/client_attestation.go
+++ b/server/clientauthentication/client_attestation.go
@@ -58,6 +58,12 @@ type clientAttestationPOPClaims struct {
 func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req *clientv1.AuthenticateRequest) (*clientv1.AuthenticateResponse, error) {
 	res := &clientv1.AuthenticateResponse{}
 
+	// Validate request
+	if req == nil {
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("unable to process nil request")
+	}
+
 	// Validate required fields for this authentication method
 	if req.ClientAssertionType == nil {
 		res.Error = rfcerrors.InvalidRequest().Build()
@@ -84,7 +90,7 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 	}
 
 	// Decode assertions without validation first
-	clientPublicKey, err := p.validateClientAttestation(ctx, assertions[0])
+	attestation, err := p.validateClientAttestation(ctx, assertions[0])
 	if err != nil {
 		res.Error = rfcerrors.UnauthorizedClient().Build()
 		return res, errors.New("invalid client attestation")
@@ -99,20 +105,29 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 
 	// Try to validate PoP with public key.
 	var claims clientAttestationPOPClaims
-	if err := rawPoP.Claims(clientPublicKey, &claims); err != nil {
+	if err := rawPoP.Claims(attestation.Confirmation.JWK, &claims); err != nil {
 		res.Error = rfcerrors.UnauthorizedClient().Build()
-		return nil, fmt.Errorf("client attestation PoP is invalid: %w", err)
+		return res, fmt.Errorf("client attestation PoP is invalid: %w", err)
 	}
 
 	// Validate claims
 	if claims.Issuer == "" || claims.Expires == 0 || claims.JTI == "" || claims.Audience == "" {
-		return nil, fmt.Errorf("iss, exp, jti, aud are mandatory and not empty")
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("iss, exp, jti, aud are mandatory and not empty")
 	}
 	if claims.Expires < uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("expired token")
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("expired token")
 	}
 	if claims.NotBefore > uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("not useable token")
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("not useable token")
+	}
+
+	// Only the attested client can use the attestation
+	if claims.Issuer != attestation.Subject {
+		res.Error = rfcerrors.UnauthorizedClient().Build()
+		return res, errors.New("client attestation PoP issuer is not the attested client")
 	}
 
 	// Check client in storage
@@ -134,7 +149,7 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 
 // -----------------------------------------------------------------------------
 
-func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.Context, clientAttestation string) (*jose.JSONWebKey, error) {
+func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.Context, clientAttestation string) (*clientAttestationClaims, error) {
 	// Parse attestation without cryptogrpahic verification first
 	rawAttestation, err := jose.ParseSigned(clientAttestation, p.supportedAlgorithms)
 	if err != nil {
@@ -148,7 +163,7 @@ func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.
 	}
 
 	// Validate claims
-	if claims.Issuer == "" || claims.Subject == "" || claims.Expires == 0 || claims.Confirmation == nil {
+	if claims.Issuer == "" || claims.Subject == "" || claims.Expires == 0 || claims.Confirmation == nil || claims.Confirmation.JWK == nil {
 		return nil, fmt.Errorf("iss, sub, exp, cnf are mandatory and not empty")
 	}
 	if claims.Expires < uint64(time.Now().Unix()) {
@@ -183,6 +198,6 @@ func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.
 		return nil, fmt.Errorf("client assertion is invalid: %w", err)
 	}
 
-	// Extract client public key
-	return claims.Confirmation.JWK, nil
+	// Attestation is valid
+	return &claims, nil
 }
-- 
2.43.0


From d004455747a51bc3c335d297c1d414e1cd7a17b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:16 +0000
Subject: [PATCH 20/41] fix: enforce the sender constraint of refresh tokens

A refresh token bound to a DPoP key was accepted without any proof of
possession and its JWT form omitted the confirmation claim.
---
 sdk/token/refresh_token.go                   | 6 ++++++
 server/services/token/grant_refresh_token.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/sdk/token/refresh_token.go b/sdk/token/refresh_token.go
index 760fc88..3a4fe7d 100644
--- a/sdk/token/refresh_token.go
+++ b/sdk/token/refresh_token.go
@@ -88,6 +88,12 @@ func (c *refreshTokenGenerator) Generate(ctx context.Context, t *tokenv1.Token)
 		Scope:    t.Metadata.Scope,
 	}
 
+	// If token has a confirmation
+	if t.Confirmation != nil {
+		// Add jwt key token proof
+		claims.Cnf = t.Confirmation
+	}
+
 	// Sign the assertion
 	raw, err := c.signer.Serialize(ctx, claims)
 	if err != nil {
diff --git a/server/services/token/grant_refresh_token.go b/server/services/token/grant_refresh_token.go
index 79f98d9..a0ef401 100644
--- a/server/services/token/grant_refresh_token.go
+++ b/server/services/token/grant_refresh_token.go
@@ -110,6 +110,12 @@ func (s *service) refreshToken(ctx context.Context, client *clientv1.Client, req
 		return res, fmt.Errorf("only requestor client must use the refresh_token")
 	}
 
+	// Check sender constraint
+	if rt.Confirmation != nil && rt.Confirmation.Jkt != req.TokenConfirmation.GetJkt() {
+		res.Error = rfcerrors.InvalidDPoPProof().Build()
+		return res, fmt.Errorf("refresh_token is bound to another key")
+	}
+
 	// Generate access token
 	at, err := s.generateAccessToken(ctx, client, rt.Metadata, rt.Confirmation)
 	if err != nil {
-- 
2.43.0


From f5df9f7a2896cd657f9c823a137c22c6e27b4c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:48 +0000
Subject: [PATCH 21/41] fix: refuse non canonical verifiable UUID tokens

Oversized values panicked during the extraction and a zero padded
signature gave a second valid token.
---
 sdk/token/verifiable/helpers.go | 4 ++++
 sdk/token/verifiable/uuid.go    | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/sdk/token/verifiable/helpers.go b/sdk/token/verifiable/helpers.go
index bbe431d..c21f82e 100644
--- a/sdk/token/verifiable/helpers.go
+++ b/sdk/token/verifiable/helpers.go
@@ -31,5 +31,9 @@ func parsePaddedBase62(s string, length int) ([]byte, error) {
 		return []byte{}, fmt.Errorf("cannot parse base62: %q", s)
 	}
 
+	if i.BitLen() > 8*length {
+		return []byte{}, fmt.Errorf("base62 value is too large: %q", s)
+	}
+
 	return i.FillBytes(out), nil
 }
diff --git a/sdk/token/verifiable/uuid.go b/sdk/token/verifiable/uuid.go
index 50dce15..10b02f7 100644
--- a/sdk/token/verifiable/uuid.go
+++ b/sdk/token/verifiable/uuid.go
@@ -170,6 +170,11 @@ func (vu *uuidGenerator) Extract(in string) ([]byte, error) {
 		return nil, errors.New("invalid token syntax")
 	}
 
+	// Only the canonical encoding is accepted
+	if parts[0] != toPaddedBase62(uuid, 22) || parts[1] != toPaddedBase62(sig, 59) {
+		return nil, errors.New("invalid token syntax")
+	}
+
 	// Derive a signature key to prevent direct secret key usages which could
 	// threaten all generated tokens in the potential case of a secret leak.
 	var authKey [32]byte
-- 
2.43.0


From f775e111d638fef75d9b3ff422d6b0ade1946fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:30 +0000
Subject: [PATCH 22/41] fix: compare the PKCE challenge with the verifier hash

---
 sdk/pkce/verifier.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/sdk/pkce/verifier.go b/sdk/pkce/verifier.go
index b5d7857..90ef24b 100644
--- a/sdk/pkce/verifier.go
+++ b/sdk/pkce/verifier.go
@@ -59,19 +59,17 @@ func Validate(challenge, verifier string) (bool, error) {
 		return false, fmt.Errorf("verifier must not be blank")
 	}
 
-	// Decode values
-	chRaw, err := base64.RawURLEncoding.DecodeString(challenge)
-	if err != nil {
+	// Check challenge format
+	if _, err := base64.RawURLEncoding.DecodeString(challenge); err != nil {
 		return false, fmt.Errorf("invalid challenge format: %w", err)
 	}
 
-	verRaw, err := base64.RawURLEncoding.DecodeString(verifier)
-	if err != nil {
-		return false, fmt.Errorf("invalid verifier format: %w", err)
-	}
+	// Compute and encode challenge
+	hash := sha256.Sum256([]byte(verifier))
+	expected := base64.RawURLEncoding.EncodeToString(hash[:])
 
 	// Compare values
-	same := types.SecureCompare(chRaw, verRaw)
+	same := types.SecureCompareString(challenge, expected)
 
 	// No error
 	return same, nil
-- 
2.43.0


From c51bd26b3d59553c23ae7a2a91dd9adfa8ed1e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:52 +0000
Subject: [PATCH 23/41] fix: refuse tokens without embedded key instead of
 dereferencing nil

---
 sdk/token/jwt/embedded_verifier.go | 3 +++
 sdk/token/jwt/token_adapter.go     | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/sdk/token/jwt/embedded_verifier.go b/sdk/token/jwt/embedded_verifier.go
index b0e88dc..97245d2 100644
--- a/sdk/token/jwt/embedded_verifier.go
+++ b/sdk/token/jwt/embedded_verifier.go
@@ -94,6 +94,9 @@ func (v *embeddedKeyVerifier) Claims(ctx context.Context, raw string, claims any
 
 	// Get embedded key.
 	embeddedJwk := t.Headers[0].JSONWebKey
+	if embeddedJwk == nil {
+		return errors.New("token has no embedded public key")
+	}
 
 	// Try to verify with current key
 	if err := t.Claims(embeddedJwk, claims); err != nil {
diff --git a/sdk/token/jwt/token_adapter.go b/sdk/token/jwt/token_adapter.go
index 962f65f..1235a82 100644
--- a/sdk/token/jwt/token_adapter.go
+++ b/sdk/token/jwt/token_adapter.go
@@ -60,6 +60,10 @@ func (tw *tokenAdapter) PublicKeyThumbPrint() (string, error) {
 		return "", fmt.Errorf("unable to retrieve embededded jwk from header")
 	}
 
+	if tw.token.Headers[0].JSONWebKey == nil {
+		return "", fmt.Errorf("unable to retrieve embededded jwk from header")
+	}
+
 	// Generate thumbprint
 	h, err := tw.token.Headers[0].JSONWebKey.Thumbprint(crypto.SHA256)
 	if err != nil {
-- 
2.43.0


From 3895b1b80017f135f6e5c6a033aba700aa76c00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:24 +0000
Subject: [PATCH 24/41] fix: set the client as subject of client_credentials
 tokens

Structured access token generators refuse a token without subject, so the
grant always failed with them.
---
 server/services/token/grant_client_credentials.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/services/token/grant_client_credentials.go b/server/services/token/grant_client_credentials.go
index 97fc7ec..0beb3a2 100644
--- a/server/services/token/grant_client_credentials.go
+++ b/server/services/token/grant_client_credentials.go
@@ -78,7 +78,8 @@ func (s *service) clientCredentials(ctx context.Context, client *clientv1.Client
 
 	// Prepare token
 	tokenMeta := &tokenv1.TokenMeta{
-		Issuer: req.Issuer,
+		Issuer:  req.Issuer,
+		Subject: client.ClientId,
 	}
 	if req.Scope != nil {
 		tokenMeta.Scope = *req.Scope
-- 
2.43.0


From bdff872edb8c5561ed672124e9e1176b93f92188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:53 +0000
Subject: [PATCH 25/41] fix: return the token attributes of the introspection
 response

---
 client/claims.go | 32 ++++++++++++++++++++++++++++++++
 client/http.go   |  3 ++-
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/client/claims.go b/client/claims.go
index f00bd7d..ab58d12 100644
--- a/client/claims.go
+++ b/client/claims.go
@@ -18,7 +18,10 @@
 package client
 
 import (
+	"strings"
+
 	"github.com/go-jose/go-jose/v4"
+	"github.com/go-jose/go-jose/v4/jwt"
 
 	tokenv1 "zntr.io/solid/api/oidc/token/v1"
 )
@@ -64,4 +67,33 @@ type jsonTokenIntrospectionResponse struct {
 	*tokenv1.TokenMeta `json:",inline"`
 	Active             bool                       `json:"active"`
 	Confirmation       *tokenv1.TokenConfirmation `json:"cnf,omitempty"`
+
+	// https://www.rfc-editor.org/rfc/rfc7662#section-2.2
+	Issuer    string       `json:"iss,omitempty"`
+	Subject   string       `json:"sub,omitempty"`
+	Audience  jwt.Audience `json:"aud,omitempty"`
+	IssuedAt  uint64       `json:"iat,omitempty"`
+	NotBefore uint64       `json:"nbf,omitempty"`
+	ExpiresAt uint64       `json:"exp,omitempty"`
+	TokenID   string       `json:"jti,omitempty"`
+}
+
+// Metadata returns the token metadata with the attributes returned by the server.
+func (r *jsonTokenIntrospectionResponse) Metadata() *tokenv1.TokenMeta {
+	if !r.Active {
+		return r.TokenMeta
+	}
+
+	meta := r.TokenMeta
+	if meta == nil {
+		meta = &tokenv1.TokenMeta{}
+	}
+	meta.Issuer = r.Issuer
+	meta.Subject = r.Subject
+	meta.Audience = strings.Join(r.Audience, " ")
+	meta.IssuedAt = r.IssuedAt
+	meta.NotBefore = r.NotBefore
+	meta.ExpiresAt = r.ExpiresAt
+
+	return meta
 }
diff --git a/client/http.go b/client/http.go
index a67df99..4acae97 100644
--- a/client/http.go
+++ b/client/http.go
@@ -421,7 +421,8 @@ func (c *httpClient) Introspect(ctx context.Context, assertion, token string) (*
 	return &tokenv1.Token{
 		Issuer:       c.issuer,
 		Status:       tokenStatus,
-		Metadata:     t.TokenMeta,
+		TokenId:      t.TokenID,
+		Metadata:     t.Metadata(),
 		Confirmation: t.Confirmation,
 		Value:        token,
 	}, nil
-- 
2.43.0


From 424b669919530ac4da8e238ee753480b9490e608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:31 +0000
Subject: [PATCH 26/41] fix: do not expose the internal lists of the server
 profile

---
 server/profile/client.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/server/profile/client.go b/server/profile/client.go
index 4ee0111..4b4e736 100644
--- a/server/profile/client.go
+++ b/server/profile/client.go
@@ -17,7 +17,11 @@
 
 package profile
 
-import "zntr.io/solid/sdk/types"
+import (
+	"slices"
+
+	"zntr.io/solid/sdk/types"
+)
 
 type defaultClientProfile struct {
 	grantTypesSupported               []string
@@ -27,17 +31,17 @@ type defaultClientProfile struct {
 }
 
 func (c *defaultClientProfile) GrantTypesSupported() types.StringArray {
-	return types.StringArray(c.grantTypesSupported)
+	return types.StringArray(slices.Clone(c.grantTypesSupported))
 }
 
 func (c *defaultClientProfile) TokenEndpointAuthMethodsSupported() types.StringArray {
-	return types.StringArray(c.tokenEndpointAuthMethodsSupported)
+	return types.StringArray(slices.Clone(c.tokenEndpointAuthMethodsSupported))
 }
 
 func (c *defaultClientProfile) ResponseTypesSupported() types.StringArray {
-	return types.StringArray(c.responseTypesSupported)
+	return types.StringArray(slices.Clone(c.responseTypesSupported))
 }
 
 func (c *defaultClientProfile) DefaultScopes() types.StringArray {
-	return types.StringArray(c.defaultScopes)
+	return types.StringArray(slices.Clone(c.defaultScopes))
 }
-- 
2.43.0


From ed81f4066fff01aaa89c7b6c86038230b6b753bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:03 +0000
Subject: [PATCH 27/41] fix: decode the introspection response without the
 promoted decoder of its metadata

---
 client/claims.go | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/client/claims.go b/client/claims.go
index ab58d12..41e14db 100644
--- a/client/claims.go
+++ b/client/claims.go
@@ -64,14 +64,15 @@ type jsonJWKSResponse struct {
 }
 
 type jsonTokenIntrospectionResponse struct {
-	*tokenv1.TokenMeta `json:",inline"`
-	Active             bool                       `json:"active"`
-	Confirmation       *tokenv1.TokenConfirmation `json:"cnf,omitempty"`
+	Active       bool                       `json:"active"`
+	Confirmation *tokenv1.TokenConfirmation `json:"cnf,omitempty"`
 
 	// https://www.rfc-editor.org/rfc/rfc7662#section-2.2
 	Issuer    string       `json:"iss,omitempty"`
 	Subject   string       `json:"sub,omitempty"`
 	Audience  jwt.Audience `json:"aud,omitempty"`
+	ClientID  string       `json:"client_id,omitempty"`
+	Scope     string       `json:"scope,omitempty"`
 	IssuedAt  uint64       `json:"iat,omitempty"`
 	NotBefore uint64       `json:"nbf,omitempty"`
 	ExpiresAt uint64       `json:"exp,omitempty"`
@@ -80,20 +81,14 @@ type jsonTokenIntrospectionResponse struct {
 
 // Metadata returns the token metadata with the attributes returned by the server.
 func (r *jsonTokenIntrospectionResponse) Metadata() *tokenv1.TokenMeta {
-	if !r.Active {
-		return r.TokenMeta
+	return &tokenv1.TokenMeta{
+		Issuer:    r.Issuer,
+		Subject:   r.Subject,
+		Audience:  strings.Join(r.Audience, " "),
+		ClientId:  r.ClientID,
+		Scope:     r.Scope,
+		IssuedAt:  r.IssuedAt,
+		NotBefore: r.NotBefore,
+		ExpiresAt: r.ExpiresAt,
 	}
-
-	meta := r.TokenMeta
-	if meta == nil {
-		meta = &tokenv1.TokenMeta{}
-	}
-	meta.Issuer = r.Issuer
-	meta.Subject = r.Subject
-	meta.Audience = strings.Join(r.Audience, " ")
-	meta.IssuedAt = r.IssuedAt
-	meta.NotBefore = r.NotBefore
-	meta.ExpiresAt = r.ExpiresAt
-
-	return meta
 }
-- 
2.43.0


From 071803a05a9ba29891e8e897d370eb45671482cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:03 +0000
Subject: [PATCH 28/41] fix: refuse a key set answer without keys instead of
 dereferencing nil

---
 client/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/http.go b/client/http.go
index 4acae97..dd192bd 100644
--- a/client/http.go
+++ b/client/http.go
@@ -470,7 +470,7 @@ func (c *httpClient) PublicKeys(ctx context.Context) (*jose.JSONWebKeySet, uint6
 	}
 
 	// Check keys
-	if len(jwks.Keys) == 0 {
+	if jwks.JSONWebKeySet == nil || len(jwks.Keys) == 0 {
 		return nil, 0, fmt.Errorf("remote jwks doesn't contain keys")
 	}
 
-- 
2.43.0


From 8f1d678835f4f1b8f81710a6fe8aa7e9c29438a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:06 +0000
Subject: [PATCH 29/41] fix: refuse empty server metadata instead of
 dereferencing nil

---
 client/http.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/http.go b/client/http.go
index dd192bd..b16ee30 100644
--- a/client/http.go
+++ b/client/http.go
@@ -20,6 +20,7 @@ package client
 import (
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -66,6 +67,9 @@ func HTTP(ctx context.Context, issuer string, opts *Options) (Client, error) {
 	if err := json.NewDecoder(response.Body).Decode(&c.serverMetadata); err != nil {
 		return nil, fmt.Errorf("unable to decode server metadata: %w", err)
 	}
+	if c.serverMetadata == nil {
+		return nil, errors.New("server metadata are empty")
+	}
 
 	// Retrieve public keys
 	if _, _, err := c.PublicKeys(ctx); err != nil {
-- 
2.43.0


From ef033e2d758520f613949153ea4f1b9d49331c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:21 +0000
Subject: [PATCH 30/41] fix: make the in-memory device code sessions
 linearizable

A deletion of a user code concurrent with its validation could be lost, and a
lookup could observe a registration or a validation in one index only.
---
 server/storage/inmemory/device_code_session.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index 7604347..d9703bf 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -71,12 +71,18 @@ func (s *deviceCodeSessionStorage) Register(ctx context.Context, issuer, userCod
 }
 
 func (s *deviceCodeSessionStorage) Delete(ctx context.Context, issuer, code string) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	s.userCodeIndex.Delete(s.deriveUserCode(issuer, code))
 	// No error
 	return nil
 }
 
 func (s *deviceCodeSessionStorage) GetByDeviceCode(ctx context.Context, issuer, deviceCode string) (*sessionv1.DeviceCodeSession, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// Retrieve from cache
 	if x, found := s.deviceCodeIndex.Get(s.deriveDeviceCode(issuer, deviceCode)); found {
 		return cloneDeviceCodeSession(x.(*sessionv1.DeviceCodeSession)), nil
@@ -86,6 +92,9 @@ func (s *deviceCodeSessionStorage) GetByDeviceCode(ctx context.Context, issuer,
 }
 
 func (s *deviceCodeSessionStorage) GetByUserCode(ctx context.Context, issuer, userCode string) (*sessionv1.DeviceCodeSession, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// Retrieve from cache
 	if x, found := s.userCodeIndex.Get(s.deriveUserCode(issuer, userCode)); found {
 		return cloneDeviceCodeSession(x.(*sessionv1.DeviceCodeSession)), nil
-- 
2.43.0


From 85bbd4259b6cf05d105a85476c15071201262e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:08 +0000
Subject: [PATCH 31/41] fix: close every response body of the SDK client

---
 client/http.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/http.go b/client/http.go
index b16ee30..abf76c0 100644
--- a/client/http.go
+++ b/client/http.go
@@ -58,11 +58,15 @@ func HTTP(ctx context.Context, issuer string, opts *Options) (Client, error) {
 
 	// Do the query
 	response, err := c.httpClient.Do(req)
-	if err != nil || response.StatusCode != http.StatusOK {
+	if err != nil {
 		return nil, fmt.Errorf("unable to parse server metadata request: %w", err)
 	}
 	defer response.Body.Close()
 
+	if response.StatusCode != http.StatusOK {
+		return nil, fmt.Errorf("unable to parse server metadata request: unexpected status %d", response.StatusCode)
+	}
+
 	// Parse response
 	if err := json.NewDecoder(response.Body).Decode(&c.serverMetadata); err != nil {
 		return nil, fmt.Errorf("unable to decode server metadata: %w", err)
@@ -456,6 +460,8 @@ func (c *httpClient) PublicKeys(ctx context.Context) (*jose.JSONWebKeySet, uint6
 	if err != nil {
 		return nil, 0, fmt.Errorf("unable to retrieve jwks: %w", err)
 	}
+	defer response.Body.Close()
+
 	if response.StatusCode != http.StatusOK {
 		var err corev1.Error
 
-- 
2.43.0


From 6f1554e9d9da0f3a75bc84b4593e3014a5fc0e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:08 +0000
Subject: [PATCH 32/41] fix: guard the key set cached by the SDK client

---
 client/http.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/client/http.go b/client/http.go
index abf76c0..ae3cf55 100644
--- a/client/http.go
+++ b/client/http.go
@@ -26,6 +26,7 @@ import (
 	"net/http"
 	"net/url"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/dchest/uniuri"
@@ -90,6 +91,7 @@ type httpClient struct {
 	issuer         string
 	opts           *Options
 	httpClient     *http.Client
+	jwksMutex      sync.RWMutex
 	jwks           *jose.JSONWebKeySet
 	jwksExpiration uint64
 	serverMetadata *discoveryv1.ServerMetadata
@@ -438,9 +440,12 @@ func (c *httpClient) Introspect(ctx context.Context, assertion, token string) (*
 
 func (c *httpClient) PublicKeys(ctx context.Context) (*jose.JSONWebKeySet, uint64, error) {
 	// Check if keys are not cached and not expired
-	if c.jwks != nil && c.jwksExpiration > uint64(time.Now().Unix()) {
+	c.jwksMutex.RLock()
+	cachedKeys, cachedExpiration := c.jwks, c.jwksExpiration
+	c.jwksMutex.RUnlock()
+	if cachedKeys != nil && cachedExpiration > uint64(time.Now().Unix()) {
 		// Return cached public keys
-		return c.jwks, c.jwksExpiration, nil
+		return cachedKeys, cachedExpiration, nil
 	}
 
 	// Parse authentication url endpoint
@@ -490,9 +495,11 @@ func (c *httpClient) PublicKeys(ctx context.Context) (*jose.JSONWebKeySet, uint6
 	}
 
 	// Set client values
+	c.jwksMutex.Lock()
 	c.jwks = jwks.JSONWebKeySet
 	c.jwksExpiration = jwks.Expires
+	c.jwksMutex.Unlock()
 
 	// No error
-	return jwks.JSONWebKeySet, c.jwksExpiration, nil
+	return jwks.JSONWebKeySet, jwks.Expires, nil
 }
-- 
2.43.0


From 2b4b5a82f1e5d4ab059014338ad258bbf54f82ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:21 +0000
Subject: [PATCH 33/41] fix: refuse nil records handed back by the token and
 session stores

---
 server/services/token/grant_authorization_code.go | 2 +-
 server/services/token/grant_refresh_token.go      | 6 ++++++
 server/services/token/grant_token_exchange.go     | 6 ++++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index 759b46a..60abcf9 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -113,7 +113,7 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 	}
 
 	// Check if not nil
-	if ar.Request == nil {
+	if ar == nil || ar.Request == nil {
 		res.Error = rfcerrors.InvalidGrant().Build()
 		return res, fmt.Errorf("retrieve authorization request is invalid '%s': %w", grant.Code, err)
 	}
diff --git a/server/services/token/grant_refresh_token.go b/server/services/token/grant_refresh_token.go
index a0ef401..4bfd9e7 100644
--- a/server/services/token/grant_refresh_token.go
+++ b/server/services/token/grant_refresh_token.go
@@ -84,6 +84,12 @@ func (s *service) refreshToken(ctx context.Context, client *clientv1.Client, req
 		return res, fmt.Errorf("unable to retrieve token '%s' from storage: %w", grant.RefreshToken, err)
 	}
 
+	// Check if not nil
+	if rt == nil {
+		res.Error = rfcerrors.ServerError().Build()
+		return res, fmt.Errorf("refresh_token storage returned nothing")
+	}
+
 	// Check token
 	if rt.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
 		res.Error = rfcerrors.InvalidRequest().Build()
diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index 248c7d9..b37f1df 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -132,6 +132,12 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 		return fmt.Errorf("unable to retrieve token '%s' from storage: %w", grant.SubjectToken, err)
 	}
 
+	// Check if not nil
+	if st == nil {
+		res.Error = rfcerrors.ServerError().Build()
+		return fmt.Errorf("subject_token storage returned nothing")
+	}
+
 	// Check token
 	if st.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
 		res.Error = rfcerrors.InvalidRequest().Build()
-- 
2.43.0


From 0fc14cbce0c6508906b06a30bda84672199d7df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:21 +0000
Subject: [PATCH 34/41] fix: refuse a nil client handed back to the
 authorization service

---
 server/services/authorization/service.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index fa18822..cd312b2 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -347,6 +347,11 @@ func (s *service) validateClientCapabilities(ctx context.Context, req *flowv1.Au
 		return rfcerrors.InvalidRequest().State(req.State).Build(), fmt.Errorf("unable to retrieve client details: %w", err)
 	}
 
+	// Check if not nil
+	if client == nil {
+		return rfcerrors.ServerError().State(req.State).Build(), fmt.Errorf("client storage returned nothing")
+	}
+
 	// Validate client capabilities
 	if !types.StringArray(client.GrantTypes).Contains(oidc.GrantTypeAuthorizationCode) {
 		return rfcerrors.UnsupportedGrantType().State(req.State).Build(), fmt.Errorf("client doesn't support 'authorization_code' as grant type")
-- 
2.43.0


From 30390116eb6a1506833078798ba862472b3a981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:21 +0000
Subject: [PATCH 35/41] fix: refuse a nil client handed back to client
 authentication

---
 server/clientauthentication/client_attestation.go | 9 +++++++++
 server/clientauthentication/private_key_jwt.go    | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/server/clientauthentication/client_attestation.go b/server/clientauthentication/client_attestation.go
index 7474f10..bd4a576 100644
--- a/server/clientauthentication/client_attestation.go
+++ b/server/clientauthentication/client_attestation.go
@@ -141,6 +141,11 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 		return res, fmt.Errorf("client not found")
 	}
 
+	if client == nil {
+		res.Error = rfcerrors.InvalidClient().Build()
+		return res, fmt.Errorf("client storage returned nothing")
+	}
+
 	// Assign to response
 	res.Client = client
 
@@ -182,6 +187,10 @@ func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.
 		return nil, fmt.Errorf("client not found")
 	}
 
+	if client == nil {
+		return nil, fmt.Errorf("client storage returned nothing")
+	}
+
 	// Retrieve JWK associated to the client
 	if len(client.Jwks) == 0 {
 		return nil, fmt.Errorf("client jwks is nil")
diff --git a/server/clientauthentication/private_key_jwt.go b/server/clientauthentication/private_key_jwt.go
index 748c56b..ba9d024 100644
--- a/server/clientauthentication/private_key_jwt.go
+++ b/server/clientauthentication/private_key_jwt.go
@@ -121,6 +121,11 @@ func (p *privateKeyJWTAuthentication) Authenticate(ctx context.Context, req *cli
 		return res, fmt.Errorf("client not found")
 	}
 
+	if client == nil {
+		res.Error = rfcerrors.InvalidClient().Build()
+		return res, fmt.Errorf("client storage returned nothing")
+	}
+
 	// Retrieve JWK associated to the client
 	if len(client.Jwks) == 0 {
 		res.Error = rfcerrors.InvalidClient().Build()
-- 
2.43.0


From e07a6714d0adb99fe927d8f13569cbf142b49c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:51 +0000
Subject: [PATCH 36/41] fix: keep private copies of authorization code sessions

---
 server/storage/inmemory/authorization_code_session.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server/storage/inmemory/authorization_code_session.go b/server/storage/inmemory/authorization_code_session.go
index 23a0f50..440074b 100644
--- a/server/storage/inmemory/authorization_code_session.go
+++ b/server/storage/inmemory/authorization_code_session.go
@@ -25,6 +25,7 @@ import (
 
 	"github.com/patrickmn/go-cache"
 	"golang.org/x/crypto/blake2b"
+	"google.golang.org/protobuf/proto"
 
 	sessionv1 "zntr.io/solid/api/oidc/session/v1"
 	"zntr.io/solid/server/storage"
@@ -48,8 +49,8 @@ func AuthorizationCodeSessions() storage.AuthorizationCodeSession {
 // -----------------------------------------------------------------------------
 
 func (s *sessionStorage) Register(ctx context.Context, issuer, code string, req *sessionv1.AuthorizationCodeSession) (uint64, error) {
-	// Insert in cache
-	s.backend.Set(s.deriveKey(issuer, code), req, cache.DefaultExpiration)
+	// Insert a private copy in cache
+	s.backend.Set(s.deriveKey(issuer, code), proto.Clone(req), cache.DefaultExpiration)
 
 	// No error
 	return uint64(60), nil
@@ -75,7 +76,7 @@ func (s *sessionStorage) Get(ctx context.Context, issuer, code string) (*session
 	// Retrieve from cache
 	if x, found := s.backend.Get(s.deriveKey(issuer, code)); found {
 		req := x.(*sessionv1.AuthorizationCodeSession)
-		return req, nil
+		return proto.Clone(req).(*sessionv1.AuthorizationCodeSession), nil
 	}
 
 	return nil, storage.ErrNotFound
-- 
2.43.0


From 93af840496c49fa285b60b785b1d45737c56f922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:51 +0000
Subject: [PATCH 37/41] fix: keep private copies of pushed authorization
 requests

---
 server/storage/inmemory/authorization_request.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server/storage/inmemory/authorization_request.go b/server/storage/inmemory/authorization_request.go
index c9b6ef8..8b34055 100644
--- a/server/storage/inmemory/authorization_request.go
+++ b/server/storage/inmemory/authorization_request.go
@@ -25,6 +25,7 @@ import (
 
 	"github.com/patrickmn/go-cache"
 	"golang.org/x/crypto/blake2b"
+	"google.golang.org/protobuf/proto"
 
 	flowv1 "zntr.io/solid/api/oidc/flow/v1"
 	"zntr.io/solid/server/storage"
@@ -48,8 +49,8 @@ func AuthorizationRequests() storage.AuthorizationRequest {
 // -----------------------------------------------------------------------------
 
 func (s *authorizationRequestStorage) Register(ctx context.Context, issuer, requestURI string, req *flowv1.AuthorizationRequest) (uint64, error) {
-	// Insert in cache
-	s.backend.Set(s.deriveKey(issuer, requestURI), req, cache.DefaultExpiration)
+	// Insert a private copy in cache
+	s.backend.Set(s.deriveKey(issuer, requestURI), proto.Clone(req), cache.DefaultExpiration)
 
 	// No error
 	return 60, nil
@@ -75,7 +76,7 @@ func (s *authorizationRequestStorage) Get(ctx context.Context, issuer, requestUR
 	// Retrieve from cache
 	if x, found := s.backend.Get(s.deriveKey(issuer, requestURI)); found {
 		req := x.(*flowv1.AuthorizationRequest)
-		return req, nil
+		return proto.Clone(req).(*flowv1.AuthorizationRequest), nil
 	}
 
 	return nil, storage.ErrNotFound
-- 
2.43.0


From c2ecaea0fb3bfebb2da6a702127803191517fde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:51 +0000
Subject: [PATCH 38/41] fix: keep private copies of registered clients

---
 server/storage/inmemory/client.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server/storage/inmemory/client.go b/server/storage/inmemory/client.go
index 9e25a29..6c1ca1f 100644
--- a/server/storage/inmemory/client.go
+++ b/server/storage/inmemory/client.go
@@ -23,6 +23,7 @@ import (
 	"sync"
 
 	"github.com/dchest/uniuri"
+	"google.golang.org/protobuf/proto"
 
 	clientv1 "zntr.io/solid/api/oidc/client/v1"
 	"zntr.io/solid/oidc"
@@ -184,7 +185,7 @@ func (s *clientStorage) Get(ctx context.Context, id string) (*clientv1.Client, e
 	}
 
 	// No error
-	return client, nil
+	return proto.Clone(client).(*clientv1.Client), nil
 }
 
 func (s *clientStorage) GetByName(ctx context.Context, name string) (*clientv1.Client, error) {
@@ -194,7 +195,7 @@ func (s *clientStorage) GetByName(ctx context.Context, name string) (*clientv1.C
 	// Iterate over bakend map
 	for _, c := range s.backend {
 		if strings.EqualFold(c.ClientName, name) {
-			return c, nil
+			return proto.Clone(c).(*clientv1.Client), nil
 		}
 	}
 
@@ -212,7 +213,7 @@ func (s *clientStorage) Register(ctx context.Context, c *clientv1.Client) (strin
 	c.ClientId = uniuri.NewLen(16)
 
 	// Assign to storage
-	s.backend[c.ClientId] = c
+	s.backend[c.ClientId] = proto.Clone(c).(*clientv1.Client)
 
 	// No error
 	return c.ClientId, nil
-- 
2.43.0


From 05d085e6fc80cd53818a850922270530ff4059db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:59 +0000
Subject: [PATCH 39/41] fix: keep the escaped path of the request in DPoP
 proofs

---
 sdk/dpop/prover.go | 2 +-
 sdk/dpop/url.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/dpop/prover.go b/sdk/dpop/prover.go
index b3d0d01..c219bf4 100644
--- a/sdk/dpop/prover.go
+++ b/sdk/dpop/prover.go
@@ -86,7 +86,7 @@ func (p *defaultProver) Prove(htm, htu string, opts ...Option) (string, error) {
 	claims := &proofClaims{
 		JTI:        uniuri.NewLen(JTICodeLength),
 		HTTPMethod: htm,
-		HTTPURL:    fmt.Sprintf("%s://%s%s", u.Scheme, u.Host, u.Path),
+		HTTPURL:    fmt.Sprintf("%s://%s%s", u.Scheme, u.Host, u.EscapedPath()),
 		IssuedAt:   uint64(time.Now().UTC().Unix()),
 	}
 
diff --git a/sdk/dpop/url.go b/sdk/dpop/url.go
index db340c6..9dabdd0 100644
--- a/sdk/dpop/url.go
+++ b/sdk/dpop/url.go
@@ -34,5 +34,5 @@ func CleanURL(r *http.Request) string {
 	}
 
 	// Assemble response
-	return fmt.Sprintf("%s://%s%s", scheme, r.Host, r.URL.Path)
+	return fmt.Sprintf("%s://%s%s", scheme, r.Host, r.URL.EscapedPath())
 }
-- 
2.43.0


From 340a2191097007353aab5c6858ed86927788c351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:59 +0000
Subject: [PATCH 40/41] fix: keep the state and uri of an error in JARM
 responses

---
 sdk/jarm/decoder.go | 14 ++++++++++----
 sdk/jarm/encoder.go |  9 ++++++++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/sdk/jarm/decoder.go b/sdk/jarm/decoder.go
index 60003fa..f6dbd5f 100644
--- a/sdk/jarm/decoder.go
+++ b/sdk/jarm/decoder.go
@@ -26,6 +26,7 @@ import (
 	flowv1 "zntr.io/solid/api/oidc/flow/v1"
 	"zntr.io/solid/sdk/rfcerrors"
 	"zntr.io/solid/sdk/token"
+	"zntr.io/solid/sdk/types"
 )
 
 // -----------------------------------------------------------------------------
@@ -104,11 +105,16 @@ func (d *tokenDecoder) Decode(ctx context.Context, audience, response string) (*
 			}, fmt.Errorf("invalid error response token, issuer, audience or expiration does not match expectations")
 		}
 
+		respErr := &corev1.Error{
+			Err:              claims.Error,
+			ErrorDescription: claims.ErrorDescription,
+		}
+		if claims.ErrorURI != "" {
+			respErr.ErrorUri = types.StringRef(claims.ErrorURI)
+		}
+
 		return &flowv1.AuthorizeResponse{
-			Error: &corev1.Error{
-				Err:              claims.Error,
-				ErrorDescription: claims.ErrorDescription,
-			},
+			Error:  respErr,
 			State:  claims.State,
 			Issuer: claims.Issuer,
 		}, nil
diff --git a/sdk/jarm/encoder.go b/sdk/jarm/encoder.go
index 222ed53..62f12c5 100644
--- a/sdk/jarm/encoder.go
+++ b/sdk/jarm/encoder.go
@@ -54,13 +54,20 @@ func (d *tokenEncoder) Encode(ctx context.Context, issuer string, resp *flowv1.A
 	// Prepare response claims
 	var claims *responseClaims
 	if resp.Error != nil {
+		// A refused request binds its state to the error
+		state := resp.State
+		if state == "" {
+			state = resp.Error.GetState()
+		}
+
 		claims = &responseClaims{
-			State:            resp.State,
+			State:            state,
 			Issuer:           issuer,
 			Audience:         resp.ClientId,
 			ExpiresAt:        uint64(time.Now().Add(errorResponseExpiration).Unix()),
 			Error:            resp.Error.Err,
 			ErrorDescription: resp.Error.ErrorDescription,
+			ErrorURI:         resp.Error.GetErrorUri(),
 		}
 	} else {
 		// Validate mandatory fields
-- 
2.43.0


From 973ab8c1d6e2c83b9a1068caf77d65b2f9c6dc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:59 +0000
Subject: [PATCH 41/41] fix: hand out private copies of resources

---
 server/storage/inmemory/resource.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/storage/inmemory/resource.go b/server/storage/inmemory/resource.go
index 94a4828..8efa1bc 100644
--- a/server/storage/inmemory/resource.go
+++ b/server/storage/inmemory/resource.go
@@ -20,6 +20,8 @@ package inmemory
 import (
 	"context"
 
+	"google.golang.org/protobuf/proto"
+
 	resourcev1 "zntr.io/solid/api/oidc/resource/v1"
 	"zntr.io/solid/server/storage"
 )
@@ -57,5 +59,5 @@ func (s *resourceStorage) GetByURI(ctx context.Context, urn string) (*resourcev1
 	}
 
 	// No error
-	return resource, nil
+	return proto.Clone(resource).(*resourcev1.Resource), nil
 }
-- 
2.43.0

