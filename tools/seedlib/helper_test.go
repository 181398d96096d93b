package seeddemo

import (
	"context"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/types"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/authorization"
	"zntr.io/solid/server/services/device"
	"zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
)

const issuer = "https://idp.example.com"

var ctx = context.Background()

type tokenGen struct{}

var tokenSeq atomic.Int64

func (tokenGen) Generate(context.Context, *tokenv1.Token) (string, error) {
	return fmt.Sprintf("token-%d", tokenSeq.Add(1)), nil
}

type clientStore map[string]*clientv1.Client

func (s clientStore) Get(_ context.Context, id string) (*clientv1.Client, error) {
	if c, ok := s[id]; ok {
		return c, nil
	}
	return nil, storage.ErrNotFound
}

func (s clientStore) GetByName(_ context.Context, name string) (*clientv1.Client, error) {
	return s.Get(nil, name)
}

type server struct {
	clients clientStore
	authz   services.Authorization
	device  services.Device
	token   services.Token
	codes   storage.AuthorizationCodeSession
	par     storage.AuthorizationRequest
	devices storage.DeviceCodeSession
	tokens  storage.Token
}

func newServer() *server {
	return newServerWith(func(*server) {})
}

// newServerWith lets the demonstration wrap the stores.
func newServerWith(wrap func(*server)) *server {
	c := func(id string) *clientv1.Client {
		return &clientv1.Client{
			ClientId: id, ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL,
			GrantTypes: []string{oidc.GrantTypeAuthorizationCode, oidc.GrantTypeClientCredentials, oidc.GrantTypeDeviceCode,
				oidc.GrantTypeRefreshToken, oidc.GrantTypeTokenExchange},
			ResponseTypes: []string{"code"}, ResponseModes: []string{"query", "query.jwt"},
			RedirectUris: []string{"https://client.example.org/cb"},
		}
	}
	s := &server{
		clients: clientStore{"c1": c("c1"), "c2": c("c2")},
		codes:   inmemory.AuthorizationCodeSessions(), par: inmemory.AuthorizationRequests(),
		devices: inmemory.DeviceCodeSessions(), tokens: inmemory.Tokens(),
	}
	wrap(s)
	s.authz = authorization.New(s.clients, s.par, s.codes, generator.DefaultAuthorizationCode(), generator.DefaultRequestURI())
	s.device = device.New(s.clients, s.devices, generator.DefaultDeviceCode(), generator.DefaultDeviceUserCode())
	s.token = token.New(tokenGen{}, tokenGen{}, s.clients, s.par, s.codes, s.devices, s.tokens, inmemory.Resources())
	return s
}

var verifier = strings.Repeat("v", 64)

func challenge() string {
	h := sha256.Sum256([]byte(verifier))
	return base64.RawURLEncoding.EncodeToString(h[:])
}

func authzRequest(client, scope string) *flowv1.AuthorizationRequest {
	return &flowv1.AuthorizationRequest{
		State: strings.Repeat("s", 40), Nonce: strings.Repeat("n", 16), Scope: scope, Audience: "api", ClientId: client,
		RedirectUri: "https://client.example.org/cb", ResponseType: "code", CodeChallenge: challenge(), CodeChallengeMethod: "S256",
	}
}

func (s *server) authorize(q *flowv1.AuthorizationRequest) (*flowv1.AuthorizeResponse, error) {
	return s.authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: issuer, Subject: "alice", Request: q})
}

func (s *server) redeem(client, code, ver, jkt string) (*flowv1.TokenResponse, error) {
	return s.token.Token(ctx, &flowv1.TokenRequest{
		Issuer: issuer, Client: &clientv1.Client{ClientId: client}, GrantType: oidc.GrantTypeAuthorizationCode, TokenConfirmation: confirmation(jkt),
		Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{
			Code: code, CodeVerifier: ver, RedirectUri: "https://client.example.org/cb"}},
	})
}

func (s *server) refresh(client, rt, jkt string) (*flowv1.TokenResponse, error) {
	return s.token.Token(ctx, &flowv1.TokenRequest{
		Issuer: issuer, Client: &clientv1.Client{ClientId: client}, GrantType: oidc.GrantTypeRefreshToken, TokenConfirmation: confirmation(jkt),
		Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: rt}},
	})
}

func (s *server) exchange(client, st, scope, aud, jkt string) (*flowv1.TokenResponse, error) {
	q := &flowv1.TokenRequest{
		Issuer: issuer, Client: &clientv1.Client{ClientId: client}, GrantType: oidc.GrantTypeTokenExchange, TokenConfirmation: confirmation(jkt),
		Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{
			SubjectToken: st, SubjectTokenType: oidc.TokenExchangeAccessTokenType}},
	}
	if scope != "" {
		q.Scope = types.StringRef(scope)
	}
	if aud != "" {
		q.Audience = types.StringRef(aud)
	}
	return s.token.Token(ctx, q)
}

func (s *server) introspect(client, value string) *tokenv1.Token {
	r, err := s.token.Introspect(ctx, &tokenv1.IntrospectRequest{Issuer: issuer, Client: &clientv1.Client{ClientId: client}, Token: value})
	if err != nil || r.Token == nil {
		return &tokenv1.Token{}
	}
	return r.Token
}

func confirmation(jkt string) *tokenv1.TokenConfirmation {
	if jkt == "" {
		return nil
	}
	return &tokenv1.TokenConfirmation{Jkt: jkt}
}

// login gives tokens for the scope, offline_access included.
func (s *server) login(t *testing.T, client, scope, jkt string) *flowv1.TokenResponse {
	t.Helper()
	q := authzRequest(client, scope)
	q.Prompt = types.StringRef("consent")
	a, err := s.authorize(q)
	if err != nil {
		t.Fatalf("authorize: %v", err)
	}
	r, err := s.redeem(client, a.Code, verifier, jkt)
	if err != nil {
		t.Fatalf("redeem: %v", err)
	}
	return r
}

// virtual runs a demonstration under virtual time; the stores are made outside.
func virtual(t *testing.T, wrap func(*server), f func(t *testing.T, s *server)) {
	if wrap == nil {
		wrap = func(*server) {}
	}
	s := newServerWith(wrap)
	synctest.Test(t, func(t *testing.T) { f(t, s) })
}
