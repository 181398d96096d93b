package verifharness

import (
	"bytes"
	"context"
	"io"
	"net/http"
	"net/url"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/go-jose/go-jose/v4"
	"golang.org/x/oauth2"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/client"
	"zntr.io/solid/server/clientauthentication"
)

// The SDK client talks to a scripted server: the default transport is replaced
// by one which finds the server of the case in the context of the request.
type sdkKey struct{}

type sdkServer struct {
	iss    string
	c, a   M
	meta   string // url the metadata were read from
	jwks   string
	post   string
	method string
	form   url.Values
	ctype  string

	// bodies handed to the client and not closed so far
	mu     sync.Mutex
	open   int
	served int   // key sets handed out
	pairs  []any // the key sets of concurrent calls: keys and expiry
	t0     int64
	par    bool // concurrent callers
	once   bool // only the first key set is served
}

// body counts the response bodies which are open.
type body struct {
	io.Reader
	s    *sdkServer
	done bool
}

func (b *body) Close() error {
	b.s.mu.Lock()
	defer b.s.mu.Unlock()
	if !b.done {
		b.done = true
		b.s.open--
	}
	return nil
}

func (s *sdkServer) left() int64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	return int64(s.open)
}

func init() {
	http.DefaultTransport = roundTripper(func(r *http.Request) (*http.Response, error) {
		s, ok := r.Context().Value(sdkKey{}).(*sdkServer)
		if !ok {
			return nil, errInjected
		}
		res, err := s.serve(r)
		if res != nil {
			s.mu.Lock()
			s.open++
			s.mu.Unlock()
			res.Body = &body{Reader: res.Body, s: s}
			res.Request = r
		}
		return res, err
	})
}

type roundTripper func(*http.Request) (*http.Response, error)

func (f roundTripper) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func answer(status int, body string) *http.Response {
	return &http.Response{StatusCode: status, Status: http.StatusText(status), Body: io.NopCloser(bytes.NewBufferString(body)), Header: http.Header{"Content-Type": {"application/json"}},
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
}

// reply answers in the way of the case; ok is the body of a normal answer.
func reply(how, ok string) (*http.Response, error) {
	switch how {
	case "ok":
		return answer(200, ok), nil
	case "null":
		return answer(200, "null"), nil
	case "notjson":
		return answer(200, "<html>"), nil
	case "truncated":
		return answer(200, ok[:len(ok)/2]), nil
	case "emptybody":
		return answer(200, ""), nil
	case "object":
		return answer(200, "{}"), nil
	case "nokeys":
		return answer(200, `{"exp":0}`), nil
	case "emptykeys":
		return answer(200, `{"keys":[]}`), nil
	case "nullkeys":
		return answer(200, `{"keys":null}`), nil
	case "list":
		return answer(200, `[]`), nil
	case "status":
		return answer(401, `{"err":"invalid_client","error":"invalid_client","error_description":"no"}`), nil
	case "statusok": // an error status with the body of a success
		return answer(500, ok), nil
	case "statusbad":
		return answer(503, "<html>"), nil
	}
	return nil, errInjected
}

func (s *sdkServer) serve(r *http.Request) (*http.Response, error) {
	u := r.URL.String()
	if s.par && u == s.iss+"/jwks" {
		return s.rotating()
	}
	switch u {
	case s.iss + "/.well-known/oauth-authorization-server":
		s.meta = u
		return reply(cs(s.c, "meta"), string(js(M{
			"issuer": s.iss, "jwks_uri": s.iss + "/jwks", "token_endpoint": s.iss + "/token", "introspection_endpoint": s.iss + "/introspect",
			"authorization_endpoint": s.iss + "/authorize", "revocation_endpoint": s.iss + "/revoke",
		})))
	case s.iss + "/jwks":
		s.jwks = u
		return reply(cs(s.c, "jwks"), s.keySet())
	case s.iss + "/token", s.iss + "/introspect":
		s.post, s.method, s.ctype = u, r.Method, r.Header.Get("Content-Type")
		b, _ := io.ReadAll(r.Body)
		s.form, _ = url.ParseQuery(string(b))
		return reply(cs(s.c, "answer"), s.result(u))
	}
	s.post = u
	return answer(404, "{}"), nil
}

// rotating answers every request for keys with another key set.
func (s *sdkServer) rotating() (*http.Response, error) {
	s.mu.Lock()
	n := s.served
	s.served++
	if s.once && n > 0 {
		s.mu.Unlock()
		return nil, errInjected
	}
	names := []string{"k1", "k2", "k3", "e384", "e521", "rs", "ed"}
	k := []string{names[n%7], names[(n/7)%7]}
	exp := s.t0 + 100 + int64(n)
	s.pairs = append(s.pairs, M{"keys": k, "exp": exp})
	s.mu.Unlock()
	for i := 0; i < 20; i++ {
		runtime.Gosched()
	}
	c := M{"keys": []any{k[0], k[1]}}
	out := (&sdkServer{c: c, a: M{"exp": exp}}).keySet()
	return answer(200, out), nil
}

func (s *sdkServer) keySet() string {
	ks := &jose.JSONWebKeySet{}
	for _, n := range cl(s.c, "keys") {
		ks.Keys = append(ks.Keys, jose.JSONWebKey{Key: pubKey(n), KeyID: n, Use: "sig"})
	}
	out := M{"keys": ks.Keys}
	if e := ci(s.a, "exp"); e != 0 {
		out["exp"] = e
	}
	return string(js(out))
}

func (s *sdkServer) result(u string) string {
	if u == s.iss+"/token" {
		out := M{"access_token": cs(s.c, "at"), "token_type": cs(s.c, "tt"), "expires_in": 3600}
		put(out, "refresh_token", cs(s.c, "rt"))
		return string(js(out))
	}
	out := M{"active": cb(s.c, "active")}
	if cb(s.c, "active") {
		put(out, "iss", cs(s.c, "t_iss"))
		put(out, "sub", cs(s.c, "t_sub"))
		put(out, "jti", cs(s.c, "t_jti"))
		put(out, "client_id", cs(s.c, "t_client"))
		put(out, "scope", cs(s.c, "t_scope"))
		switch a := cs(s.c, "t_aud"); {
		case a == "":
		case cb(s.c, "aud_list"):
			out["aud"] = strings.Fields(a)
		default:
			out["aud"] = a
		}
		for _, n := range []string{"iat", "nbf", "exp"} {
			if v := ci(s.a, "t_"+n); v != 0 {
				out[n] = v
			}
		}
		if j := cs(s.c, "t_jkt"); j != "" {
			out["cnf"] = M{"jkt": j}
		}
	}
	return string(js(out))
}

// namesError tells whether the error names the one the server answered with.
func namesError(err error) bool {
	return err != nil && strings.Contains(err.Error(), "invalid_client")
}

// keyNames identifies the keys of a set.
func keyNames(ks *jose.JSONWebKeySet) []string {
	out := []string{}
	if ks == nil {
		return out
	}
	for i := range ks.Keys {
		n := "?"
		for _, c := range []string{"k1", "k2", "k3", "e384", "e521", "rs", "ed"} {
			if pubEqual(ks.Keys[i].Key, pubKey(c)) {
				n = c
			}
		}
		out = append(out, n)
	}
	return out
}

func pubEqual(a, b any) bool {
	return keyBytes(a) != "" && keyBytes(a) == keyBytes(b)
}

func keyBytes(k any) string {
	raw, err := (&jose.JSONWebKey{Key: k}).MarshalJSON()
	if err != nil {
		return ""
	}
	return string(raw)
}

func jwkJSON(kind string) []byte {
	switch kind {
	case "bad":
		return []byte("{not json")
	case "none":
		return nil
	case "pub":
		return js(&jose.JSONWebKey{Key: pubKey("e384"), KeyID: "pub"})
	}
	return js(&jose.JSONWebKey{Key: privKey(kind), KeyID: kind})
}

type sdkState struct {
	client client.Client
	iss    string
	cli    string
	key    string
	opts   *client.Options
}

func init() {
	server := func(s *system, c, a M) *sdkServer {
		iss := s.sdk.iss
		srv := &sdkServer{iss: iss, c: c, a: a}
		a["iss"], a["cli"] = iss, s.sdk.cli
		return srv
	}
	fops["sdknew"] = func(s *system, c, a M) func(context.Context) M {
		s.sdk.iss, s.sdk.cli, s.sdk.key = issuers[or(cs(c, "iss"), "I1")], cs(c, "cli"), cs(c, "key")
		srv := server(s, c, a)
		a["exp"] = int64(0)
		if cs(c, "exps") == "num" {
			a["exp"] = now() + ci(c, "exp")
		}
		opts := &client.Options{Audience: cs(c, "aud"), ClientID: cs(c, "cli"), JWK: jwkJSON(cs(c, "key")), Scopes: []string{"openid"}}
		return func(ctx context.Context) M {
			var cl client.Client
			var err error
			p := guard(func() { cl, err = client.HTTP(context.WithValue(ctx, sdkKey{}, srv), srv.iss, opts) })
			s.sdk.client = nil
			r := M{"issuer": "", "client": "", "audience": "", "served": []string{}, "meta_url": srv.meta, "jwks_url": srv.jwks}
			if err == nil && p == "" && cl != nil {
				s.sdk.client = cl
				p = guard(func() {
					r["issuer"], r["client"], r["audience"] = cl.Issuer(), cl.ClientID(), cl.Audience()
					m := cl.ServerMetadata()
					r["served"] = []string{m.GetIssuer(), m.GetAuthorizationEndpoint(), m.GetTokenEndpoint(), m.GetJwksUri(), m.GetIntrospectionEndpoint(), m.GetRevocationEndpoint()}
				})
			}
			r["left_open"] = srv.left()
			return merge(outcome(p, err, nil, err != nil && cl != nil), r)
		}
	}
	fops["sdkkeys"] = func(s *system, c, a M) func(context.Context) M {
		srv := server(s, c, a)
		a["exp"] = int64(0)
		if cs(c, "exps") == "num" {
			a["exp"] = now() + ci(c, "exp")
		}
		return func(ctx context.Context) M {
			var ks *jose.JSONWebKeySet
			var exp uint64
			var err error
			p := guard(func() { ks, exp, err = s.sdk.client.PublicKeys(context.WithValue(ctx, sdkKey{}, srv)) })
			return merge(outcome(p, err, nil, false), M{"keys": keyNames(ks), "exp": clampU(exp), "fetched": srv.jwks != "", "left_open": srv.left(), "names_error": namesError(err)})
		}
	}
	posted := func(srv *sdkServer, err error) M {
		return M{
			"left_open": srv.left(), "names_error": namesError(err),
			"url": srv.post, "method": srv.method, "ctype": srv.ctype, "sent_assertion": srv.form.Get("client_assertion"), "sent_type": srv.form.Get("client_assertion_type"),
			"sent_grant": srv.form.Get("grant_type"), "sent_token": srv.form.Get("token"),
		}
	}
	fops["sdkcc"] = func(s *system, c, a M) func(context.Context) M {
		srv := server(s, c, a)
		return func(ctx context.Context) M {
			var t *oauth2.Token
			var err error
			p := guard(func() {
				t, err = s.sdk.client.ClientCredentials(context.WithValue(ctx, sdkKey{}, srv), cs(c, "assertion"))
			})
			r := M{"at": "", "rt": "", "tt": ""}
			if t != nil {
				r = M{"at": t.AccessToken, "rt": t.RefreshToken, "tt": t.TokenType}
			}
			return merge(merge(outcome(p, err, nil, err != nil && t != nil), posted(srv, err)), r)
		}
	}
	fops["sdkintro"] = func(s *system, c, a M) func(context.Context) M {
		srv := server(s, c, a)
		for _, n := range []string{"t_iat", "t_nbf", "t_exp"} {
			a[n] = int64(0)
			if cs(c, n+"s") == "num" {
				a[n] = now() + ci(c, n)
			}
		}
		return func(ctx context.Context) M {
			var t *tokenv1.Token
			var err error
			p := guard(func() {
				t, err = s.sdk.client.Introspect(context.WithValue(ctx, sdkKey{}, srv), cs(c, "assertion"), cs(c, "token"))
			})
			m := t.GetMetadata()
			st := "UNKNOWN"
			if t.GetStatus() == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
				st = "ACTIVE"
			}
			return merge(merge(outcome(p, err, nil, err != nil && t != nil), posted(srv, err)), M{
				"status": st, "value": t.GetValue(), "issuer": t.GetIssuer(), "t_iss": m.GetIssuer(), "t_sub": m.GetSubject(), "t_aud": m.GetAudience(), "t_iat": clampU(m.GetIssuedAt()),
				"t_nbf": clampU(m.GetNotBefore()), "t_exp": clampU(m.GetExpiresAt()), "t_jti": t.GetTokenId(), "t_client": m.GetClientId(), "t_scope": m.GetScope(), "t_jkt": t.GetConfirmation().GetJkt(),
			})
		}
	}
	fops["sdkpar"] = func(s *system, c, a M) func(context.Context) M {
		srv := server(s, c, a)
		n := int(ci(c, "n"))
		srv.par, srv.pairs, srv.t0, srv.once = true, []any{}, now(), cb(c, "once")
		return func(ctx context.Context) M {
			got := make([]M, n)
			p := guard(func() {
				var wg sync.WaitGroup
				start := make(chan struct{})
				for g := 0; g < n; g++ {
					wg.Add(1)
					g := g
					go func() {
						defer wg.Done()
						var ks *jose.JSONWebKeySet
						var exp uint64
						var err error
						<-start
						p := guard(func() { ks, exp, err = s.sdk.client.PublicKeys(context.WithValue(ctx, sdkKey{}, srv)) })
						got[g] = merge(outcome(p, err, nil, false), M{"keys": keyNames(ks), "exp": clampU(exp)})
					}()
				}
				close(start)
				wg.Wait()
			})
			return merge(outcome(p, nil, nil, false), M{"got": got, "served": srv.pairs, "left_open": srv.left()})
		}
	}
	fops["sdkassert"] = func(s *system, c, a M) func(context.Context) M {
		a["iss"], a["cli"], a["key"] = s.sdk.iss, s.sdk.cli, s.sdk.key
		reg := &authnClients{mode: "ok", byID: map[string]*clientv1.Client{s.sdk.cli: {ClientId: s.sdk.cli, Jwks: js(&jose.JSONWebKeySet{Keys: []jose.JSONWebKey{{Key: pubKey(cs(c, "srvkey")), Use: "sig", KeyID: "x"}}})}}}
		proc := clientauthentication.PrivateKeyJWT(reg, algSets["es"])
		return func(ctx context.Context) M {
			var raw string
			var err error
			r := M{}
			p := guard(func() {
				raw, err = s.sdk.client.Assertion()
				if err != nil {
					return
				}
				at := "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
				auth := func() string {
					res, aerr := proc.Authenticate(ctx, &clientv1.AuthenticateRequest{ClientAssertionType: &at, ClientAssertion: &raw})
					if aerr != nil {
						return ""
					}
					return res.GetClient().GetClientId()
				}
				r["client"] = auth()
				_, pl, _ := decodeJWT(raw)
				r["iss"], r["sub"], r["aud"], r["exp"], r["iat"], r["jti"] = cs(pl, "iss"), cs(pl, "sub"), cs(pl, "aud"), num(pl["exp"]), num(pl["iat"]), cs(pl, "jti")
				time.Sleep(30 * time.Second)
				r["client_30"] = auth()
				time.Sleep(time.Second)
				r["client_31"] = auth()
			})
			return merge(outcome(p, err, nil, err != nil && raw != ""), r)
		}
	}
}
