package verifharness

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"

	"google.golang.org/protobuf/proto"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	resourcev1 "zntr.io/solid/api/oidc/resource/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/server/storage"
)

// -----------------------------------------------------------------------------
// Every dependency call of a service goes through a faultPlan: it can fail the
// call, and it is where concurrent requests are scheduled.

type faultPlan struct {
	mu    sync.Mutex
	f     *Fault
	seen  map[string]int
	calls []string
	fired string
	alter string // how the record read was altered
}

func (p *faultPlan) arm(f *Fault) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.f, p.seen, p.fired, p.alter, p.calls = f, map[string]int{}, "", "", nil
}

// disarm returns the dependency whose call was made to fail, "" if none, and how the record it returned was altered.
func (p *faultPlan) disarm() (string, string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.f = nil
	return p.fired, p.alter
}

// altered gives another version of a stored record, nil when there is none of that kind.
func altered(v any, what string) any {
	past := uint64(now() - 1)
	switch x := v.(type) {
	case *sessionv1.DeviceCodeSession:
		x = proto.Clone(x).(*sessionv1.DeviceCodeSession)
		switch what {
		case "expired":
			x.ExpiresAt = past
		case "norequest":
			x.Request = nil
		case "noclient":
			x.Client = nil
		case "nosubject":
			x.Subject = nil
		case "status":
			x.Status = sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_UNSPECIFIED
		case "otherclient":
			if x.Request == nil {
				return nil
			}
			x.Request.ClientId = "c2"
		default:
			return nil
		}
		return x
	case *sessionv1.AuthorizationCodeSession:
		x = proto.Clone(x).(*sessionv1.AuthorizationCodeSession)
		if x.Request == nil {
			return nil
		}
		switch what {
		case "norequest":
			x.Request = nil
		case "plain":
			x.Request.CodeChallengeMethod = "plain"
		case "nomethod":
			x.Request.CodeChallengeMethod = ""
		case "nochallenge":
			x.Request.CodeChallenge = ""
		case "noredirect":
			x.Request.RedirectUri = ""
		case "otherclient":
			x.Request.ClientId = "c2"
		default:
			return nil
		}
		return x
	case *tokenv1.Token:
		x = proto.Clone(x).(*tokenv1.Token)
		switch what {
		case "nometadata":
			x.Metadata = nil
		case "expired":
			if x.Metadata == nil {
				return nil
			}
			x.Metadata.ExpiresAt = past
		case "otherclient":
			if x.Metadata == nil {
				return nil
			}
			x.Metadata.ClientId = "c2"
		case "status":
			x.Status = tokenv1.TokenStatus_TOKEN_STATUS_UNSPECIFIED
		case "revoked":
			x.Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
		case "type":
			x.TokenType = tokenv1.TokenType_TOKEN_TYPE_UNSPECIFIED
		default:
			return nil
		}
		return x
	case *flowv1.AuthorizationRequest:
		x = proto.Clone(x).(*flowv1.AuthorizationRequest)
		switch what {
		case "nostate":
			x.State = ""
		case "noscope":
			x.Scope = ""
		case "nochallenge":
			x.CodeChallenge = ""
		case "plain":
			x.CodeChallengeMethod = "plain"
		case "noredirect":
			x.RedirectUri = ""
		case "otherclient":
			x.ClientId = "c2"
		default:
			return nil
		}
		return x
	case *clientv1.Client:
		x = proto.Clone(x).(*clientv1.Client)
		switch what {
		case "nogrants":
			x.GrantTypes = nil
		case "noredirects":
			x.RedirectUris = nil
		default:
			return nil
		}
		return x
	}
	return nil
}

// verdict: "" | before | after | blank | alter:...
func (p *faultPlan) at(ctx context.Context, dep, method string) string {
	if g := gateOf(ctx); g != nil {
		g.pass(dep + "." + method)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	name := dep + "." + method
	if p.seen == nil {
		p.seen = map[string]int{}
	}
	p.seen[name]++
	p.calls = append(p.calls, name)
	if p.f != nil && (p.f.At == name || p.f.At == dep) {
		n := p.seen[name]
		if p.f.At == dep {
			n = 0
			for _, c := range p.calls {
				if len(c) > len(dep) && c[:len(dep)+1] == dep+"." {
					n++
				}
			}
		}
		if n == p.f.K {
			if !strings.HasPrefix(p.f.Mode, "alter:") {
				p.fired = dep
			}
			return p.f.Mode
		}
	}
	return ""
}

func call0(ctx context.Context, p *faultPlan, dep, method string, f func() error) error {
	switch p.at(ctx, dep, method) {
	case "before", "blank":
		return errInjected
	case "after":
		if err := f(); err != nil {
			return err
		}
		return errInjected
	case "wrapped":
		return fmt.Errorf("storage: %w", errInjected)
	}
	return f()
}

func call1[T any](ctx context.Context, p *faultPlan, dep, method string, f func() (T, error)) (T, error) {
	var zero T
	how := p.at(ctx, dep, method)
	if what, ok := strings.CutPrefix(how, "alter:"); ok {
		v, err := f()
		if err == nil {
			if w, ok := altered(v, what).(T); ok {
				p.mu.Lock()
				p.fired, p.alter = dep, what
				p.mu.Unlock()
				return w, nil
			}
		}
		return v, err
	}
	switch how {
	case "before":
		return zero, errInjected
	case "blank":
		// a misbehaving dependency: nothing and no error
		if !strings.HasPrefix(dep, "gen.") {
			p.mu.Lock()
			p.alter = "blank"
			p.mu.Unlock()
		}
		return zero, nil
	case "wrapped":
		return zero, fmt.Errorf("storage: %w", errInjected)
	case "after":
		if v, err := f(); err != nil {
			return v, err
		}
		return zero, errInjected
	}
	return f()
}

type fPar struct {
	storage.AuthorizationRequest
	p *faultPlan
}

func (s *fPar) Get(ctx context.Context, issuer, uri string) (*flowv1.AuthorizationRequest, error) {
	return call1(ctx, s.p, "par", "Get", func() (*flowv1.AuthorizationRequest, error) { return s.AuthorizationRequest.Get(ctx, issuer, uri) })
}

func (s *fPar) Register(ctx context.Context, issuer, uri string, req *flowv1.AuthorizationRequest) (uint64, error) {
	return call1(ctx, s.p, "par", "Register", func() (uint64, error) { return s.AuthorizationRequest.Register(ctx, issuer, uri, req) })
}

func (s *fPar) Delete(ctx context.Context, issuer, uri string) error {
	return call0(ctx, s.p, "par", "Delete", func() error { return s.AuthorizationRequest.Delete(ctx, issuer, uri) })
}

type fCode struct {
	storage.AuthorizationCodeSession
	p *faultPlan
}

func (s *fCode) Get(ctx context.Context, issuer, code string) (*sessionv1.AuthorizationCodeSession, error) {
	return call1(ctx, s.p, "code", "Get", func() (*sessionv1.AuthorizationCodeSession, error) {
		return s.AuthorizationCodeSession.Get(ctx, issuer, code)
	})
}

func (s *fCode) Register(ctx context.Context, issuer, code string, x *sessionv1.AuthorizationCodeSession) (uint64, error) {
	return call1(ctx, s.p, "code", "Register", func() (uint64, error) { return s.AuthorizationCodeSession.Register(ctx, issuer, code, x) })
}

func (s *fCode) Delete(ctx context.Context, issuer, code string) error {
	return call0(ctx, s.p, "code", "Delete", func() error { return s.AuthorizationCodeSession.Delete(ctx, issuer, code) })
}

type fDev struct {
	storage.DeviceCodeSession
	p *faultPlan
}

func (s *fDev) Register(ctx context.Context, issuer, uc string, r *sessionv1.DeviceCodeSession) (uint64, error) {
	return call1(ctx, s.p, "dev", "Register", func() (uint64, error) { return s.DeviceCodeSession.Register(ctx, issuer, uc, r) })
}

func (s *fDev) Delete(ctx context.Context, issuer, uc string) error {
	return call0(ctx, s.p, "dev", "Delete", func() error { return s.DeviceCodeSession.Delete(ctx, issuer, uc) })
}

func (s *fDev) Validate(ctx context.Context, issuer, uc string, r *sessionv1.DeviceCodeSession) error {
	return call0(ctx, s.p, "dev", "Validate", func() error { return s.DeviceCodeSession.Validate(ctx, issuer, uc, r) })
}

func (s *fDev) GetByDeviceCode(ctx context.Context, issuer, dc string) (*sessionv1.DeviceCodeSession, error) {
	return call1(ctx, s.p, "dev", "GetByDeviceCode", func() (*sessionv1.DeviceCodeSession, error) {
		return s.DeviceCodeSession.GetByDeviceCode(ctx, issuer, dc)
	})
}

func (s *fDev) GetByUserCode(ctx context.Context, issuer, uc string) (*sessionv1.DeviceCodeSession, error) {
	return call1(ctx, s.p, "dev", "GetByUserCode", func() (*sessionv1.DeviceCodeSession, error) {
		return s.DeviceCodeSession.GetByUserCode(ctx, issuer, uc)
	})
}

type fTok struct {
	storage.Token
	p *faultPlan
}

func (s *fTok) Create(ctx context.Context, issuer string, t *tokenv1.Token) error {
	return call0(ctx, s.p, "tok", "Create", func() error { return s.Token.Create(ctx, issuer, t) })
}

func (s *fTok) Delete(ctx context.Context, issuer, id string) error {
	return call0(ctx, s.p, "tok", "Delete", func() error { return s.Token.Delete(ctx, issuer, id) })
}

func (s *fTok) Revoke(ctx context.Context, issuer, id string) error {
	return call0(ctx, s.p, "tok", "Revoke", func() error { return s.Token.Revoke(ctx, issuer, id) })
}

func (s *fTok) Get(ctx context.Context, issuer, id string) (*tokenv1.Token, error) {
	return call1(ctx, s.p, "tok", "Get", func() (*tokenv1.Token, error) { return s.Token.Get(ctx, issuer, id) })
}

func (s *fTok) GetByValue(ctx context.Context, issuer, value string) (*tokenv1.Token, error) {
	return call1(ctx, s.p, "tok", "GetByValue", func() (*tokenv1.Token, error) { return s.Token.GetByValue(ctx, issuer, value) })
}

type fJti struct {
	storage.DPoP
	p *faultPlan
}

func (s *fJti) Register(ctx context.Context, id string) error {
	return call0(ctx, s.p, "jti", "Register", func() error { return s.DPoP.Register(ctx, id) })
}

func (s *fJti) Exists(ctx context.Context, id string) (bool, error) {
	return call1(ctx, s.p, "jti", "Exists", func() (bool, error) { return s.DPoP.Exists(ctx, id) })
}

type fRes struct {
	storage.ResourceReader
	p *faultPlan
}

func (s *fRes) GetByURI(ctx context.Context, urn string) (*resourcev1.Resource, error) {
	return call1(ctx, s.p, "res", "GetByURI", func() (*resourcev1.Resource, error) { return s.ResourceReader.GetByURI(ctx, urn) })
}

type fCli struct {
	storage.ClientReader
	p *faultPlan
}

func (s *fCli) Get(ctx context.Context, id string) (*clientv1.Client, error) {
	return call1(ctx, s.p, "client", "Get", func() (*clientv1.Client, error) { return s.ClientReader.Get(ctx, id) })
}

type fGenCode struct {
	generator.AuthorizationCode
	p *faultPlan
}

func (g *fGenCode) Generate(ctx context.Context, issuer string) (string, error) {
	return call1(ctx, g.p, "gen.code", "Generate", func() (string, error) { return g.AuthorizationCode.Generate(ctx, issuer) })
}

type fGenURI struct {
	generator.RequestURI
	p *faultPlan
}

func (g *fGenURI) Generate(ctx context.Context, issuer string) (string, error) {
	return call1(ctx, g.p, "gen.uri", "Generate", func() (string, error) { return g.RequestURI.Generate(ctx, issuer) })
}

type fGenDC struct {
	generator.DeviceCode
	p *faultPlan
}

func (g *fGenDC) Generate(ctx context.Context, issuer string) (string, error) {
	return call1(ctx, g.p, "gen.dc", "Generate", func() (string, error) { return g.DeviceCode.Generate(ctx, issuer) })
}

type fGenUC struct {
	generator.DeviceUserCode
	p *faultPlan
}

func (g *fGenUC) Generate(ctx context.Context, issuer string) (string, error) {
	return call1(ctx, g.p, "gen.uc", "Generate", func() (string, error) { return g.DeviceUserCode.Generate(ctx, issuer) })
}

type fGenTok struct {
	token.Generator
	p   *faultPlan
	dep string
}

func (g *fGenTok) Generate(ctx context.Context, t *tokenv1.Token) (string, error) {
	return call1(ctx, g.p, g.dep, "Generate", func() (string, error) { return g.Generator.Generate(ctx, t) })
}

// -----------------------------------------------------------------------------
// Generators

func newGens(kind string) gens {
	out := gens{
		code: generator.DefaultAuthorizationCode(), uri: generator.DefaultRequestURI(), dc: generator.DefaultDeviceCode(),
		uc: generator.DefaultDeviceUserCode(), at: token.OpaqueToken(), rt: token.OpaqueToken(),
	}
	switch kind {
	case "numeric":
		out.uc = generator.DefaultNumDeviceUserCode()
	case "overlap":
		// Values beginning with "/x", so that issuer I1 + value equals issuer I3 + the rest of the value
		o := &overlapGen{}
		out.code, out.uri, out.dc, out.uc = o, o, o, o
		out.at, out.rt = overlapTok{token.OpaqueToken()}, overlapTok{token.OpaqueToken()}
	}
	return out
}

type overlapGen struct {
	mu sync.Mutex
	n  int
}

func (g *overlapGen) Validate(context.Context, string, string) error { return nil }

func (g *overlapGen) Generate(_ context.Context, _ string) (string, error) {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.n++
	return fmt.Sprintf("/xvalue%d", g.n), nil
}

type overlapTok struct{ g token.Generator }

func (g overlapTok) Generate(ctx context.Context, t *tokenv1.Token) (string, error) {
	v, err := g.g.Generate(ctx, t)
	if err != nil {
		return "", err
	}
	return "/x" + v, nil
}

var errNever = errors.New("never")
