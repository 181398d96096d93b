package verifharness

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/go-jose/go-jose/v4"
	josejwt "github.com/go-jose/go-jose/v4/jwt"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/clientauthentication"
	"zntr.io/solid/server/storage"
)

// Operations of the format modules: the case record c comes from the
// specification, the event's arguments are the case plus resolved facts.
type fop func(s *system, c M, a M) func(context.Context) M

var fops = map[string]fop{}

func cs(c M, k string) string { v, _ := c[k].(string); return v }
func cb(c M, k string) bool   { v, _ := c[k].(bool); return v }
func ci(c M, k string) int64 {
	switch v := c[k].(type) {
	case float64:
		return int64(v)
	case int64:
		return v
	case int:
		return int64(v)
	}
	return 0
}

func cl(c M, k string) []string {
	out := []string{}
	l, _ := c[k].([]any)
	for _, x := range l {
		v, _ := x.(string)
		out = append(out, v)
	}
	return out
}

func now() int64 { return time.Now().Unix() }

// -----------------------------------------------------------------------------
// Keys

var (
	fkMu sync.Mutex
	fks  = map[string]any{}
)

// privKey returns the private key of that name; names starting with k or p are P-256 keys.
func privKey(name string) any {
	switch {
	case name == "rs":
		return rsaKey("rs")
	case name == "hs":
		return []byte("0123456789abcdef0123456789abcdef")
	case name == "hsk1":
		der, _ := x509.MarshalPKIXPublicKey(ecKey("k1").Public())
		return der
	}
	fkMu.Lock()
	defer fkMu.Unlock()
	if k, ok := fks[name]; ok {
		return k
	}
	var k any
	switch name {
	case "e384":
		k, _ = ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
	case "e521":
		k, _ = ecdsa.GenerateKey(elliptic.P521(), rand.Reader)
	case "ed":
		_, k, _ = ed25519.GenerateKey(rand.Reader)
	default:
		k = ecKey(name)
	}
	fks[name] = k
	return k
}

func pubKey(name string) any {
	if p, ok := privKey(name).(crypto.Signer); ok {
		return p.Public()
	}
	return privKey(name)
}

var keyAlgs = map[string]jose.SignatureAlgorithm{"e384": jose.ES384, "e521": jose.ES512, "rs": jose.RS256, "ed": jose.EdDSA, "hs": jose.HS256, "hsk1": jose.HS256}

func algOf(name string) jose.SignatureAlgorithm {
	if a, ok := keyAlgs[name]; ok {
		return a
	}
	return jose.ES256
}

var algSets = map[string][]jose.SignatureAlgorithm{
	"es": {jose.ES256, jose.ES384, jose.ES512}, "es384": {jose.ES384}, "rs": {jose.RS256},
	"all": {jose.ES256, jose.ES384, jose.ES512, jose.RS256, jose.EdDSA, jose.HS256},
}

func keyThumb(name string) string {
	if _, ok := privKey(name).([]byte); ok || name == "none" || name == "" {
		return ""
	}
	h, err := (&jose.JSONWebKey{Key: pubKey(name)}).Thumbprint(crypto.SHA256)
	if err != nil {
		return ""
	}
	return base64.RawURLEncoding.EncodeToString(h)
}

// keySet builds the public key set of a case: [{k,use,kid}].
func keySet(v any) *jose.JSONWebKeySet {
	out := &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{}}
	l, _ := v.([]any)
	for _, x := range l {
		m := x.(map[string]any)
		out.Keys = append(out.Keys, jose.JSONWebKey{Key: pubKey(cs(m, "k")), Use: cs(m, "use"), KeyID: cs(m, "kid")})
	}
	return out
}

func keySetJSON(v any) []byte {
	raw, err := json.Marshal(keySet(v))
	if err != nil {
		panic(err)
	}
	return raw
}

// jws signs the payload with the named key.
func jws(key string, hdr map[string]any, payload []byte) string {
	return sign(privKey(key), algOf(key), hdr, payload)
}

// tamper alters a compact serialization.
func tamper(raw, how string) string {
	ps := strings.Split(raw, ".")
	switch how {
	case "none", "":
		return raw
	case "flipsig":
		return flip(raw, 2)
	case "payload":
		// another content under the same signature
		b, _ := base64.RawURLEncoding.DecodeString(ps[1])
		if i := bytes.LastIndexByte(b, '}'); i > 0 {
			b = append(append(b[:i:i], []byte(`,"zz":1`)...), b[i:]...)
		} else {
			b = append(b, ' ')
		}
		ps[1] = base64.RawURLEncoding.EncodeToString(b)
	case "header":
		b, _ := base64.RawURLEncoding.DecodeString(ps[0])
		i := bytes.LastIndexByte(b, '}')
		b = append(append(b[:i:i], []byte(`,"zz":1`)...), b[i:]...)
		ps[0] = base64.RawURLEncoding.EncodeToString(b)
	case "trunc":
		return raw[:len(raw)-4]
	case "extend":
		return raw + "AAAA"
	case "nosig":
		ps[2] = ""
	case "twoparts":
		return ps[0] + "." + ps[1]
	case "extra":
		return raw + "." + ps[2]
	case "algnone":
		b, _ := base64.RawURLEncoding.DecodeString(ps[0])
		var h map[string]any
		_ = json.Unmarshal(b, &h)
		h["alg"] = "none"
		b, _ = json.Marshal(h)
		ps[0], ps[2] = base64.RawURLEncoding.EncodeToString(b), ""
	case "othersig":
		// the signature of another token by the same key
		b, _ := base64.RawURLEncoding.DecodeString(ps[2])
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		ps[2] = base64.RawURLEncoding.EncodeToString(b)
	case "garbage":
		return "not.a.token"
	case "empty":
		return ""
	}
	return strings.Join(ps, ".")
}

// instant resolves a claim holding an instant: kind num, absent, zero, str, neg, float, huge.
func instant(claims M, name, kind string, v int64) {
	switch kind {
	case "num":
		claims[name] = v
	case "zero":
		claims[name] = 0
	case "str":
		claims[name] = strconv.FormatInt(v, 10)
	case "neg":
		claims[name] = -v
	case "frac":
		claims[name] = float64(v) + 0.5
	case "huge":
		claims[name] = uint64(math.MaxUint64)
	}
}

func put(claims M, name, v string) {
	if v != "" {
		claims[name] = v
	}
}

func js(v any) []byte {
	raw, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return raw
}

// -----------------------------------------------------------------------------
// Client authentication

type authnClients struct {
	byID map[string]*clientv1.Client
	mode string // ok, fail, first, second, nothing, nothing1, nothing2
	n    int
}

func (r *authnClients) Get(_ context.Context, id string) (*clientv1.Client, error) {
	r.n++
	if r.mode == "fail" || (r.mode == "first" && r.n == 1) || (r.mode == "second" && r.n == 2) {
		return nil, errInjected
	}
	if r.mode == "nothing" || (r.mode == "nothing1" && r.n == 1) || (r.mode == "nothing2" && r.n == 2) {
		return nil, nil
	}
	if c, ok := r.byID[id]; ok {
		return c, nil
	}
	return nil, storage.ErrNotFound
}

func (r *authnClients) GetByName(context.Context, string) (*clientv1.Client, error) {
	return nil, storage.ErrNotFound
}

func authnRegistry(c M) *authnClients {
	a := &clientv1.Client{ClientId: "A"}
	switch cs(c, "jst") {
	case "ok":
		a.Jwks = keySetJSON(c["ks"])
	case "bad":
		a.Jwks = []byte("{not json")
	case "empty":
		a.Jwks = []byte(`{"keys":[]}`)
	case "null":
		a.Jwks = []byte(`null`)
	}
	b := &clientv1.Client{ClientId: "B", Jwks: js(&jose.JSONWebKeySet{Keys: []jose.JSONWebKey{{Key: pubKey("k2"), Use: "sig", KeyID: "k2"}}})}
	return &authnClients{mode: cs(c, "store"), byID: map[string]*clientv1.Client{"A": a, "B": b, "C": {ClientId: "C"}}}
}

// registryOf is the registry of a case; long-lived objects find it in the context.
func registryOf(c M) storage.ClientReader { return lentOr(c, authnRegistry(c)) }

func authnRequest(c M, raw string) *clientv1.AuthenticateRequest {
	if !cb(c, "req") {
		return nil
	}
	in := &clientv1.AuthenticateRequest{}
	at := map[string]string{
		"jwt": oidc.AssertionTypeJWTBearer, "attest": oidc.AssertionTypeJWTClientAttestation, "saml": "urn:ietf:params:oauth:client-assertion-type:saml2-bearer",
		"JWT": strings.ToUpper(oidc.AssertionTypeJWTBearer), "ATTEST": strings.ToUpper(oidc.AssertionTypeJWTClientAttestation), "blank": "",
		"jwt ": oidc.AssertionTypeJWTBearer + " ", "jw": strings.TrimSuffix(oidc.AssertionTypeJWTBearer, "r"), "attest ": oidc.AssertionTypeJWTClientAttestation + " ", "attes": strings.TrimSuffix(oidc.AssertionTypeJWTClientAttestation, "n"),
	}
	if v, ok := at[cs(c, "type")]; ok {
		in.ClientAssertionType = &v
	}
	switch cs(c, "as") {
	case "ok":
		in.ClientAssertion = &raw
	case "blank":
		e := ""
		in.ClientAssertion = &e
	}
	if id := cs(c, "cid"); id != "" {
		in.ClientId = &id
	}
	return in
}

func authnCall(proc clientauthentication.AuthenticationProcessor, in *clientv1.AuthenticateRequest) func(context.Context) M {
	return func(ctx context.Context) M {
		var res *clientv1.AuthenticateResponse
		var err error
		p := guard(func() { res, err = proc.Authenticate(ctx, in) })
		return merge(outcome(p, err, res.GetError(), res.GetClient() != nil), M{"client": res.GetClient().GetClientId()})
	}
}

func hdrOf(kid, typ string) map[string]any {
	h := map[string]any{}
	if kid != "" {
		h["kid"] = kid
	}
	if typ != "" {
		h["typ"] = typ
	}
	return h
}

func init() {
	fops["pkj"] = func(s *system, c, a M) func(context.Context) M {
		exp := now() + ci(c, "exp")
		claims := M{"iat": now()}
		put(claims, "iss", cs(c, "iss"))
		put(claims, "sub", cs(c, "sub"))
		put(claims, "aud", cs(c, "aud"))
		put(claims, "jti", cs(c, "jti"))
		instant(claims, "exp", cs(c, "exps"), exp)
		a["exp"], a["at"] = exp, cs(c, "type")
		if cs(c, "type") == "jwt" {
			a["at"] = "ok"
		}
		raw := tamper(jws(cs(c, "key"), hdrOf(cs(c, "hkid"), cs(c, "typ")), js(claims)), cs(c, "tamper"))
		reg := registryOf(c)
		proc := live(s, c, func() clientauthentication.AuthenticationProcessor {
			return clientauthentication.PrivateKeyJWT(reg, algSets[cs(c, "allowed")])
		}, "pkj", cs(c, "allowed"))
		return authnCall(proc, authnRequest(c, raw))
	}

	fops["att"] = func(s *system, c, a M) func(context.Context) M {
		aexp, anbf, pexp, pnbf := now()+ci(c, "a_exp"), now()+ci(c, "a_nbf"), now()+ci(c, "p_exp"), now()+ci(c, "p_nbf")
		a["a_exp"], a["a_nbf"], a["p_exp"], a["p_nbf"], a["at"] = aexp, anbf, pexp, pnbf, cs(c, "type")
		if cs(c, "type") == "attest" {
			a["at"] = "ok"
		}
		att := M{"iat": now(), "jti": "att-1"}
		put(att, "iss", cs(c, "a_iss"))
		put(att, "sub", cs(c, "a_sub"))
		instant(att, "exp", cs(c, "a_exps"), aexp)
		instant(att, "nbf", cs(c, "a_nbfs"), anbf)
		switch v := cs(c, "cnf"); v {
		case "none":
		case "nojwk":
			att["cnf"] = M{"jkt": keyThumb("p1")}
		case "bad":
			att["cnf"] = M{"jwk": M{"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA"}}
		case "null":
			att["cnf"] = M{"jwk": nil}
		default:
			att["cnf"] = M{"jwk": jose.JSONWebKey{Key: pubKey(v)}}
		}
		pop := M{"iat": now()}
		put(pop, "iss", cs(c, "p_iss"))
		put(pop, "aud", cs(c, "p_aud"))
		put(pop, "jti", cs(c, "p_jti"))
		instant(pop, "exp", cs(c, "p_exps"), pexp)
		instant(pop, "nbf", cs(c, "p_nbfs"), pnbf)
		ra := tamper(jws(cs(c, "a_key"), hdrOf("", "client-attestation+jwt"), js(att)), cs(c, "a_tamper"))
		rp := tamper(jws(cs(c, "p_key"), hdrOf("", "client-attestation-pop+jwt"), js(pop)), cs(c, "p_tamper"))
		raw := ra + "~" + rp
		switch cs(c, "sep") {
		case "none":
			raw = ra + rp
		case "alone":
			raw = ra
		case "two":
			raw = ra + "~" + rp + "~" + rp
		case "swap":
			raw = rp + "~" + ra
		case "popempty":
			raw = ra + "~"
		case "attempty":
			raw = "~" + rp
		case "dup":
			raw = ra + "~" + ra
		}
		reg := registryOf(c)
		proc := live(s, c, func() clientauthentication.AuthenticationProcessor {
			return clientauthentication.ClientAttestation(reg, algSets[cs(c, "allowed")])
		}, "att", cs(c, "allowed"))
		return authnCall(proc, authnRequest(c, raw))
	}

	fops["ctx"] = func(s *system, c, a M) func(context.Context) M {
		return func(ctx context.Context) M {
			var found bool
			var got *clientv1.Client
			outer := "-"
			p := guard(func() {
				if o := cs(c, "outer"); o != "-" {
					ctx = clientauthentication.Inject(ctx, &clientv1.Client{ClientId: o})
				}
				in := ctx
				if cb(c, "inject") {
					in = clientauthentication.Inject(ctx, &clientv1.Client{ClientId: cs(c, "cli")})
				} else {
					in = context.WithValue(context.Background(), "client", &clientv1.Client{ClientId: "fake"}) //nolint
				}
				got, found = clientauthentication.FromContext(in)
				if x, ok := clientauthentication.FromContext(ctx); ok {
					outer = x.ClientId
				}
			})
			return merge(outcome(p, nil, nil, false), M{"found": found, "client": got.GetClientId(), "outer": outer})
		}
	}
}

// -----------------------------------------------------------------------------
// JWT

type claimBag struct {
	C string `json:"c"`
}

func provider(ks *jose.JSONWebKeySet, mode string) jwk.KeySetProviderFunc {
	return func(context.Context) (*jose.JSONWebKeySet, error) {
		if mode == "err" {
			return nil, errInjected
		}
		return ks, nil
	}
}

func accessors(v token.Verifier, raw string) M {
	out := M{"parsed": false, "typ": "", "kid": "", "alg": "", "thumb": "", "verified": false}
	_ = guard(func() {
		out["verified"] = v.Verify(raw) == nil
		t, err := v.Parse(raw)
		if err != nil {
			return
		}
		out["parsed"] = true
		out["typ"], _ = t.Type()
		out["kid"], _ = t.KeyID()
		out["alg"], _ = t.Algorithm()
		out["thumb"], _ = t.PublicKeyThumbPrint()
	})
	return out
}

func init() {
	verify := func(op string) fop {
		return func(s *system, c, a M) func(context.Context) M {
			payload := js(M{"c": cs(c, "c"), "n": 1})
			if cs(c, "payload") == "notjson" {
				payload = []byte("plain text")
			}
			hdr := hdrOf(cs(c, "kid"), cs(c, "typ"))
			a["thumb"] = ""
			if j := cs(c, "jwk"); j != "" && j != "none" && j != "private" {
				hdr["jwk"] = jose.JSONWebKey{Key: pubKey(j)}
				a["thumb"] = keyThumb(j)
			}
			raw := jws(cs(c, "key"), hdr, payload)
			if cs(c, "jwk") == "private" {
				hdr["jwk"] = jose.JSONWebKey{Key: privKey(cs(c, "key"))}
				hdr["alg"] = algOf(cs(c, "key"))
				in := b64(string(js(hdr))) + "." + b64(string(payload))
				raw = in + "." + strings.Split(raw, ".")[2]
			}
			raw = tamper(raw, cs(c, "tamper"))
			allowed := algSets[cs(c, "allowed")]
			ksp := lendSet(c, provider(keySet(c["ks"]), cs(c, "prov")))
			v := live(s, c, func() token.Verifier {
				if op == "vemb" {
					return jwt.EmbeddedKeyVerifier(allowed)
				}
				return jwt.DefaultVerifier(ksp, allowed)
			}, op, cs(c, "allowed"))
			return func(ctx context.Context) M {
				var bag claimBag
				var err error
				acc := M{}
				p := guard(func() {
					switch op {
					case "vclaims":
						acc = accessors(v, raw)
						err = v.Claims(ctx, raw, &bag)
					case "vemb":
						acc = accessors(v, raw)
						err = v.Claims(ctx, raw, &bag)
					case "vset":
						ks := keySet(c["ks"])
						if cb(c, "nilks") {
							ks = nil
						}
						t, perr := josejwt.ParseSigned(raw, allowed)
						if perr != nil && !cb(c, "niltok") {
							err = perr
							return
						}
						if cb(c, "niltok") {
							t = nil
						}
						err = jwk.ValidateToken(ks, t, &bag)
					case "vsig":
						ks := keySet(c["ks"])
						if cb(c, "nilks") {
							ks = nil
						}
						t, perr := jose.ParseSigned(raw, allowed)
						if perr != nil && !cb(c, "niltok") {
							err = perr
							return
						}
						if cb(c, "niltok") {
							t = nil
						}
						err = jwk.ValidateSignature(ks, t)
					}
				})
				return merge(merge(outcome(p, err, nil, false), M{"got": bag.C}), acc)
			}
		}
	}
	for _, op := range []string{"vclaims", "vemb", "vset", "vsig"} {
		fops[op] = verify(op)
	}
}

// keyProvider gives the private key of a case.
func keyProvider(c M) jwk.KeyProviderFunc {
	if cs(c, "prov") == "nilfn" {
		return nil
	}
	return func(context.Context) (*jose.JSONWebKey, error) {
		switch cs(c, "prov") {
		case "err":
			return nil, errInjected
		case "nil":
			return nil, nil
		}
		if cb(c, "pub") {
			return &jose.JSONWebKey{Key: pubKey(cs(c, "key")), KeyID: cs(c, "kid")}, nil
		}
		return &jose.JSONWebKey{Key: privKey(cs(c, "key")), KeyID: cs(c, "kid")}, nil
	}
}

var jwtSigners = map[string]func(jose.SignatureAlgorithm, jwk.KeyProviderFunc) token.Serializer{
	"at": jwt.AccessTokenSigner, "rt": jwt.RefreshTokenSigner, "req": jwt.RequestSigner, "jarm": jwt.JARMSigner, "dpop": jwt.DPoPSigner,
	"ca": jwt.ClientAssertionSigner, "intro": jwt.TokenIntrospection, "meta": jwt.ServerMetadata,
}

// decodeJWT opens a compact token independently of the code under test.
func decodeJWT(raw string) (hdr, payload M, body []byte) {
	ps := strings.Split(raw, ".")
	if len(ps) != 3 {
		return M{}, M{}, nil
	}
	h, _ := base64.RawURLEncoding.DecodeString(ps[0])
	body, _ = base64.RawURLEncoding.DecodeString(ps[1])
	_ = json.Unmarshal(h, &hdr)
	_ = json.Unmarshal(body, &payload)
	return hdr, payload, body
}

func verifiesWith(raw, key string) bool {
	o, err := jose.ParseSigned(raw, algSets["all"])
	if err != nil {
		return false
	}
	_, err = o.Verify(pubKey(key))
	return err == nil
}

func (s *system) signClaims(c M) any {
	switch cs(c, "claims") {
	case "nil":
		return nil
	case "nilptr":
		return (*claimBag)(nil)
	case "chan":
		return M{"c": make(chan int)}
	}
	return M{"c": cs(c, "c")}
}

func init() {
	fops["sign"] = func(s *system, c, a M) func(context.Context) M {
		a["payload"] = cs(c, "c")
		if cs(c, "form") == "cwt" {
			return cwtSign(s, c)
		}
		kp := lendKeys(c, keyProvider(c))
		ser := live(s, c, func() token.Serializer { return jwtSigners[cs(c, "w")](jose.SignatureAlgorithm(cs(c, "alg")), kp) }, "jwt", cs(c, "w"), cs(c, "alg"), kp == nil)
		return func(ctx context.Context) M {
			var raw string
			var err error
			p := guard(func() { raw, err = ser.Serialize(ctx, s.signClaims(c)) })
			hdr, pl, _ := decodeJWT(raw)
			embedded := "none"
			if j, ok := hdr["jwk"].(map[string]any); ok {
				embedded = "public"
				if _, ok := j["d"]; ok {
					embedded = "private"
				}
				var k jose.JSONWebKey
				if k.UnmarshalJSON(js(j)) != nil {
					embedded = "invalid"
				} else if h, err := k.Thumbprint(crypto.SHA256); err != nil || base64.RawURLEncoding.EncodeToString(h) != keyThumb(cs(c, "key")) {
					embedded = "other"
				}
			}
			return merge(outcome(p, err, nil, raw != ""), M{
				"typ": cs(hdr, "typ"), "kid": cs(hdr, "kid"), "alg": cs(hdr, "alg"), "verifies": verifiesWith(raw, cs(c, "key")), "payload": cs(pl, "c"),
				"ctype": ser.ContentType(), "embedded": embedded,
			})
		}
	}

	fops["encrypt"] = func(s *system, c, a M) func(context.Context) M {
		var ser token.Serializer
		var enc token.Encrypter
		fs, fe := &fakeSerializer{ct: cs(c, "ct"), fail: cs(c, "ser") == "fail"}, &fakeEncrypter{fail: cs(c, "enc") == "fail"}
		switch cs(c, "ser") {
		case "nil":
		case "nilptr":
			ser = (*fakeSerializer)(nil)
		default:
			ser = fs
		}
		switch cs(c, "enc") {
		case "nil":
		case "nilptr":
			enc = (*fakeEncrypter)(nil)
		default:
			enc = fe
		}
		return func(ctx context.Context) M {
			var out, ct string
			var err error
			p := guard(func() {
				w := token.Encryption(ser, enc)
				ct = w.ContentType()
				out, err = w.Serialize(ctx, cs(c, "claims"))
			})
			return merge(outcome(p, err, nil, out != ""), M{"out": out, "seen": fe.seen, "ct": fe.ct, "aad": fe.aad, "ctype": ct})
		}
	}
}

type fakeSerializer struct {
	ct   string
	fail bool
}

func (f *fakeSerializer) Serialize(_ context.Context, claims any) (string, error) {
	if f.fail {
		return "partial", errInjected
	}
	return fmt.Sprintf("signed(%v)", claims), nil
}
func (f *fakeSerializer) ContentType() string { return f.ct }

type fakeEncrypter struct {
	fail          bool
	seen, ct, aad string
}

func (f *fakeEncrypter) Encrypt(_ context.Context, contentType, tk string, aad []byte) (string, error) {
	f.seen, f.ct, f.aad = tk, contentType, string(aad)
	if f.fail {
		return "partial", errInjected
	}
	return "enc(" + tk + ")", nil
}

// -----------------------------------------------------------------------------
// JARM

func init() {
	fops["jarmenc"] = func(s *system, c, a M) func(context.Context) M {
		iss := or(cs(c, "iss"), "I1")
		if v, ok := issuers[iss]; ok {
			iss = v
		}
		if cs(c, "iss") == "-" {
			iss = ""
		}
		a["iss"] = iss
		kp := lendKeys(c, keyProvider(M{"prov": cs(c, "prov"), "key": cs(c, "key"), "kid": cs(c, "key")}))
		enc := live(s, c, func() jarm.ResponseEncoder { return jarm.Encoder(jwt.JARMSigner(algOf(cs(c, "key")), kp)) }, "jarmenc", algOf(cs(c, "key")), kp == nil)
		in := &flowv1.AuthorizeResponse{ClientId: cs(c, "cli"), Code: cs(c, "code"), State: cs(c, "state"), ExpiresIn: uint64(ci(c, "exp"))}
		if cb(c, "errset") {
			in.Error = &corev1.Error{Err: cs(c, "err"), ErrorDescription: cs(c, "desc"), State: optional(cs(c, "estate")), ErrorUri: optional(cs(c, "uri"))}
		}
		if !cb(c, "rset") {
			in = nil
		}
		return func(ctx context.Context) M {
			var raw string
			var err error
			p := guard(func() { raw, err = enc.Encode(ctx, iss, in) })
			if err == nil && p == "" {
				s.bind("jarm", raw)
			} else {
				s.unbind("jarm")
			}
			hdr, pl, _ := decodeJWT(raw)
			return merge(outcome(p, err, nil, raw != ""), M{
				"raw": raw, "typ": cs(hdr, "typ"), "iss": cs(pl, "iss"), "aud": cs(pl, "aud"), "exp": ci(pl, "exp"), "state": cs(pl, "state"), "code": cs(pl, "code"),
				"error": cs(pl, "error"), "desc": cs(pl, "error_description"), "uri": cs(pl, "error_uri"),
			})
		}
	}
	fops["jarmdec"] = func(s *system, c, a M) func(context.Context) M {
		diss := or(cs(c, "diss"), "I1")
		if v, ok := issuers[diss]; ok {
			diss = v
		}
		a["diss"] = diss
		var raw string
		if cb(c, "crafted") {
			ct, _ := c["content"].(map[string]any)
			exp := int64(0)
			claims := M{}
			if cs(ct, "exps") == "num" {
				exp = now() + ci(ct, "exp")
				claims["exp"] = exp
			}
			iss := cs(ct, "iss")
			if v, ok := issuers[iss]; ok {
				iss = v
			}
			put(claims, "iss", iss)
			put(claims, "aud", cs(ct, "aud"))
			put(claims, "code", cs(ct, "code"))
			put(claims, "state", cs(ct, "state"))
			put(claims, "error", cs(ct, "err"))
			put(claims, "error_description", cs(ct, "desc"))
			put(claims, "error_uri", cs(ct, "uri"))
			raw = jws(cs(ct, "key"), hdrOf(cs(ct, "kid"), cs(ct, "typ")), js(claims))
			a["content"] = M{"iss": iss, "aud": cs(ct, "aud"), "exp": exp, "code": cs(ct, "code"), "state": cs(ct, "state"), "err": cs(ct, "err"), "desc": cs(ct, "desc"), "uri": cs(ct, "uri"),
				"typ": cs(ct, "typ"), "key": cs(ct, "key"), "kid": cs(ct, "kid")}
		} else {
			raw = s.ref(or(cs(c, "ref"), "jarm#last"))
		}
		if strings.Count(raw, ".") == 2 || cs(c, "tamper") == "empty" {
			raw = tamper(raw, cs(c, "tamper"))
		}
		a["raw"] = raw
		ksp := lendSet(c, provider(keySet(c["ks"]), "ok"))
		dec := live(s, c, func() jarm.ResponseDecoder { return jarm.Decoder(diss, jwt.DefaultVerifier(ksp, algSets["es"])) }, "jarmdec", diss)
		return func(ctx context.Context) M {
			var res *flowv1.AuthorizeResponse
			var err error
			p := guard(func() { res, err = dec.Decode(ctx, cs(c, "aud"), raw) })
			return merge(outcome(p, err, nil, err != nil && (res.GetCode() != "" || res.GetState() != "")), M{
				"code": res.GetCode(), "state": res.GetState(), "iss": res.GetIssuer(), "error": res.GetError().GetErr(), "desc": res.GetError().GetErrorDescription(), "uri": res.GetError().GetErrorUri(),
			})
		}
	}
}

// optional gives nil for a blank value.
func optional(v string) *string {
	if v == "" {
		return nil
	}
	return &v
}

// -----------------------------------------------------------------------------
// Request objects

var reqValues = map[string]string{
	"plain": "value", "unicode": "é€😀", "json": `"},{"a":[1]`, "empty": "", "number": "12345", "bool": "true", "null": "null", "space": " a\tb\n ", "url": "https://a.example/?x=<&>#f",
	"escape": `\u0000\\"`, "long": strings.Repeat("abcdefgh", 512),
}

// buildRequest fills the named fields of an authorization request with a value of that kind.
func buildRequest(fields []string, kind string) *flowv1.AuthorizationRequest {
	out := &flowv1.AuthorizationRequest{}
	m := out.ProtoReflect()
	for i, n := range fields {
		fd := m.Descriptor().Fields().ByName(protoreflect.Name(n))
		if fd == nil {
			panic("unknown field " + n)
		}
		v := reqValues[kind]
		switch {
		case fd.IsList():
			l := m.Mutable(fd).List()
			l.Append(protoreflect.ValueOfString(v))
			l.Append(protoreflect.ValueOfString(fmt.Sprint(n, i)))
		case fd.Kind() == protoreflect.Uint64Kind:
			n := uint64(len(v)) * 1000003
			if kind == "long" {
				n = math.MaxUint64
			}
			m.Set(fd, protoreflect.ValueOfUint64(n))
		default:
			if kind == "plain" {
				v = fmt.Sprint(n, "-", i)
			}
			m.Set(fd, protoreflect.ValueOfString(v))
		}
	}
	return out
}

func reqHex(r *flowv1.AuthorizationRequest) string {
	if r == nil {
		return "nil"
	}
	raw, err := proto.MarshalOptions{Deterministic: true}.Marshal(r)
	if err != nil {
		return err.Error()
	}
	// presence of empty optional fields is part of the message
	return hex.EncodeToString(raw)
}

func init() {
	fops["reqobj"] = func(s *system, c, a M) func(context.Context) M {
		fields := cl(c, "fields")
		if len(fields) == 1 && fields[0] == "*" {
			fields = nil
			ds := (&flowv1.AuthorizationRequest{}).ProtoReflect().Descriptor().Fields()
			for i := 0; i < ds.Len(); i++ {
				fields = append(fields, string(ds.Get(i).Name()))
			}
		}
		req := buildRequest(fields, cs(c, "kind"))
		a["req"] = reqHex(req)
		kid := cs(c, "kid")
		hk := kid
		if hk == "" {
			hk = "unlisted"
		}
		sc := M{"prov": cs(c, "prov"), "key": cs(c, "key"), "kid": hk}
		kp, ksp := lendKeys(c, keyProvider(sc)), lendSet(c, provider(keySet(c["ks"]), "ok"))
		enc := live(s, c, func() jwsreq.AuthorizationEncoder {
			return jwsreq.AuthorizationRequestEncoder(jwt.RequestSigner(algOf(cs(c, "key")), kp))
		}, "reqenc", algOf(cs(c, "key")), kp == nil)
		dec := live(s, c, func() jwsreq.AuthorizationDecoder {
			return jwsreq.AuthorizationRequestDecoder(jwt.DefaultVerifier(ksp, algSets[cs(c, "allowed")]))
		}, "reqdec", cs(c, "allowed"))
		if !cb(c, "rset") {
			req = nil
		}
		return func(ctx context.Context) M {
			var raw string
			var got *flowv1.AuthorizationRequest
			var err error
			p := guard(func() {
				raw, err = enc.Encode(ctx, req)
				if err != nil {
					return
				}
				_, _, body := decodeJWT(raw)
				if x := cs(c, "extra"); x != "none" || kid == "" {
					// craft the object with the same key
					var pl M
					_ = json.Unmarshal(body, &pl)
					switch x {
					case "unknown":
						pl["verif_unknown"] = "x"
					case "camel":
						pl["verifUnknown"] = M{"a": 1}
					case "typed":
						pl["state"] = 12
					case "list":
						pl["scope"] = []string{"openid"}
					case "maxage":
						pl["max_age"] = "soon"
					case "nested":
						pl["nonce"] = M{"v": "x"}
					case "array":
						raw = jws(cs(c, "key"), hdrOf(kid, "oauth-authz-req+jwt"), []byte(`["a"]`))
						pl = nil
					case "scalar":
						raw = jws(cs(c, "key"), hdrOf(kid, "oauth-authz-req+jwt"), []byte(`"a"`))
						pl = nil
					}
					if pl != nil {
						raw = jws(cs(c, "key"), hdrOf(kid, "oauth-authz-req+jwt"), js(pl))
					}
				}
				raw = tamper(raw, cs(c, "tamper"))
				got, err = dec.Decode(ctx, raw)
			})
			return merge(outcome(p, err, nil, err != nil && got != nil), M{"req": reqHex(got)})
		}
	}
}
