package verifharness

import (
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/go-jose/go-jose/v4"

	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/storage"
)

var proofAlgs = []jose.SignatureAlgorithm{jose.ES256, jose.ES384, jose.ES512}

func newDPoP(st storage.DPoP) dpop.Verifier {
	return dpop.DefaultVerifier(st, jwt.EmbeddedKeyVerifier(proofAlgs))
}

var (
	keyMu sync.Mutex
	keys  = map[string]*ecdsa.PrivateKey{}
)

// ecKey returns the P-256 key of that name.
func ecKey(name string) *ecdsa.PrivateKey {
	keyMu.Lock()
	defer keyMu.Unlock()
	k, ok := keys[name]
	if !ok {
		curve := elliptic.P256()
		if strings.HasPrefix(name, "p384") {
			curve = elliptic.P384()
		}
		k, _ = ecdsa.GenerateKey(curve, rand.Reader)
		keys[name] = k
	}
	return k
}

func thumb(name string) string {
	h, err := (&jose.JSONWebKey{Key: ecKey(name).Public()}).Thumbprint(crypto.SHA256)
	if err != nil {
		panic(err)
	}
	return base64.RawURLEncoding.EncodeToString(h)
}

// sign produces a compact JWS with full control over its header.
func sign(key any, alg jose.SignatureAlgorithm, hdr map[string]any, payload []byte) string {
	opts := &jose.SignerOptions{}
	for k, v := range hdr {
		opts = opts.WithHeader(jose.HeaderKey(k), v)
	}
	s, err := jose.NewSigner(jose.SigningKey{Algorithm: alg, Key: key}, opts)
	if err != nil {
		panic(err)
	}
	o, err := s.Sign(payload)
	if err != nil {
		panic(err)
	}
	out, err := o.CompactSerialize()
	if err != nil {
		panic(err)
	}
	return out
}

func b64(in string) string { return base64.RawURLEncoding.EncodeToString([]byte(in)) }

// flip alters one character of the k-th part of a compact serialization.
func flip(raw string, part int) string {
	ps := strings.Split(raw, ".")
	b := []byte(ps[part])
	i := len(b) / 2
	if b[i] == 'A' {
		b[i] = 'B'
	} else {
		b[i] = 'A'
	}
	ps[part] = string(b)
	return strings.Join(ps, ".")
}

var htus = map[string]string{
	"T": "https://as1.example/token", "T/": "https://as1.example/token/", "Tq": "https://as1.example/token?x=1", "R": "https://rs.example/api",
	"Th": "http://as1.example/token", "TU": "https://AS1.example/token", "bad": "not a url",
}

func htu(n string) string {
	if v, ok := htus[n]; ok {
		return v
	}
	return n
}

var methods = map[string]bool{"CONNECT": true, "DELETE": true, "GET": true, "HEAD": true, "OPTIONS": true, "PATCH": true, "POST": true, "PUT": true, "TRACE": true}

// prepareProof builds a DPoP proof with the requested deviations and presents it.
func (s *system) prepareProof(c *Cmd) (M, func(context.Context) M) {
	m, u := or(c.Htm, "POST"), htu(or(c.Htu, "T"))
	cm, cu := or(c.Chtm, "POST"), htu(or(c.Chtu, "T"))
	key := or(c.Key, "k1")
	iat := time.Now().Unix() + int64(c.Iat)
	jti := or(c.Jti, "jti-1")
	tok, tokSet := s.ref(c.Tok), c.Tok != ""
	a := M{
		"htm": m, "htm_valid": methods[strings.ToUpper(m)], "htu": u, "htu_valid": uriOK(u), "parse_ok": true, "typ": "dpop+jwt", "key_ok": true,
		"sig_ok": true, "claims_ok": true, "jti": jti, "c_htm": cm, "c_htu": cu, "iat": iat, "tok_set": tokSet,
		"ath_ok": false, "cnf_set": c.Cnf != "", "cnf": "", "thumb": thumb(key),
	}
	if c.Cnf != "" {
		a["cnf"] = or(c.Cnf, "")
		if strings.HasPrefix(c.Cnf, "k") {
			a["cnf"] = thumb(c.Cnf)
		}
		// near misses of the thumbprint of a key
		if k, ok := strings.CutPrefix(c.Cnf, "lower:"); ok {
			a["cnf"] = strings.ToLower(thumb(k))
		}
		if k, ok := strings.CutPrefix(c.Cnf, "cut:"); ok {
			a["cnf"] = thumb(k)[:42]
		}
		if k, ok := strings.CutPrefix(c.Cnf, "pad:"); ok {
			a["cnf"] = thumb(k) + "="
		}
	}
	if pu, err := url.ParseRequestURI(u); err == nil {
		a["htu"] = pu.String()
	}
	claims := M{"jti": jti, "htm": cm, "htu": cu, "iat": iat}
	if c.Ath != "" {
		claims["ath"] = s256(s.ref(c.Ath))
	}
	hdr := map[string]any{"typ": "dpop+jwt", "jwk": jose.JSONWebKey{Key: ecKey(key).Public()}}
	payload, _ := json.Marshal(claims)
	var raw string
	mk := func() { raw = sign(ecKey(key), jose.ES256, hdr, payload) }
	for _, d := range strings.Split(c.Dev, ",") {
		if v, ok := strings.CutPrefix(d, "typ:"); ok {
			hdr["typ"], a["typ"] = v, v
		}
		if v, ok := strings.CutPrefix(d, "ath:"); ok {
			sum := sha256.Sum256([]byte(tok))
			claims["ath"] = map[string]string{"lower": strings.ToLower(s256(tok)), "upper": strings.ToUpper(s256(tok)), "cut": s256(tok)[:42], "pad": s256(tok) + "=", "blank": s256(tok) + " ",
				"std": base64.StdEncoding.EncodeToString(sum[:]), "hex": hex.EncodeToString(sum[:]), "twice": s256(s256(tok)), "none": ""}[v]
		}
		switch d {
		case "typ":
			hdr["typ"], a["typ"] = "jwt", "jwt"
		case "typcase":
			hdr["typ"], a["typ"] = "DPoP+JWT", "DPoP+JWT"
		case "notyp":
			delete(hdr, "typ")
			a["typ"] = ""
		case "nojwk":
			delete(hdr, "jwk")
			a["key_ok"] = false
		case "noath":
			delete(claims, "ath")
		case "athplain":
			claims["ath"] = tok
		case "strayath":
			// an ath although no token is presented
			claims["ath"] = s256("another")
		case "nojti":
			delete(claims, "jti")
			a["jti"] = ""
		case "iatfloat":
			claims["iat"] = fmt.Sprint(iat)
			a["claims_ok"] = false
		case "jtinum":
			claims["jti"] = 12
			a["claims_ok"] = false
		case "noiat":
			delete(claims, "iat")
			a["iat"] = int64(0)
		case "htmcase":
			claims["htm"], a["c_htm"] = strings.ToLower(cm), strings.ToLower(cm)
		}
	}
	payload, _ = json.Marshal(claims)
	mk()
	ath, _ := claims["ath"].(string)
	for _, d := range strings.Split(c.Dev, ",") {
		switch d {
		case "wrongkey":
			// signed by another key than the embedded one
			raw = sign(ecKey("kx"), jose.ES256, hdr, payload)
			a["sig_ok"] = false
		case "flipsig":
			raw = flip(raw, 2)
			a["sig_ok"] = false
		case "flippayload":
			// replace the payload, keep the signature
			ps := strings.Split(raw, ".")
			claims["jti"] = jti + "x"
			np, _ := json.Marshal(claims)
			raw = ps[0] + "." + b64(string(np)) + "." + ps[2]
			a["sig_ok"] = false
		case "trunc":
			raw = raw[:len(raw)-4]
			a["sig_ok"] = false
		case "alg":
			// a disallowed algorithm with a matching key
			k := ecKey("p256rs")
			_ = k
			raw = sign(rsaKey("rs"), jose.RS256, map[string]any{"typ": "dpop+jwt", "jwk": jose.JSONWebKey{Key: rsaKey("rs").Public()}}, payload)
			a["parse_ok"] = false
		case "es384":
			raw = sign(ecKey("p384"), jose.ES384, map[string]any{"typ": "dpop+jwt", "jwk": jose.JSONWebKey{Key: ecKey("p384").Public()}}, payload)
			a["thumb"] = thumb("p384")
		case "hs":
			raw = sign([]byte("0123456789abcdef0123456789abcdef"), jose.HS256, map[string]any{"typ": "dpop+jwt", "jwk": jose.JSONWebKey{Key: ecKey(key).Public()}}, payload)
			a["parse_ok"] = false
		case "none":
			h, _ := json.Marshal(M{"alg": "none", "typ": "dpop+jwt", "jwk": jose.JSONWebKey{Key: ecKey(key).Public()}})
			raw = b64(string(h)) + "." + b64(string(payload)) + "."
			a["parse_ok"] = false
		case "private":
			// embeds the private key
			h, _ := json.Marshal(M{"alg": "ES256", "typ": "dpop+jwt", "jwk": jose.JSONWebKey{Key: ecKey(key)}})
			in := b64(string(h)) + "." + b64(string(payload))
			raw = in + "." + strings.Split(raw, ".")[2]
			a["parse_ok"] = false
		case "empty":
			raw = ""
			a["parse_ok"] = false
		case "garbage":
			raw = "a.b.c"
			a["parse_ok"] = false
		case "notjson":
			raw = sign(ecKey(key), jose.ES256, hdr, []byte("not json"))
			a["claims_ok"] = false
		case "prover":
			// the SDK's own prover
			var opts []dpop.Option
			if tokSet {
				opts = append(opts, dpop.WithTokenValue(tok))
				ath = s256(tok)
			} else {
				ath = ""
			}
			k := &jose.JSONWebKey{Key: ecKey(key), KeyID: "kid-" + key}
			pr := dpop.DefaultProver(jwt.DPoPSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return k, nil }))
			p, err := pr.Prove(cm, cu, opts...)
			if err != nil {
				p = ""
			}
			raw = p
			// read back what it contains
			if ps := strings.Split(p, "."); len(ps) == 3 {
				var got struct {
					Jti string `json:"jti"`
				}
				b, _ := base64.RawURLEncoding.DecodeString(ps[1])
				_ = json.Unmarshal(b, &got)
				a["jti"] = got.Jti
			}
			if cuu, err := url.ParseRequestURI(cu); err == nil {
				a["c_htu"] = fmt.Sprintf("%s://%s%s", cuu.Scheme, cuu.Host, cuu.Path)
			}
			a["iat"] = time.Now().Unix()
		}
	}
	a["ath_ok"] = tokSet && ath == s256(tok)
	// present again the very same proof
	if c.Same != "" {
		if old, ok := s.proofs[c.Same]; ok {
			raw = old
			for _, k := range []string{"parse_ok", "typ", "key_ok", "sig_ok", "claims_ok", "jti", "c_htm", "c_htu", "iat", "thumb"} {
				a[k] = s.pargs[c.Same][k]
			}
			a["ath_ok"] = tokSet && s.pargs[c.Same]["ath"] == s256(tok)
		} else {
			s.proofs[c.Same] = raw
			s.pargs[c.Same] = merge(merge(M{}, a), M{"ath": ath})
		}
	}
	return a, func(ctx context.Context) M {
		var got string
		var err error
		var opts []dpop.Option
		if tokSet {
			opts = append(opts, dpop.WithTokenValue(tok))
		}
		if c.Cnf != "" {
			opts = append(opts, dpop.WithTokenConfirmation(a["cnf"].(string)))
		}
		p := guard(func() { got, err = s.dpop.Verify(ctx, m, u, raw, opts...) })
		return merge(outcome(p, err, nil, err != nil && got != ""), M{"thumb": got})
	}
}
