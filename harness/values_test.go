package verifharness

import (
	"context"
	"crypto"
	"crypto/sha256"
	"crypto/tls"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/bits"
	mrand "math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/fxamacker/cbor/v2"
	"github.com/go-jose/go-jose/v4"
	"go.mozilla.org/cose"

	corev1 "zntr.io/solid/api/oidc/core/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/pairwise"
	"zntr.io/solid/sdk/pkce"
	"zntr.io/solid/sdk/randomness"
	"zntr.io/solid/sdk/rfcerrors"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/cwt"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/sdk/token/verifiable"
	"zntr.io/solid/sdk/types"
	"zntr.io/solid/server/profile"
	"zntr.io/solid/server/storage"
)

// -----------------------------------------------------------------------------
// CWT

var coseAlgs = func() map[string]*cose.Algorithm {
	return map[string]*cose.Algorithm{"ES256": cose.ES256, "ES384": cose.ES384, "ES512": cose.ES512, "PS256": cose.PS256}
}()

var cwtSigners = map[string]func(*cose.Algorithm, jwk.KeyProviderFunc) token.Serializer{
	"at": cwt.AccessTokenSigner, "rt": cwt.RefreshTokenSigner, "req": cwt.RequestSigner, "jarm": cwt.JARMSigner, "dpop": cwt.DPoPSigner,
	"ca": cwt.ClientAssertionSigner, "intro": cwt.TokenIntrospection,
	"def": func(a *cose.Algorithm, kp jwk.KeyProviderFunc) token.Serializer {
		return cwt.DefaultSigner("custom", a, kp)
	},
}

// decodeCWT opens a CWT: header parameters of its signature, payload, and whether it verifies with the named key.
func decodeCWT(raw, key string) (hdr M, payload []byte, ok bool) {
	hdr = M{}
	b, err := base64.RawURLEncoding.DecodeString(raw)
	if err != nil || raw == "" {
		return hdr, nil, false
	}
	o, err := cose.Unmarshal(b)
	msg, good := o.(cose.SignMessage)
	if err != nil || !good || len(msg.Signatures) != 1 {
		return hdr, nil, false
	}
	sig := msg.Signatures[0]
	for k, v := range cose.DecompressHeaders(sig.Headers.Protected) {
		hdr[fmt.Sprint(k)] = fmt.Sprint(v)
	}
	for k, v := range cose.DecompressHeaders(sig.Headers.Unprotected) {
		s, isText := v.(string)
		if raw, isBytes := v.([]byte); isBytes && !isText {
			s = string(raw)
		}
		hdr["u:"+fmt.Sprint(k)] = s
	}
	alg, known := coseAlgs[cs(hdr, "alg")]
	if !known {
		return hdr, msg.Payload, false
	}
	err = msg.Verify([]byte("solid"), []cose.Verifier{{PublicKey: pubKey(key), Alg: alg}})
	return hdr, msg.Payload, err == nil
}

func cwtSign(s *system, c M) func(context.Context) M {
	kp := lendKeys(c, keyProvider(c))
	ser := live(s, c, func() token.Serializer { return cwtSigners[cs(c, "w")](coseAlgs[cs(c, "alg")], kp) }, "cwt", cs(c, "w"), cs(c, "alg"), kp == nil)
	return func(ctx context.Context) M {
		var raw string
		var err error
		p := guard(func() { raw, err = ser.Serialize(ctx, s.signClaims(c)) })
		hdr, body, ok := decodeCWT(raw, cs(c, "key"))
		pl := map[string]any{}
		_ = cbor.Unmarshal(body, &pl)
		return merge(outcome(p, err, nil, raw != ""), M{
			"typ": cs(hdr, "typ"), "kid": cs(hdr, "u:kid"), "alg": cs(hdr, "alg"), "verifies": ok, "payload": cs(pl, "c"), "ctype": ser.ContentType(), "embedded": "none",
		})
	}
}

// -----------------------------------------------------------------------------
// Verifiable tokens

var (
	vtForm   = regexp.MustCompile(`^[0-9A-Za-z]{22}_[0-9A-Za-z]{59,60}$`)
	vtPrefix = regexp.MustCompile(`^[0-9a-z-]*$`)
)

const b62 = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

func b62int(in string) *big.Int {
	var n big.Int
	n.SetString(in, 62)
	return &n
}

func pad62(n *big.Int, l int) string {
	out := n.Text(62)
	for len(out) < l {
		out = "0" + out
	}
	return out
}

func otherChar(c byte) byte {
	i := strings.IndexByte(b62, c)
	if i < 0 {
		return 'a'
	}
	return b62[(i+1)%62]
}

// vmut alters a verifiable token.
func vmut(v, how string) string {
	ps := strings.Split(v, "_")
	if len(ps) < 2 {
		return v + how
	}
	ui, si := len(ps)-2, len(ps)-1
	name, arg, _ := strings.Cut(how, ":")
	n := 0
	fmt.Sscan(arg, &n)
	at := func(i int) {
		b := []byte(ps[i])
		k := n % len(b)
		b[k] = otherChar(b[k])
		ps[i] = string(b)
	}
	switch name {
	case "none", "":
	case "u":
		at(ui)
	case "s":
		at(si)
	case "p":
		if ui > 0 && ps[0] != "" {
			b := []byte(ps[0])
			k := n % len(b)
			if b[k] == 'a' {
				b[k] = 'b'
			} else {
				b[k] = 'a'
			}
			ps[0] = string(b)
		} else {
			ps = append([]string{"a"}, ps...)
		}
	case "noprefix":
		if ui == 0 {
			return "_" + v
		}
		ps = ps[1:]
	case "prefix":
		if ui == 0 {
			ps = append([]string{arg}, ps...)
		} else if ps[0] == arg {
			ps[0] += "x"
		} else {
			ps[0] = arg
		}
	case "upper":
		ps[0] = strings.ToUpper(ps[0])
		if strings.Join(ps, "_") == v {
			return v + "A"
		}
	case "zero": // a leading zero more in the signature
		ps[si] = "0" + ps[si]
	case "unzero": // a leading zero less, or a truncation
		ps[si] = ps[si][1:]
	case "overu":
		ps[ui] = pad62(new(big.Int).Add(b62int(ps[ui]), new(big.Int).Lsh(big.NewInt(1), uint(128))), 22)
	case "overs":
		ps[si] = pad62(new(big.Int).Add(b62int(ps[si]), new(big.Int).Lsh(big.NewInt(1), uint(352))), 59)
	case "moduu":
		ps[ui] = pad62(new(big.Int).Add(b62int(ps[ui]), new(big.Int).Lsh(big.NewInt(int64(n)), uint(128))), 22)
	case "swap":
		ps[ui], ps[si] = ps[si], ps[ui]
	case "space":
		return v + " "
	case "lead":
		return " " + v
	case "nl":
		return v + "\n"
	case "double":
		return v + "_" + ps[si]
	case "cut":
		return v[:len(v)-n]
	case "only":
		return ps[si]
	case "empty":
		return ""
	case "sign":
		ps[ui] = "-" + ps[ui][1:]
	case "plus":
		ps[ui] = "+" + ps[ui][1:]
	case "unicode":
		ps[ui] = ps[ui][:len(ps[ui])-1] + "é"
	}
	return strings.Join(ps, "_")
}

var vtTypes = map[string]tokenv1.TokenType{"at": tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, "rt": tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN,
	"pt": tokenv1.TokenType_TOKEN_TYPE_PHANTOM_TOKEN, "other": tokenv1.TokenType_TOKEN_TYPE_UNSPECIFIED}

func init() {
	fops["vgen"] = func(s *system, c, a M) func(context.Context) M {
		var id [16]byte
		switch cs(c, "uuid") {
		case "v4":
			id, _ = verifiable.UUIDv4Source()()
		case "v7":
			id, _ = verifiable.UUIDv7Source()()
		case "ones":
			for i := range id {
				id[i] = 0xff
			}
		case "small":
			id[15] = 1
		case "same":
			for i := range id {
				id[i] = byte(i * 7)
			}
		}
		src := verifiable.StaticUUIDSource(id)
		if cs(c, "src") == "err" {
			src = func() ([16]byte, error) { return id, errInjected }
		}
		via := cs(c, "via")
		pfx := or(cs(c, "pfx"), "-")
		if pfx == "-" {
			pfx = ""
		}
		switch via {
		case "at", "rt", "pt":
			a["pfx"] = map[string]string{"at": "sldat", "rt": "sldrt", "pt": "sldpt"}[via]
		case "other", "nil":
			a["pfx"] = ""
		default:
			a["pfx"] = strings.TrimSpace(strings.ToLower(pfx))
		}
		a["pfx_ok"], a["uuid"], a["set"] = vtPrefix.MatchString(cs(a, "pfx")), hex.EncodeToString(id[:]), via != "nil"
		key := []byte(cs(c, "key"))
		raws := live(s, c, func() verifiable.Generator { return verifiable.UUIDGenerator(src, key) }, "vgen", cs(c, "key"), cs(a, "uuid"), cs(c, "src"))
		toks := live(s, c, func() token.Generator { return verifiable.Token(src, key) }, "vtok", cs(c, "key"), cs(a, "uuid"), cs(c, "src"))
		return func(ctx context.Context) M {
			var out string
			var err error
			p := guard(func() {
				switch via {
				case "raw":
					var opts []verifiable.GenerateOption
					if pfx != "" {
						opts = append(opts, verifiable.WithTokenPrefix(pfx))
					}
					out, err = raws.Generate(opts...)
				case "nil":
					out, err = toks.Generate(ctx, nil)
				default:
					out, err = toks.Generate(ctx, &tokenv1.Token{TokenType: vtTypes[via]})
				}
			})
			s.unbind("vt")
			if err == nil && p == "" {
				s.bind("vt", out)
			}
			rest, pre := out, ""
			if ps := strings.Split(out, "_"); len(ps) > 2 {
				rest = strings.Join(ps[len(ps)-2:], "_")
				pre = out[:len(out)-len(rest)]
			}
			return merge(outcome(p, err, nil, out != ""), M{"val": out, "pre": pre, "form": vtForm.MatchString(rest)})
		}
	}
	fops["vext"] = func(s *system, c, a M) func(context.Context) M {
		val := vmut(s.ref(or(cs(c, "ref"), "vt#last")), cs(c, "mut"))
		a["val"] = val
		v := live(s, c, func() verifiable.VerifiableUUIDExtractor { return verifiable.UUIDVerifier([]byte(cs(c, "key"))) }, "vext", cs(c, "key"))
		return func(context.Context) M {
			var out []byte
			var err error
			verify := false
			p := guard(func() {
				out, err = v.Extract(val)
				verify = v.Verify(val) == nil
			})
			return merge(outcome(p, err, nil, err != nil && len(out) > 0), M{"uuid": hex.EncodeToString(out), "verify": verify})
		}
	}
}

// -----------------------------------------------------------------------------
// PKCE, pairwise subjects

var (
	unreserved = regexp.MustCompile(`^[A-Za-z0-9._~-]*$`)
	b64url     = regexp.MustCompile(`^[A-Za-z0-9_-]*$`)
)

func init() {
	fops["pkcegen"] = func(s *system, c, a M) func(context.Context) M {
		return func(context.Context) M {
			var ver, chal string
			var err error
			valid := false
			p := guard(func() {
				ver, chal, err = pkce.CodeVerifier()
				if err == nil {
					valid, err = pkce.Validate(chal, ver)
				}
			})
			return merge(outcome(p, err, nil, false), M{"ver": ver, "len": len(ver), "charset": unreserved.MatchString(ver), "s256": chal == s256(ver), "valid": valid})
		}
	}
	fops["pkceval"] = func(s *system, c, a M) func(context.Context) M {
		chal, ver := "", ""
		if v := cs(c, "chal"); v != "-" {
			chal = challenge(v)
		}
		if v := cs(c, "ver"); v != "-" {
			ver = verifier(strings.TrimPrefix(v, "chal:"))
			if strings.HasPrefix(v, "chal:") {
				ver = s256(ver)
			}
		}
		if m := cs(c, "cmut"); m != "" && len(chal) > 4 {
			b := []byte(chal)
			switch m {
			case "swapcase":
				b = []byte(strings.ToLower(chal))
			case "first":
				b[0] = otherChar(b[0])
			case "mid":
				b[len(b)/2] = otherChar(b[len(b)/2])
			case "cut":
				b = b[:len(b)-1]
			case "half":
				b = b[:len(b)-3]
			case "more":
				b = append(b, 'A', 'A')
			case "bad":
				b[3] = '$'
			}
			chal = string(b)
		}
		a["chal"], a["ver"], a["ver_s256"] = chal, ver, s256(ver)
		a["chal_b64"] = b64url.MatchString(chal) && len(chal)%4 != 1
		return func(context.Context) M {
			var valid bool
			var err error
			p := guard(func() { valid, err = pkce.Validate(chal, ver) })
			return merge(outcome(p, err, nil, false), M{"valid": valid})
		}
	}
	fops["pair"] = func(s *system, c, a M) func(context.Context) M {
		salt := []byte(cs(c, "salt"))
		for len(salt) > 0 && int64(len(salt)) < ci(c, "slen") {
			salt = append(salt, salt...)
		}
		if int64(len(salt)) > ci(c, "slen") {
			salt = salt[:ci(c, "slen")]
		}
		text := func(v, of string) string {
			if strings.HasPrefix(v, "N.") {
				n, _ := strconv.Atoi(v[2:])
				return strings.Repeat(of, n)
			}
			return strings.NewReplacer("%20", " ", "%0A", "\n", "%09", "\t", "%00", "\x00").Replace(v)
		}
		sector, subject := text(cs(c, "sector"), "a"), text(cs(c, "subject"), "b")
		a["salt"], a["salt_len"], a["subject"] = hex.EncodeToString(salt), len(salt), strings.TrimSpace(subject)
		enc := live(s, c, func() pairwise.Encoder { return pairwise.Hash(salt) }, "pair", salt)
		return func(context.Context) M {
			var out string
			var err error
			p := guard(func() { out, err = enc.Encode(sector, subject) })
			return merge(outcome(p, err, nil, err != nil && out != ""), M{"out": out, "len": len(out), "charset": b64url.MatchString(out)})
		}
	}
}

// -----------------------------------------------------------------------------
// Structured tokens

func timeClaim(c M, name string) uint64 {
	if cs(c, name+"s") == "zero" {
		return 0
	}
	return uint64(now() + ci(c, name))
}

var tokenStatuses = map[string]tokenv1.TokenStatus{"ACTIVE": tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, "REVOKED": tokenv1.TokenStatus_TOKEN_STATUS_REVOKED,
	"EXPIRED": tokenv1.TokenStatus_TOKEN_STATUS_EXPIRED, "UNKNOWN": tokenv1.TokenStatus_TOKEN_STATUS_UNSPECIFIED}

// structured builds the token of a case and completes the arguments of the event.
func structured(c, a M) *tokenv1.Token {
	blank := func(k string) string {
		v := cs(c, k)
		if v == "-" {
			v = ""
		}
		a[k] = v
		return v
	}
	iat, nbf, exp := timeClaim(c, "iat"), timeClaim(c, "nbf"), timeClaim(c, "exp")
	a["iat"], a["nbf"], a["exp"] = iat, nbf, exp
	t := &tokenv1.Token{TokenId: blank("id"), Status: tokenStatuses[cs(c, "status")], TokenType: vtTypes[cs(c, "kind")], Metadata: &tokenv1.TokenMeta{
		Issuer: blank("iss"), Subject: blank("sub"), Audience: blank("aud"), ClientId: blank("client"), Scope: blank("scope"), IssuedAt: iat, NotBefore: nbf, ExpiresAt: exp,
	}}
	if j := blank("jkt"); j != "" {
		t.Confirmation = &tokenv1.TokenConfirmation{Jkt: j}
	}
	if !cb(c, "meta") {
		t.Metadata = nil
	}
	if !cb(c, "set") {
		return nil
	}
	return t
}

var cwtNames = map[string]string{"1": "iss", "2": "sub", "3": "aud", "4": "exp", "5": "nbf", "6": "iat", "7": "jti", "100": "client_id", "101": "scope", "102": "cnf"}

func num(v any) int64 {
	switch n := v.(type) {
	case float64:
		return int64(n)
	case uint64:
		return int64(n)
	case int64:
		return n
	}
	return 0
}

func init() {
	fops["gtok"] = func(s *system, c, a M) func(context.Context) M {
		kind, form := cs(c, "kind"), cs(c, "ser")
		t := structured(c, a)
		prov := "ok"
		if form == "fail" {
			prov = "err"
		}
		kp := lendKeys(c, keyProvider(M{"prov": prov, "key": cs(c, "key"), "kid": "kid-1"}))
		var ser token.Serializer
		switch form {
		case "jwt", "fail":
			ser = jwtSigners[kind](algOf(cs(c, "key")), kp)
		case "cwt":
			ser = cwtSigners[kind](coseAlgs[string(algOf(cs(c, "key")))], kp)
		case "nilptr":
			ser = (*fakeSerializer)(nil)
		}
		mk := map[string]func(token.Serializer) token.Generator{"at": token.AccessToken, "rt": token.RefreshToken, "ca": token.ClientAssertion}[kind]
		gen := live(s, c, func() token.Generator { return mk(ser) }, "gtok", kind, strings.Replace(form, "fail", "jwt", 1), algOf(cs(c, "key")))
		return func(ctx context.Context) M {
			var raw string
			var err error
			p := guard(func() { raw, err = gen.Generate(ctx, t) })
			claims, typ, verifies := M{}, "", false
			if form == "cwt" {
				hdr, body, ok := decodeCWT(raw, cs(c, "key"))
				typ, verifies = cs(hdr, "typ"), ok
				got := map[any]any{}
				_ = cbor.Unmarshal(body, &got)
				for k, v := range got {
					n := fmt.Sprint(k)
					if x, ok := cwtNames[n]; ok {
						n = x
					}
					claims[n] = v
				}
			} else {
				hdr, pl, _ := decodeJWT(raw)
				typ, verifies = cs(hdr, "typ"), verifiesWith(raw, cs(c, "key"))
				claims = pl
			}
			others := 0
			for k := range claims {
				switch k {
				case "iss", "sub", "aud", "exp", "nbf", "iat", "jti", "client_id", "scope", "cnf":
				default:
					others++
				}
			}
			jkt := ""
			switch m := claims["cnf"].(type) {
			case map[string]any:
				jkt = cs(m, "jkt")
				if len(m) != 1 {
					others++
				}
			case map[any]any:
				jkt, _ = m["jkt"].(string)
				if len(m) != 1 {
					others++
				}
			}
			return merge(outcome(p, err, nil, err != nil && raw != ""), M{
				"iss": cs(claims, "iss"), "sub": cs(claims, "sub"), "aud": cs(claims, "aud"), "iat": num(claims["iat"]), "nbf": num(claims["nbf"]), "exp": num(claims["exp"]),
				"jti": cs(claims, "jti"), "client": cs(claims, "client_id"), "scope": cs(claims, "scope"), "jkt": jkt, "others": others, "verifies": verifies, "typ": typ,
			})
		}
	}
	fops["gintro"] = func(s *system, c, a M) func(context.Context) M {
		t := structured(c, a)
		var ser token.Serializer
		prov := "ok"
		if cs(c, "ser") == "fail" {
			prov = "err"
		}
		kp := lendKeys(c, keyProvider(M{"prov": prov, "key": cs(c, "key"), "kid": "kid-1"}))
		switch cs(c, "ser") {
		case "jwt", "fail":
			ser = jwt.TokenIntrospection(algOf(cs(c, "key")), kp)
		case "nilptr":
			ser = (*fakeSerializer)(nil)
		}
		gen := live(s, c, func() token.Generator { return token.Introspection(ser) }, "gintro", strings.Replace(cs(c, "ser"), "fail", "jwt", 1), algOf(cs(c, "key")))
		return func(ctx context.Context) M {
			var raw string
			var err error
			p := guard(func() { raw, err = gen.Generate(ctx, t) })
			hdr, pl, _ := decodeJWT(raw)
			in, _ := pl["token_introspection"].(map[string]any)
			others := 0
			for k := range pl {
				if k != "iss" && k != "iat" && k != "token_introspection" {
					others++
				}
			}
			for k := range in {
				switch k {
				case "active", "iss", "aud", "iat", "exp", "client_id", "scope", "sub", "jti":
				default:
					others++
				}
			}
			return merge(outcome(p, err, nil, err != nil && raw != ""), M{
				"iss": cs(pl, "iss"), "iat": num(pl["iat"]), "active": cb(in, "active"), "verifies": verifiesWith(raw, cs(c, "key")), "typ": cs(hdr, "typ"), "others": others,
				"t_size": len(in), "t_iss": cs(in, "iss"), "t_aud": cs(in, "aud"), "t_iat": num(in["iat"]), "t_exp": num(in["exp"]), "t_client": cs(in, "client_id"),
				"t_scope": cs(in, "scope"), "t_sub": cs(in, "sub"), "t_jti": cs(in, "jti"),
			})
		}
	}
	fops["usable"] = func(s *system, c, a M) func(context.Context) M {
		t := structured(c, a)
		return func(context.Context) M {
			usable := false
			p := guard(func() { usable = token.IsUsable(t) })
			return merge(outcome(p, nil, nil, false), M{"usable": usable})
		}
	}
}

// -----------------------------------------------------------------------------
// Generators

func classes(v string) M {
	all := func(set string) bool {
		for _, r := range v {
			if !strings.ContainsRune(set, r) {
				return false
			}
		}
		return true
	}
	return M{"n": len(v), "digit": all("0123456789"), "cons": all("BCDFGHJKLMNPQRSTVWXZ"), "alnum": all(alphabet)}
}

// spread describes a set of generated values: how many characters they use, how
// many positions never change and how many pairs of positions always agree.
func spread(vals []string) M {
	chars := map[byte]bool{}
	still, twins, long := 0, 0, 0
	for _, v := range vals {
		for i := 0; i < len(v); i++ {
			chars[v[i]] = true
		}
		if len(v) > long {
			long = len(v)
		}
	}
	at := func(v string, i int) int {
		if i < len(v) {
			return int(v[i])
		}
		return -1
	}
	for i := 0; i < long; i++ {
		fixed := true
		for _, v := range vals {
			fixed = fixed && at(v, i) == at(vals[0], i)
		}
		if fixed {
			still++
			continue
		}
		for j := 0; j < i; j++ {
			same := true
			for _, v := range vals {
				same = same && at(v, i) == at(v, j)
			}
			if same {
				twins++
			}
		}
	}
	return M{"chars": len(chars), "still": still, "twins": twins}
}

type genFuncs struct {
	gen   func(ctx context.Context, iss string) (string, error)
	valid func(ctx context.Context, iss, in string) error
	sep   string
	pre   string
}

func genKinds() map[string]genFuncs {
	code, dc, uri, uc, num := generator.DefaultAuthorizationCode(), generator.DefaultDeviceCode(), generator.DefaultRequestURI(), generator.DefaultDeviceUserCode(), generator.DefaultNumDeviceUserCode()
	cid, op := generator.DefaultClientID(), token.OpaqueToken()
	return map[string]genFuncs{
		"code": {gen: code.Generate, valid: code.Validate}, "dc": {gen: dc.Generate, valid: dc.Validate}, "uri": {gen: uri.Generate, valid: uri.Validate, pre: "urn:solid:"},
		"uc": {gen: uc.Generate, sep: "-"}, "num": {gen: num.Generate, sep: "-"},
		"cid":    {gen: func(ctx context.Context, _ string) (string, error) { return cid.Generate(ctx) }},
		"opaque": {gen: func(ctx context.Context, _ string) (string, error) { return op.Generate(ctx, &tokenv1.Token{}) }, sep: "."},
	}
}

var uriForm = regexp.MustCompile(`^urn:solid:[0-9A-Za-z]{32}$`)

func init() {
	fops["gen"] = func(s *system, c, a M) func(context.Context) M {
		k := live(s, c, genKinds, "gen")[cs(c, "kind")]
		n := int(ci(c, "n"))
		iss := s.issuer(cs(c, "iss"))
		return func(ctx context.Context) M {
			vals := make([]string, n)
			errs := make([]error, n)
			p := guard(func() {
				one := func(i int) { vals[i], errs[i] = k.gen(ctx, iss) }
				if cb(c, "par") {
					var wg sync.WaitGroup
					for i := 0; i < n; i++ {
						wg.Add(1)
						i := i
						go func() {
							defer wg.Done()
							one(i)
						}()
					}
					wg.Wait()
					return
				}
				for i := 0; i < n; i++ {
					one(i)
				}
			})
			var err error
			out := []M{}
			for i, v := range vals {
				if errs[i] != nil {
					err = errs[i]
				}
				pre, rest, sep := "", v, ""
				if k.pre != "" && strings.HasPrefix(v, k.pre) {
					pre, rest = k.pre, v[len(k.pre):]
				}
				groups := []M{}
				parts := []string{rest}
				if k.sep != "" && strings.Contains(rest, k.sep) {
					sep, parts = k.sep, strings.Split(rest, k.sep)
				}
				for _, g := range parts {
					groups = append(groups, classes(g))
				}
				valid := true
				if k.valid != nil {
					_ = guard(func() { valid = k.valid(ctx, iss, v) == nil })
				}
				out = append(out, M{"v": v, "prefix": pre, "sep": sep, "groups": groups, "valid": valid})
			}
			return merge(outcome(p, err, nil, false), M{"vals": out, "spread": spread(vals)})
		}
	}
	fops["validate"] = func(s *system, c, a M) func(context.Context) M {
		k := live(s, c, genKinds, "gen")[cs(c, "kind")]
		iss := s.issuer(cs(c, "iss"))
		v := cs(c, "val")
		if l := int(ci(c, "n")); l > 0 {
			b := make([]byte, l)
			for i := range b {
				b[i] = alphabet[s.rng.Intn(len(alphabet))]
			}
			v = cs(c, "pre") + string(b) + cs(c, "suf")
		}
		v = unescape(v)
		t := strings.TrimSpace(v)
		a["val"], a["tlen"], a["uri_form"] = v, len(t), uriForm.MatchString(t)
		return func(ctx context.Context) M {
			var err error
			p := guard(func() { err = k.valid(ctx, iss, v) })
			return outcome(p, err, nil, false)
		}
	}
}

// -----------------------------------------------------------------------------
// Profile, types, randomness, errors

func plain(in []string) []string {
	out := []string{}
	return append(out, in...)
}

func init() {
	names := map[string]string{"web": oidc.ApplicationTypeServerSideWeb, "native": oidc.ApplicationTypeNative, "device": oidc.ApplicationTypeDevice, "service": oidc.ApplicationTypeService}
	fops["profile"] = func(s *system, c, a M) func(context.Context) M {
		n := cs(c, "name")
		if v, ok := names[n]; ok {
			n = v
		}
		return func(context.Context) M {
			r := M{"known": false, "grants": []string{}, "rtypes": []string{}, "auths": []string{}}
			p := guard(func() {
				cl, ok := profile.Strict().ApplicationType(n)
				r["known"] = ok
				if !ok {
					return
				}
				g, t, m, d := cl.GrantTypesSupported(), cl.ResponseTypesSupported(), cl.TokenEndpointAuthMethodsSupported(), cl.DefaultScopes()
				r["grants"], r["rtypes"], r["auths"] = plain(g), plain(t), plain(m)
				// what a caller does with its copies is its own business
				for _, l := range []*types.StringArray{&g, &t, &m, &d} {
					for i := range *l {
						(*l)[i] = "tampered"
					}
					l.AddIfNotContains("added")
					l.Remove("tampered")
				}
			})
			return merge(outcome(p, nil, nil, false), r)
		}
	}
	fold := func(v string) string { return strings.ToLower(strings.ToUpper(v)) }
	folds := func(in []string) []string {
		out := []string{}
		for _, v := range in {
			out = append(out, fold(v))
		}
		return out
	}
	fops["strs"] = func(s *system, c, a M) func(context.Context) M {
		arr, item, items := cl(c, "arr"), cs(c, "item"), cl(c, "items")
		a["lo"], a["item_lo"], a["items_lo"] = folds(arr), fold(item), folds(items)
		return func(context.Context) M {
			r := M{}
			p := guard(func() {
				mk := func() types.StringArray { return types.StringArray(plain(arr)) }
				r["contains"], r["hasone"], r["hasall"] = mk().Contains(item), mk().HasOneOf(items...), mk().HasAll(items...)
				rm, ad := mk(), mk()
				rm.Remove(item)
				ad.AddIfNotContains(item)
				r["removed"], r["added"] = plain(rm), plain(ad)
			})
			return merge(outcome(p, nil, nil, false), r)
		}
	}
	fops["equal"] = func(s *system, c, a M) func(context.Context) M {
		return func(context.Context) M {
			r := M{}
			p := guard(func() {
				x, y := cs(c, "x"), cs(c, "y")
				r["same"], r["same_bytes"] = types.SecureCompareString(x, y), types.SecureCompare([]byte(x), []byte(y))
			})
			return merge(outcome(p, nil, nil, false), r)
		}
	}

	type rnd interface {
		Int63() int64
		Uint32() uint32
		Uint64() uint64
		Int31() int32
		Int() int
		Int63n(int64) int64
		Int31n(int32) int32
		Intn(int) int
		Float64() float64
		Float32() float32
		Perm(int) []int
		NormFloat64() float64
		ExpFloat64() float64
		Shuffle(int, func(i, j int))
		Read([]byte) (int, error)
		Seed(int64)
	}
	draw := func(r rnd, what string) string {
		switch what {
		case "Int63":
			return fmt.Sprint(r.Int63())
		case "Uint32":
			return fmt.Sprint(r.Uint32())
		case "Uint64":
			return fmt.Sprint(r.Uint64())
		case "Int31":
			return fmt.Sprint(r.Int31())
		case "Int":
			return fmt.Sprint(r.Int())
		case "Int63n":
			return fmt.Sprint(r.Int63n(1000003))
		case "Int31n":
			return fmt.Sprint(r.Int31n(10007))
		case "Intn":
			return fmt.Sprint(r.Intn(97))
		case "Float64":
			return fmt.Sprint(r.Float64())
		case "Float32":
			return fmt.Sprint(r.Float32())
		case "Perm":
			return fmt.Sprint(r.Perm(7))
		case "NormFloat64":
			return fmt.Sprint(r.NormFloat64())
		case "ExpFloat64":
			return fmt.Sprint(r.ExpFloat64())
		case "Shuffle":
			x := []int{0, 1, 2, 3, 4, 5}
			r.Shuffle(len(x), func(i, j int) { x[i], x[j] = x[j], x[i] })
			return fmt.Sprint(x)
		case "Seed":
			r.Seed(77)
			return "seeded"
		case "Read3", "Read8", "Read13":
			n := map[string]int{"Read3": 3, "Read8": 8, "Read13": 13}[what]
			b := make([]byte, n)
			k, err := r.Read(b)
			return fmt.Sprint(k, err, hex.EncodeToString(b))
		}
		panic("unknown draw " + what)
	}
	fops["rand"] = func(s *system, c, a M) func(context.Context) M {
		seed, seq := ci(c, "seed"), cl(c, "seq")
		n := int(ci(c, "n"))
		//nolint:gosec
		ref := mrand.New(mrand.NewSource(seed))
		want := []string{}
		mixed := cb(c, "par") && len(seq) > 1
		switch {
		case mixed: // the order of the draws, hence their values, is free
			for i := 0; i < n; i++ {
				want = append(want, "drawn")
			}
		case cb(c, "par"):
			for i := 0; i < n; i++ {
				want = append(want, draw(ref, seq[0]))
			}
			sort.Strings(want)
		default:
			for _, w := range seq {
				want = append(want, draw(ref, w))
			}
		}
		a["want"] = want
		return func(context.Context) M {
			got := []string{}
			p := guard(func() {
				if cb(c, "reader") {
					r := randomness.NewReader(seed)
					for _, w := range seq {
						k := map[string]int{"Read3": 3, "Read8": 8, "Read13": 13}[w]
						b := make([]byte, k)
						n, err := r.Read(b)
						got = append(got, fmt.Sprint(n, err, hex.EncodeToString(b)))
					}
					return
				}
				lr := randomness.NewLockedRand(seed)
				if !cb(c, "par") {
					for _, w := range seq {
						got = append(got, draw(lr, w))
					}
					return
				}
				var wg sync.WaitGroup
				var mu sync.Mutex
				for g := 0; g < 8; g++ {
					wg.Add(1)
					g := g
					go func() {
						defer wg.Done()
						mine := []string{}
						for i := g; i < n; i += 8 {
							v := draw(lr, seq[g%len(seq)])
							if mixed && v != "" {
								v = "drawn"
							}
							mine = append(mine, v)
						}
						mu.Lock()
						got = append(got, mine...)
						mu.Unlock()
					}()
				}
				wg.Wait()
				sort.Strings(got)
			})
			return merge(outcome(p, nil, nil, false), M{"got": got})
		}
	}
	fops["rglob"] = func(s *system, c, a M) func(context.Context) M {
		what, n := cs(c, "what"), int(ci(c, "n"))
		return func(context.Context) M {
			var mu sync.Mutex
			vals := map[string]bool{}
			count, in := 0, true
			var or64, and64 uint64 = 0, ^uint64(0)
			p := guard(func() {
				var wg sync.WaitGroup
				for g := 0; g < 8; g++ {
					wg.Add(1)
					g := g
					go func() {
						defer wg.Done()
						for i := g; i < n; i += 8 {
							v, ok, set := drawGlobal(what)
							mu.Lock()
							vals[v] = true
							count++
							in = in && ok
							or64 |= set
							and64 &= set
							mu.Unlock()
						}
					}()
				}
				wg.Wait()
			})
			return merge(outcome(p, nil, nil, false), M{"n": count, "distinct": len(vals), "in_range": in, "varying": bits.OnesCount64(or64 &^ and64)})
		}
	}
	ctors := map[string]func() rfcerrors.ErrorBuilder{
		"ServerError": rfcerrors.ServerError, "InvalidRequest": rfcerrors.InvalidRequest, "InvalidScope": rfcerrors.InvalidScope, "InvalidGrant": rfcerrors.InvalidGrant,
		"InvalidClient": rfcerrors.InvalidClient, "UnauthorizedClient": rfcerrors.UnauthorizedClient, "UnsupportedGrantType": rfcerrors.UnsupportedGrantType, "InvalidToken": rfcerrors.InvalidToken,
		"AuthorizationPending": rfcerrors.AuthorizationPending, "Slowdown": rfcerrors.Slowdown, "AccessDenied": rfcerrors.AccessDenied, "TokenExpired": rfcerrors.TokenExpired,
		"InvalidDPoPProof": rfcerrors.InvalidDPoPProof, "InvalidRedirectURI": rfcerrors.InvalidRedirectURI, "InvalidClientMetadata": rfcerrors.InvalidClientMetadata,
		"InvalidSoftwareStatement": rfcerrors.InvalidSoftwareStatement, "UnapprovedSoftwareStatement": rfcerrors.UnapprovedSoftwareStatement, "InvalidTarget": rfcerrors.InvalidTarget,
		"InsufficientUserAuthentication": rfcerrors.InsufficientUserAuthentication,
	}
	fops["rfcerr"] = func(s *system, c, a M) func(context.Context) M {
		ctor := ctors[cs(c, "name")]
		return func(context.Context) M {
			first, second, fresh := &corev1.Error{}, &corev1.Error{}, &corev1.Error{}
			p := guard(func() {
				b := ctor()
				first = b.Build()
				if v := cs(c, "state"); v != "" {
					b = b.State(v)
				}
				if v := cs(c, "desc"); v != "" {
					b = b.Description(v)
				}
				second = b.Build()
				fresh = ctor().Build()
			})
			return merge(outcome(p, nil, nil, false), M{
				"code": second.Err, "desc": second.ErrorDescription, "state": second.GetState(), "first_code": first.Err, "first_state": first.GetState(), "first_desc": first.ErrorDescription,
				"fresh_state": fresh.GetState(), "fresh_code": fresh.Err, "fresh_desc": fresh.ErrorDescription,
			})
		}
	}
}

// drawGlobal draws from the process-wide generators: the value, whether it is in range and its bits.
func drawGlobal(what string) (string, bool, uint64) {
	sorted := func(x []int) bool {
		y := append([]int{}, x...)
		sort.Ints(y)
		for i := range y {
			if y[i] != i {
				return false
			}
		}
		return true
	}
	switch what {
	case "Int63":
		v := randomness.Int63()
		return fmt.Sprint(v), v >= 0, uint64(v)
	case "Uint32":
		v := randomness.Uint32()
		return fmt.Sprint(v), true, uint64(v)
	case "Uint64":
		v := randomness.Uint64()
		return fmt.Sprint(v), true, v
	case "Int31":
		v := randomness.Int31()
		return fmt.Sprint(v), v >= 0, uint64(v)
	case "Int":
		v := randomness.Int()
		return fmt.Sprint(v), v >= 0, uint64(v)
	case "Int63n":
		v := randomness.Int63n(1 << 40)
		return fmt.Sprint(v), v >= 0 && v < 1<<40, uint64(v)
	case "Int31n":
		v := randomness.Int31n(1 << 20)
		return fmt.Sprint(v), v >= 0 && v < 1<<20, uint64(v)
	case "Intn":
		v := randomness.Intn(1 << 20)
		return fmt.Sprint(v), v >= 0 && v < 1<<20, uint64(v)
	case "Float64":
		v := randomness.Float64()
		return fmt.Sprint(v), v >= 0 && v < 1, uint64(v * (1 << 52))
	case "Float32":
		v := randomness.Float32()
		return fmt.Sprint(v), v >= 0 && v < 1, uint64(v * (1 << 20))
	case "Perm":
		v := randomness.Perm(20)
		return fmt.Sprint(v), len(v) == 20 && sorted(v), uint64(v[0])
	case "Shuffle":
		v := make([]int, 20)
		for i := range v {
			v[i] = i
		}
		randomness.Shuffle(len(v), func(i, j int) { v[i], v[j] = v[j], v[i] })
		return fmt.Sprint(v), sorted(v), uint64(v[0])
	case "NormFloat64":
		v := randomness.NormFloat64()
		return fmt.Sprint(v), !math.IsNaN(v) && math.Abs(v) < 20, math.Float64bits(v)
	case "ExpFloat64":
		v := randomness.ExpFloat64()
		return fmt.Sprint(v), v >= 0 && v < 60, math.Float64bits(v)
	case "Reader":
		var b [16]byte
		k, err := io.ReadFull(randomness.Reader, b[:])
		return hex.EncodeToString(b[:]), k == 16 && err == nil, binary.LittleEndian.Uint64(b[8:])
	case "Seed":
		v := randomness.CryptoSeed()
		return fmt.Sprint(v), true, uint64(v)
	case "New": // two readers with seeds of their own
		var b [8]byte
		_, err := randomness.NewReader(randomness.CryptoSeed()).Read(b[:])
		return hex.EncodeToString(b[:]), err == nil, binary.LittleEndian.Uint64(b[:])
	}
	panic("unknown draw " + what)
}

// -----------------------------------------------------------------------------
// DPoP prover

// jtiMap is a proof store without expiry, used to present a proof right away.
type jtiMap struct{ seen map[string]bool }

func (j *jtiMap) Delete(context.Context, string) error              { return nil }
func (j *jtiMap) Exists(_ context.Context, id string) (bool, error) { return j.seen[id], nil }
func (j *jtiMap) Register(_ context.Context, id string) error {
	if j.seen[id] {
		return storage.ErrNotFound
	}
	j.seen[id] = true
	return nil
}

func init() {
	fops["prover"] = func(s *system, c, a M) func(context.Context) M {
		m, u := or(cs(c, "htm"), "POST"), htu(or(cs(c, "htu"), "T"))
		key := or(cs(c, "key"), "k1")
		var ser token.Serializer
		switch cs(c, "ser") {
		case "ok":
			ser = jwt.DPoPSigner(algOf(key), keyProvider(M{"prov": "ok", "key": key, "kid": "kid-1"}))
		case "err":
			ser = jwt.DPoPSigner(algOf(key), keyProvider(M{"prov": "err"}))
		case "nilptr":
			ser = (*fakeSerializer)(nil)
		}
		a["htm"], a["htu"], a["htm_ok"], a["htu_ok"], a["thumb"], a["ath"], a["clean"] = m, u, methods[strings.ToUpper(m)], uriOK(u), keyThumb(key), "", ""
		a["plain"], a["abs"] = false, false
		if pu, err := url.Parse(u); err == nil {
			a["clean"] = pu.Scheme + "://" + pu.Host + pu.EscapedPath()
			// an absolute URL of a request, without fragment
			a["abs"] = pu.Scheme != "" && pu.Host != "" && !strings.Contains(u, "#")
			a["plain"] = a["abs"] == true
		}
		var opts []dpop.Option
		if t := cs(c, "tok"); t != "" {
			h := sha256.Sum256([]byte(t))
			a["ath"] = base64.RawURLEncoding.EncodeToString(h[:])
			opts = append(opts, dpop.WithTokenValue(t))
		}
		pr := live(s, c, func() dpop.Prover { return dpop.DefaultProver(ser) }, "prover", key, cs(c, "ser"))
		return func(ctx context.Context) M {
			var raw, tp string
			var err error
			accepted := false
			p := guard(func() {
				raw, err = pr.Prove(m, u, opts...)
				if err == nil {
					v := dpop.DefaultVerifier(&jtiMap{seen: map[string]bool{}}, jwt.EmbeddedKeyVerifier(proofAlgs))
					var verr error
					tp, verr = v.Verify(ctx, m, cs(a, "clean"), raw, opts...)
					accepted = verr == nil && tp == keyThumb(key)
				}
			})
			hdr, pl, _ := decodeJWT(raw)
			th := ""
			if j, ok := hdr["jwk"].(map[string]any); ok {
				var k jose.JSONWebKey
				if k.UnmarshalJSON(js(j)) == nil {
					h, _ := k.Thumbprint(crypto.SHA256)
					th = base64.RawURLEncoding.EncodeToString(h)
				}
			}
			return merge(outcome(p, err, nil, err != nil && raw != ""), M{
				"htm": cs(pl, "htm"), "htu": cs(pl, "htu"), "iat": num(pl["iat"]), "ath": cs(pl, "ath"), "jti": cs(pl, "jti"), "typ": cs(hdr, "typ"), "thumb": th, "accepted": accepted,
			})
		}
	}
	// a proof made for one request, presented with another
	fops["proofurl"] = func(s *system, c, a M) func(context.Context) M {
		pu, ru := cs(c, "purl"), cs(c, "rurl")
		wire := func(u string) string {
			u, _, _ = strings.Cut(u, "#")
			u, _, _ = strings.Cut(u, "?")
			return u
		}
		a["pwire"], a["rwire"] = wire(pu), wire(ru)
		return func(ctx context.Context) M {
			var err error
			p := guard(func() {
				ser := jwt.DPoPSigner(algOf("k1"), keyProvider(M{"prov": "ok", "key": "k1", "kid": "kid-1"}))
				var raw string
				if raw, err = dpop.DefaultProver(ser).Prove(cs(c, "pm"), pu); err != nil {
					return
				}
				r := httptest.NewRequest(cs(c, "rm"), ru, nil)
				v := dpop.DefaultVerifier(&jtiMap{seen: map[string]bool{}}, jwt.EmbeddedKeyVerifier(proofAlgs))
				_, err = v.Verify(ctx, r.Method, dpop.CleanURL(r), raw)
			})
			return outcome(p, err, nil, false)
		}
	}
	fops["cleanurl"] = func(s *system, c, a M) func(context.Context) M {
		r := &http.Request{Method: "POST", Host: cs(c, "host"), Header: http.Header{}}
		u, err := url.ParseRequestURI(cs(c, "target"))
		if err != nil {
			panic(err)
		}
		r.URL = u
		if cb(c, "tls") {
			r.TLS = &tls.ConnectionState{}
		}
		if f := cs(c, "fwd"); f != "" {
			r.Header.Set("X-Forwarded-Scheme", f)
		}
		a["path"], _, _ = strings.Cut(cs(c, "target"), "?")
		return func(context.Context) M {
			var out string
			p := guard(func() { out = dpop.CleanURL(r) })
			return merge(outcome(p, nil, nil, false), M{"url": out})
		}
	}
}
