package verifharness

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"testing"
	"time"
)

// Random behaviours. The generator only chooses commands; it never judges.

type walker struct {
	s     *system
	r     *rand.Rand
	prof  string
	isss  []string
	clis  []string
	fault bool
	owner map[string]string // artefact reference -> client
	home  map[string]string // artefact reference -> issuer
	rd    map[string]string
	ver   map[string]string
	todo  []*Cmd              // intended follow-ups
	live  map[string][]string // references of a kind believed usable
}

func pick(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

// near returns a value easily confused with v.
func (w *walker) near(v string) string {
	if v == "" || v == "-" {
		return v
	}
	switch w.r.Intn(9) {
	case 0:
		return strings.ToUpper(v)
	case 1:
		return strings.ToLower(v)
	case 2:
		return v + " "
	case 3:
		return " " + v
	case 4:
		return v + "/"
	case 5:
		return v[:len(v)-1]
	case 6:
		return v + v
	case 7:
		return v + "\n"
	}
	return strings.ToUpper(v[:1]) + v[1:]
}

// registration changes, or removes, a client.
func (w *walker) admin(c *Cmd) *Cmd {
	r := w.r
	c = &Cmd{Op: "client", Cli: w.client()}
	switch n := r.Intn(10); {
	case n == 0:
		c.Nil = true
	case n < 4: // back to the initial registration
	default:
		c.Reg = &regClient{}
		some := func(xs ...string) []string {
			out := []string{}
			for _, x := range xs {
				if w.p(70) {
					out = append(out, x)
				}
			}
			return out
		}
		if w.p(50) {
			c.Reg.Grants = some("ac", "cc", "dc", "rt", "xt")
		}
		if w.p(25) {
			c.Reg.Rmodes = some("query", "fragment", "form_post", "query.jwt", "fragment.jwt", "form_post.jwt")
		}
		if w.p(20) {
			c.Reg.Rtypes = some("code", "token")
		}
		if w.p(20) {
			c.Reg.Redirects = some("https://shared.example/cb", "https://c1.example/cb", "https://c2.example/cb", "https://shared.example/cb/", "https://c11.example/cb")
		}
		if w.p(25) {
			c.Reg.Ctype = pick(r, "PUBLIC", "CONFIDENTIAL", "CREDENTIALED", "UNKNOWN")
		}
	}
	return c
}

func (w *walker) p(n int) bool { return w.r.Intn(100) < n }

var scopes = []string{
	"openid", "openid profile", "openid offline_access", "openid offline_access profile", "offline_access openid OFFLINE_ACCESS profile",
	"OpenID Offline_Access", "profile email", "openid offline_access2", "openid offline_acces", "openid,offline_access", "openid x-offline_access", "offline_access", "openid  offline_access   a b", "a b c", "openid a b c offline_access", "openID offline_ACCESS a",
}

var prompts = []string{"", "consent", "consent", "consent", "login", "consent login", "CONSENT", "none", " consent", "blank"}
var modes = []string{"", "", "", "query", "fragment", "form_post", "jwt", "query.jwt", "fragment.jwt", "form_post.jwt", "web_message", "JWT", "blank"}

func (w *walker) issuerName() string {
	if w.p(85) {
		return w.isss[0]
	}
	return w.isss[w.r.Intn(len(w.isss))]
}

func (w *walker) client() string { return w.clis[w.r.Intn(len(w.clis))] }

func (w *walker) req() *Req {
	r := w.r
	q := &Req{Scope: scopes[r.Intn(len(scopes))], Prompt: prompts[r.Intn(len(prompts))], Chal: pick(r, "v1", "v2", "v3.128", "v4.100")}
	if w.p(40) {
		q.Mode = modes[r.Intn(len(modes))]
	}
	if w.p(30) {
		q.Redirect = pick(r, "r0", "r1", "r2", "r3")
	}
	if w.p(15) {
		q.Rtype = "token"
	}
	q.Aud = pick(r, "", "urn:aud:2", "https://rs.example")
	if w.p(30) {
		q.Extra = pick(r, "x", "y")
	}
	if w.prof == "token" && w.p(60) {
		q.Scope, q.Prompt, q.Rtype = pick(r, "openid offline_access", "openid offline_access profile", "openid a b c offline_access"), "consent", ""
	}
	if w.p(w.devRate()) {
		switch r.Intn(14) {
		case 12:
			q.Scope = w.near(q.Scope)
		case 13:
			q.Redirect = w.near("https://shared.example/cb")
		case 0:
			q.State = pick(r, "-", "31", "1", "33", "64")
		case 1:
			q.Nonce = pick(r, "-", "7", "1", "9", "64")
		case 2:
			q.Scope = "-"
		case 3:
			q.Aud = "-"
		case 4:
			q.Redirect = pick(r, "-", "https://evil.example/cb", "https://shared.example/CB", "https://shared.example/cb/", "https://shared.example/cb?x=1", "shared.example", "HTTPS://shared.example/cb", "/cb", "https://shared.example/cb#f")
		case 5:
			q.Rtype = pick(r, "-", "id_token", "code token", "CODE", "none", "Token")
		case 6:
			q.Chal = pick(r, "-", "short:v1", "pad:v1", "plain:v1", "plain:v1.44", "plain:v1.42", "low:v1", "std:v1")
		case 7:
			q.Method = pick(r, "-", "plain", "s256", "S512")
		case 8:
			q.Client = pick(r, "-", "c1", "c2", "c4", "c6", "c8", "ghost", "C1")
		case 9:
			q.Mode = modes[r.Intn(len(modes))]
		case 10:
			q.Client = w.client()
		case 11:
			q.State, q.Nonce = pick(r, "31", "32"), pick(r, "7", "8")
		}
	}
	return q
}

func (w *walker) devRate() int {
	if w.prof == "authz" {
		return 55
	}
	return 12
}

// some returns a reference to an artefact of the kind, "" when there is none.
func (w *walker) some(kind string) string {
	n := w.s.count[kind]
	if n == 0 {
		return ""
	}
	// prefer recent ones
	k := n - w.r.Intn(min(n, 3))
	if w.p(15) {
		k = 1 + w.r.Intn(n)
	}
	ref := fmt.Sprintf("%s#%d", kind, k)
	if w.p(4) {
		ref += pick(w.r, "|upper", "|suf:x", "|trim:1", "|cut:1", "|suf:%20", "|pre:%20", "|suf:%0A", "|suf:/", "|suf:=")
	}
	return ref
}

func base(ref string) string { b, _, _ := strings.Cut(ref, "|"); return b }

// own returns the client of an artefact most of the time.
func (w *walker) own(ref string) string {
	if c, ok := w.owner[base(ref)]; ok && w.p(80) {
		return c
	}
	return w.client()
}

func (w *walker) at(ref string) string {
	if i, ok := w.home[base(ref)]; ok && w.p(88) {
		return i
	}
	return w.isss[w.r.Intn(len(w.isss))]
}

var advances = []int{1, 1, 2, 5, 14, 15, 16, 30, 44, 45, 46, 59, 60, 61, 119, 120, 121, 3599, 3600, 3601, 601199, 601200, 601201, 604799, 604800, 604801}

// alive returns a reference believed usable most of the time.
func (w *walker) alive(kind string) string {
	if l := w.live[kind]; len(l) > 0 && w.p(70) {
		return l[w.r.Intn(len(l))]
	}
	return w.some(kind)
}

func (w *walker) kill(kind, ref string) {
	l := w.live[kind]
	for i := range l {
		if l[i] == base(ref) {
			w.live[kind] = append(append([]string(nil), l[:i]...), l[i+1:]...)
			return
		}
	}
}

func (w *walker) next() *Cmd {
	r := w.r
	if len(w.todo) > 0 {
		c := w.todo[0]
		w.todo = w.todo[1:]
		if w.fault && c.Op != "advance" && c.Op != "client" && w.p(15) {
			c.Fault = w.someFault(c.Op, c)
		}
		return c
	}
	weights := map[string]int{"push": 10, "authorize": 14, "token": 34, "introspect": 10, "revoke": 7, "devauth": 6, "approve": 7, "peek": 4, "proof": 4, "advance": 12}
	switch w.prof {
	case "authz":
		weights = map[string]int{"push": 34, "authorize": 40, "token": 12, "peek": 8, "advance": 6}
	case "code":
		weights = map[string]int{"push": 8, "authorize": 26, "token": 48, "introspect": 6, "advance": 10, "peek": 2}
	case "device":
		weights = map[string]int{"devauth": 25, "approve": 28, "token": 35, "introspect": 4, "advance": 12}
	case "token":
		weights = map[string]int{"authorize": 10, "devauth": 3, "approve": 3, "token": 48, "introspect": 16, "revoke": 12, "advance": 14}
	case "dpop":
		weights = map[string]int{"proof": 74, "token": 8, "advance": 18, "authorize": 3}
	}
	if w.prof != "dpop" && w.p(3) {
		return w.admin(nil)
	}
	total := 0
	ops := []string{"push", "authorize", "token", "introspect", "revoke", "devauth", "approve", "peek", "proof", "advance"}
	for _, o := range ops {
		total += weights[o]
	}
	n := r.Intn(total)
	op := ""
	for _, o := range ops {
		if n -= weights[o]; n < 0 {
			op = o
			break
		}
	}
	c := &Cmd{Op: op, Iss: w.issuerName(), Cli: w.client()}
	if w.p(2) {
		c.Nil = true
	}
	if w.p(2) {
		c.Iss = pick(r, "-", "bad", "rel")
	}
	if w.p(2) && op != "devauth" {
		c.Cli = pick(r, "-", "ghost", "ghost ", w.near("c1"))
	}
	if w.p(1) {
		c.Iss = w.near(issuers["I1"])
	}
	if w.p(10) {
		c.Claims = w.client()
	}
	switch op {
	case "push":
		c.Q = w.req()
		if w.p(3) {
			c.Q.Nested = pick(r, "uri#1", "urn:solid:x")
		}
	case "authorize":
		c.Q = w.req()
		c.Sub = pick(r, "u1", "u2", "u3", "u1")
		if w.p(8) {
			c.Sub = w.near("u1")
		}
		if w.p(2) {
			c.Sub = "-"
		}
		if w.p(25) {
			c.Cli = "-"
			c.Q.Client = w.client()
		}
		if ref := w.some("uri"); ref != "" && w.p(45) {
			c.Ref, c.Iss, c.Cli = ref, w.at(ref), w.own(ref)
			if w.p(20) {
				c.Cli = "-"
			}
		} else if w.p(3) {
			c.Ref = pick(r, "urn:solid:AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", "x", "https://evil.example/ro", "-")
		}
	case "peek":
		ref := w.some("code")
		if ref == "" {
			return nil
		}
		c.Code, c.Iss = ref, w.at(ref)
	case "token":
		w.token(c)
	case "introspect", "revoke":
		ref := w.alive(pick(r, "at", "rt"))
		if ref == "" {
			return nil
		}
		c.Val, c.Iss, c.Cli = ref, w.at(ref), w.own(ref)
		if op == "introspect" {
			c.Cli = w.client()
		}
		if w.p(4) {
			c.Val = pick(r, "-", "nope", "atid#1", "code#1")
		}
	case "devauth":
		c.Scope = pick(r, "", "openid", "openid offline_access", "offline_access", "a b", "blank", "OFFLINE_ACCESS x", "offline_accesses", "offline_access,a", "a\toffline_access")
		c.Aud = pick(r, "", "urn:aud:1", "blank")
		if w.p(4) {
			c.Cli = pick(r, "-", "ghost")
		}
	case "approve":
		ref := w.some("uc")
		if ref == "" {
			return nil
		}
		c.Uc, c.Iss, c.Sub = ref, w.at(ref), pick(r, "u1", "u2", "u3")
		if w.p(8) {
			c.Sub = w.near("u1")
		}
		if w.p(4) {
			c.Sub = "-"
		}
		if w.p(4) {
			c.Uc = pick(r, "-", "nope", "dc#1")
		}
	case "proof":
		w.proof(c)
	case "advance":
		c = &Cmd{Op: "advance", D: advances[r.Intn(len(advances))]}
		if w.prof == "dpop" {
			c.D = []int{1, 2, 14, 15, 16, 29, 30, 31, 44, 45, 46, 59, 60, 61}[r.Intn(14)]
		} else if w.p(50) {
			c.D = []int{1, 1, 2, 5, 30}[r.Intn(5)]
		} else if w.prof == "token" && w.p(50) {
			c.D = []int{600, 3599, 3600, 100000, 601199, 601200, 601201, 603000}[r.Intn(8)]
		}
	}
	if w.fault && op != "advance" && op != "peek" && w.p(30) {
		c.Fault = w.someFault(op, c)
	}
	return c
}

func (w *walker) someFault(op string, c *Cmd) *Fault {
	var ats []string
	switch op {
	case "push":
		ats = []string{"client.Get", "par.Register", "gen.uri.Generate"}
	case "authorize":
		ats = []string{"client.Get", "par.Get", "par.Delete", "gen.code.Generate", "code.Register"}
	case "token":
		ats = []string{"client.Get", "code.Get", "code.Delete", "dev.GetByDeviceCode", "tok.GetByValue", "tok.Create", "tok.Create", "tok.Revoke", "gen.at.Generate", "gen.rt.Generate", "res.GetByURI"}
	case "introspect", "revoke":
		ats = []string{"client.Get", "tok.GetByValue", "tok.Revoke"}
	case "devauth":
		ats = []string{"client.Get", "gen.dc.Generate", "gen.uc.Generate", "dev.Register"}
	case "approve":
		ats = []string{"dev.GetByUserCode", "dev.Validate", "dev.Delete"}
	case "proof":
		ats = []string{"jti.Exists", "jti.Register"}
	}
	f := &Fault{At: pick(w.r, ats...), K: 1, Mode: pick(w.r, "before", "before", "after", "wrapped")}
	if f.At == "tok.Create" && w.p(50) {
		f.K = 2
	}
	if strings.HasPrefix(f.At, "gen.at") || strings.HasPrefix(f.At, "gen.rt") {
		f.Mode = pick(w.r, "before", "blank")
	}
	return f
}

func (w *walker) token(c *Cmd) {
	r := w.r
	kinds := []string{"ac", "ac", "ac", "rt", "rt", "xt", "xt", "cc", "dc", "dc"}
	switch w.prof {
	case "code", "authz":
		kinds = []string{"ac", "ac", "ac", "ac", "ac", "ac", "rt"}
	case "device":
		kinds = []string{"dc", "dc", "dc", "dc", "dc", "rt", "xt"}
	case "token":
		kinds = []string{"ac", "ac", "rt", "rt", "rt", "rt", "xt", "xt", "xt", "cc", "dc"}
	case "dpop":
		kinds = []string{"cc", "ac", "xt"}
	}
	c.Grant = kinds[r.Intn(len(kinds))]
	if w.p(30) {
		c.Jkt = pick(r, "jktA", "jktB")
	}
	if w.p(12) && c.Grant != "xt" {
		c.Scope = pick(r, "openid", "a", "blank", "openid offline_access a b c profile", "x")
		if w.p(40) {
			c.Aud = pick(r, "urn:aud:1", "urn:aud:9", "blank")
		}
	}
	if w.p(3) {
		c.Grant = pick(r, "-", "password", "AUTHORIZATION_CODE", "implicit", "cc ")
		c.Payload = pick(r, "ac", "cc", "-")
	} else if w.p(5) {
		c.Payload = pick(r, "ac", "cc", "dc", "rt", "xt", "-")
	}
	if ref := w.some("code"); ref != "" {
		c.Code = ref
	}
	if ref := w.some("dc"); ref != "" {
		c.Dc = ref
	}
	if ref := w.alive("rt"); ref != "" {
		c.Rt = ref
	}
	if ref := w.alive("at"); ref != "" {
		c.St = ref
	}
	switch c.Grant {
	case "ac":
		c.Iss, c.Cli = w.at(c.Code), w.own(c.Code)
		if rd, ok := w.rd[base(c.Code)]; ok && w.p(90) {
			c.Redirect = rd
		} else if w.p(50) {
			c.Redirect = pick(r, "-", "r0", "r1", "https://shared.example/cb", "https://shared.example/CB", "https://evil.example/cb")
		}
		c.Ver = or(w.ver[base(c.Code)], "v1")
		if w.p(10) {
			c.Ver = pick(r, "v1", "v2", "v1.42", "v1.129", "v1.44", "v3.128", "-", "chal:"+c.Ver, "case:"+c.Ver, "sp:"+c.Ver, "cut:"+c.Ver)
		}
		if w.p(3) {
			c.Code = pick(r, "-", "nope", "uri#1", "a|rep:1024", "a|rep:1025", "€|rep:1024")
		}
	case "dc":
		c.Iss, c.Cli = w.at(c.Dc), w.own(c.Dc)
		if w.p(4) {
			c.Dc = pick(r, "-", "nope", "uc#1")
		}
		if w.p(10) {
			c.Dcli = w.client()
		}
	case "rt":
		c.Iss, c.Cli = w.at(c.Rt), w.own(c.Rt)
		if w.p(5) {
			c.Rt = pick(r, "-", "nope", "at#1", "rtid#1")
		}
		if w.p(5) {
			c.Scope = pick(r, "openid", "x")
		}
	case "xt":
		c.Iss, c.Cli = w.at(c.St), w.client()
		if w.p(50) {
			c.Scope = pick(r, "openid", "profile", "a", "openid profile", "profile openid", "openid admin", "blank", "a b", "OPENID", "b a", "offline_access", "openid,profile", "Openid", "profile\tadmin", "openi")
		}
		if w.p(40) {
			c.Aud = pick(r, "urn:example:backend-api", "urn:example:cooperation-context", "urn:aud:1", "nope", "blank", w.near("urn:example:backend-api"))
		}
		if w.p(8) {
			c.Stt = pick(r, "-", "urn:ietf:params:oauth:token-type:refresh_token", "urn:ietf:params:oauth:token-type:jwt", "urn:ietf:params:oauth:token-type:id_token", "access_token")
		}
		if w.p(6) {
			c.St = pick(r, "-", "nope", "rt#1")
		}
	case "cc":
		c.Scope = pick(r, "", "a b", "openid offline_access", "openid", "blank", "  a  b ")
		c.Aud = pick(r, "", "urn:aud:1", "blank", "URN:aud:1")
	}
	if c.Grant == "rt" && w.p(4) {
		if i, ok := w.rd["jkt:"+base(c.Rt)]; ok {
			c.Jkt = w.near(i)
			return
		}
	}
	if c.Grant == "rt" && w.p(85) {
		// present the key the token is bound to
		if i, ok := w.rd["jkt:"+base(c.Rt)]; ok {
			c.Jkt = i
			if i == "" {
				c.Jkt = "-"
			}
		}
	}
}

func (w *walker) proof(c *Cmd) {
	r := w.r
	c.Jti = pick(r, "j1", "j2", "j3", "j4", "j5", "J1", "j1 ")
	if w.p(60) {
		c.Jti = fmt.Sprintf("j%d", r.Intn(100000))
	}
	c.Key = pick(r, "k1", "k2")
	c.Iat = []int{0, 0, 0, 0, -1, -14, -15, -16, 14, 15, 16, 1, -60, 60}[r.Intn(14)]
	if w.p(70) {
		c.Iat = 0
	}
	c.Htm, c.Htu = pick(r, "POST", "POST", "GET"), pick(r, "T", "T", "R")
	c.Chtm, c.Chtu = c.Htm, c.Htu
	if w.p(6) {
		c.Chtm = pick(r, "GET", "POST", "post", "-")
	}
	if w.p(6) {
		c.Chtu = pick(r, "T", "T/", "Tq", "R", "Th", "TU", "-")
	}
	if w.p(3) {
		c.Htm = pick(r, "get", "FOO", "-", "Post")
	}
	if w.p(3) {
		c.Htu = pick(r, "bad", "Tq", "-", "T/", "TU")
	}
	if w.p(35) {
		c.Tok = pick(r, "tokA", "tokB", "at#1")
		c.Ath = c.Tok
		if w.p(12) {
			c.Ath = pick(r, "tokA", "tokB", "")
		}
		if w.p(60) {
			c.Cnf = c.Key
			if w.p(20) {
				c.Cnf = pick(r, "k1", "k2", "other", "-")
			}
		}
	} else if w.p(5) {
		c.Ath = "tokA"
	}
	if w.p(12) {
		c.Dev = pick(r, "typ", "notyp", "nojwk", "noath", "athplain", "nojti", "iatfloat", "jtinum", "noiat", "wrongkey", "flipsig", "flippayload", "trunc", "alg", "es384", "hs", "none", "private", "empty", "garbage", "notjson", "strayath", "typcase", "htmcase")
	} else if w.p(8) {
		c.Dev = "prover"
	}
	if w.p(35) {
		c.Same = pick(r, "p1", "p2", "p3")
	}
}

// after keeps hints for later choices.
func (w *walker) after(c *Cmd, e M) {
	r, ok := e["r"].(M)
	if !ok || r["ok"] != true {
		return
	}
	note := func(kind string, cli string) {
		ref := fmt.Sprintf("%s#%d", kind, w.s.count[kind])
		w.owner[ref], w.home[ref] = cli, c.Iss
	}
	a := e["a"].(M)
	last := func(kind string) string { return fmt.Sprintf("%s#%d", kind, w.s.count[kind]) }
	follow := func(n int, c *Cmd) {
		if w.p(n) {
			if w.p(20) {
				w.todo = append(w.todo, &Cmd{Op: "advance", D: []int{1, 2, 30, 60}[w.r.Intn(4)]})
			}
			w.todo = append(w.todo, c)
		}
	}
	switch c.Op {
	case "push":
		note("uri", a["req"].(M)["client_id"].(string))
		follow(35, &Cmd{Op: "authorize", Iss: c.Iss, Cli: a["req"].(M)["client_id"].(string), Ref: last("uri"), Sub: pick(w.r, "u1", "u2"), Q: w.req()})
	case "authorize":
		cl := r["client"].(string)
		note("code", cl)
		ref := last("code")
		w.rd[ref] = r["redirect"].(string)
		for _, v := range []string{"v1", "v2", "v3.128", "v4.100"} {
			if s, err := w.s.st.code.Get(nil, issuers[c.Iss], r["code"].(string)); err == nil && s.GetRequest().GetCodeChallenge() == s256(verifier(v)) {
				w.ver[ref] = v
			}
		}
		n := 35
		if w.prof == "token" {
			n = 80
		}
		f := &Cmd{Op: "token", Grant: "ac", Iss: c.Iss, Cli: cl, Code: ref, Redirect: w.rd[ref], Ver: or(w.ver[ref], "v1")}
		if w.p(40) {
			f.Jkt = pick(w.r, "jktA", "jktB")
		}
		follow(n, f)
	case "devauth":
		note("dc", c.Cli)
		note("uc", c.Cli)
		if w.p(40) {
			w.todo = append(w.todo, &Cmd{Op: "approve", Iss: c.Iss, Uc: last("uc"), Sub: pick(w.r, "u1", "u2")})
			f := &Cmd{Op: "token", Grant: "dc", Iss: c.Iss, Cli: c.Cli, Dc: last("dc")}
			if w.p(40) {
				f.Jkt = pick(w.r, "jktA", "jktB")
			}
			follow(70, f)
		}
	case "revoke":
		w.kill("at", c.Val)
		w.kill("rt", c.Val)
	case "token":
		if r["rt_set"] == true && c.Grant == "rt" {
			w.kill("rt", c.Rt)
		}
		if r["at_set"] == true {
			note("at", c.Cli)
			w.live["at"] = append(w.live["at"], last("at"))
		}
		if r["rt_set"] == true {
			note("rt", c.Cli)
			ref := last("rt")
			w.live["rt"] = append(w.live["rt"], ref)
			jkt := r["rt"].(M)["jkt"].(string)
			w.rd["jkt:"+ref] = jkt
			if jkt == "" {
				jkt = "-"
			}
			if w.p(30) {
				follow(100, &Cmd{Op: "advance", D: []int{1, 3600, 601199, 601200, 601201, 603000, 604799}[w.r.Intn(7)]})
				w.todo = append(w.todo, &Cmd{Op: "token", Grant: "rt", Iss: c.Iss, Cli: c.Cli, Rt: ref, Jkt: jkt})
			}
		}
	}
}

// TestRandom produces VERIF_N random traces with the profile VERIF_PROFILE.
func TestRandom(t *testing.T) {
	out := os.Getenv("VERIF_OUT")
	if out == "" || os.Getenv("VERIF_PROFILE") == "" {
		t.Skip()
	}
	n, depth, seed := envInt("VERIF_N", 100), envInt("VERIF_DEPTH", 25), envInt("VERIF_SEED", 1)
	profs := strings.Split(os.Getenv("VERIF_PROFILE"), ",")
	wr, ws := newWriter(t, out), newWriter(t, out+".scripts")
	t.Run("all", func(t *testing.T) {
		inBubbles(t, n, func(i int, st *stores) {
			prof := profs[i%len(profs)]
			id := fmt.Sprintf("random:%s:%d", prof, i)
			fault := strings.HasSuffix(prof, "!")
			prof = strings.TrimSuffix(prof, "!")
			race := strings.HasSuffix(prof, "~")
			prof = strings.TrimSuffix(prof, "~")
			r := rand.New(rand.NewSource(seedOf(seed, id)))
			kind := pick(r, "", "", "", "numeric")
			isss := []string{"I1"}
			if r.Intn(4) == 0 {
				isss = []string{"I1", "I2", "I3"}
			}
			if r.Intn(8) == 0 {
				kind, isss = "overlap", []string{"I1", "I3"}
			}
			s := newSystem(st, kind, r.Int63())
			w := &walker{s: s, r: r, prof: prof, isss: isss, fault: fault, owner: map[string]string{}, home: map[string]string{}, rd: map[string]string{}, ver: map[string]string{}, live: map[string][]string{}}
			all := []string{"c1", "c1", "c1", "C1", "c2", "c2", "c11", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10"}
			switch r.Intn(3) {
			case 0:
				w.clis = []string{"c1", "c2"}
			case 1:
				w.clis = []string{"c1", "c1", "c2", "c11", "C1", all[r.Intn(len(all))]}
			default:
				w.clis = all
			}
			t0 := time.Now().Unix()
			sc := Script{ID: id, Kind: kind}
			for len(sc.Cmds) < depth {
				c := w.next()
				if c == nil {
					continue
				}
				if kind == "overlap" && w.p(30) {
					w.overlap(c)
				}
				if race && c.Op != "advance" && c.Op != "client" && w.p(40) {
					c = w.batch(c)
					s.step(c)
					sc.Cmds = append(sc.Cmds, *c)
					continue
				}
				e := s.runCmd(c)
				s.learn(e)
				w.after(c, e)
				s.events = append(s.events, e)
				progress.Add(1)
				sc.Cmds = append(sc.Cmds, *c)
			}
			wr.put(s.trace(id, t0))
			ws.put(sc)
		})
	})
	wr.close()
	ws.close()
}

// batch makes a few concurrent requests, most of them about the same artefact.
func (w *walker) batch(c *Cmd) *Cmd {
	out := &Cmd{Op: "race", Par: []Cmd{*c}}
	for n := 1 + w.r.Intn(3); n > 0; n-- {
		d := *c
		if w.p(35) {
			w.todo = nil
			if x := w.next(); x != nil && x.Op != "advance" && x.Op != "client" {
				d = *x
			}
		} else if w.p(40) {
			// the same request with another client, subject or key
			switch w.r.Intn(4) {
			case 0:
				d.Cli = w.client()
			case 1:
				d.Sub = pick(w.r, "u1", "u2", "u3")
			case 2:
				if c.Op == "token" {
					d.Jkt = pick(w.r, "jktA", "jktB")
				}
			case 3:
				if c.Op == "revoke" || c.Op == "introspect" {
					d.Op = pick(w.r, "revoke", "introspect")
				}
			}
		}
		out.Par = append(out.Par, d)
	}
	w.todo = nil
	for range out.Par {
		out.Sched = append(out.Sched, w.r.Intn(4))
	}
	return out
}

// overlap presents a value at the issuer whose concatenation with the rest of
// the value is the same.
func (w *walker) overlap(c *Cmd) {
	cut := func(v string) string {
		if strings.Contains(v, "#") && !strings.Contains(v, "|") {
			return v + "|cut:2"
		}
		return v
	}
	c.Ref, c.Code, c.Dc, c.Uc, c.Rt, c.St, c.Val = cut(c.Ref), cut(c.Code), cut(c.Dc), cut(c.Uc), cut(c.Rt), cut(c.St), cut(c.Val)
	c.Iss = "I3"
}
