// Package verifharness drives zntr.io/solid from scripts produced by the TLA+
// specification (or by seeded random drivers) and records what happened as
// traces that TLC validates against the specification. It contains no oracle.
package verifharness

import (
	"bufio"
	"context"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode/utf8"

	"google.golang.org/protobuf/proto"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/authorization"
	"zntr.io/solid/server/services/device"
	tokensvc "zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
)

// M is a JSON object.
type M = map[string]any

// -----------------------------------------------------------------------------
// Scripts

// Req is an authorization request template; "" keeps the default and "-" means absent.
type Req struct {
	Client   string `json:"client,omitempty"`
	State    string `json:"state,omitempty"` // length of the state ("32"), "-" absent
	Nonce    string `json:"nonce,omitempty"`
	Scope    string `json:"scope,omitempty"`
	Aud      string `json:"aud,omitempty"`
	Redirect string `json:"redirect,omitempty"`
	Rtype    string `json:"rtype,omitempty"`
	Chal     string `json:"chal,omitempty"`   // verifier name, or raw:<value>
	Method   string `json:"method,omitempty"` //
	Mode     string `json:"mode,omitempty"`   // "" or "-" unset
	Prompt   string `json:"prompt,omitempty"`
	Nested   string `json:"nested,omitempty"` // request_uri carried inside a pushed request
	Extra    string `json:"extra,omitempty"`
}

// Fault makes the k-th call to a dependency fail.
type Fault struct {
	At   string `json:"at"`   // dependency and method, e.g. tok.Create
	K    int    `json:"k"`    // which call (from 1)
	Mode string `json:"mode"` // before, after, blank, wrapped, alter:...
}

// Cmd is one command of a script.
type Cmd struct {
	Op       string `json:"op"`
	Iss      string `json:"iss,omitempty"`
	Cli      string `json:"cli,omitempty"`
	Claims   string `json:"claims,omitempty"` // what the presented client object claims to be
	Sub      string `json:"sub,omitempty"`
	Nil      bool   `json:"nil,omitempty"`
	Q        *Req   `json:"q,omitempty"`
	Ref      string `json:"ref,omitempty"`
	Grant    string `json:"grant,omitempty"`
	Payload  string `json:"payload,omitempty"`
	Code     string `json:"code,omitempty"`
	Redirect string `json:"redirect,omitempty"`
	Ver      string `json:"ver,omitempty"`
	Dc       string `json:"dc,omitempty"`
	Uc       string `json:"uc,omitempty"`
	Rt       string `json:"rt,omitempty"`
	St       string `json:"st,omitempty"`
	Stt      string `json:"stt,omitempty"`
	Scope    string `json:"scope,omitempty"`
	Aud      string `json:"aud,omitempty"`
	Jkt      string `json:"jkt,omitempty"`
	Val      string `json:"val,omitempty"`
	Dcli     string `json:"dcli,omitempty"`
	D        int    `json:"d,omitempty"`

	// Registration of the client; absent fields are those of the registry
	Reg *regClient `json:"reg,omitempty"`

	// DPoP proofs
	Htm  string `json:"htm,omitempty"`
	Htu  string `json:"htu,omitempty"`
	Chtm string `json:"chtm,omitempty"`
	Chtu string `json:"chtu,omitempty"`
	Iat  int    `json:"iat,omitempty"`
	Jti  string `json:"jti,omitempty"`
	Key  string `json:"key,omitempty"`
	Tok  string `json:"tok,omitempty"`
	Ath  string `json:"ath,omitempty"`
	Cnf  string `json:"cnf,omitempty"`
	Dev  string `json:"dev,omitempty"`
	Same string `json:"same,omitempty"` // replay the very proof of that name

	Fault *Fault `json:"fault,omitempty"`

	// Case of a format operation
	C M `json:"c,omitempty"`

	// Concurrent batch
	Par   []Cmd `json:"par,omitempty"`
	Sched []int `json:"sched,omitempty"`
}

// Script is a sequence of commands.
type Script struct {
	ID   string `json:"id"`
	Kind string `json:"kind,omitempty"` // generator stubs: "", overlap, jwt
	Cmds []Cmd  `json:"cmds"`
}

// Trace is what TLC reads.
type Trace struct {
	ID    string `json:"id"`
	Multi bool   `json:"multi"`
	T0    int64  `json:"t0"`
	Ev    []M    `json:"ev"`
}

// -----------------------------------------------------------------------------
// Registry

type regClient struct {
	Ctype     string   `json:"ctype,omitempty"`
	Grants    []string `json:"grants"`
	Rtypes    []string `json:"rtypes"`
	Rmodes    []string `json:"rmodes"`
	Redirects []string `json:"redirects"`
}

type registryFile struct {
	Clients   map[string]regClient `json:"clients"`
	Resources []string             `json:"resources"`
}

var registry = func() registryFile {
	var out registryFile
	path := os.Getenv("VERIF_REGISTRY")
	if path == "" {
		path = "/verif/spec/registry.json"
	}
	raw, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(raw, &out); err != nil {
		panic(err)
	}
	return out
}()

var ctypes = map[string]clientv1.ClientType{
	"UNKNOWN":      clientv1.ClientType_CLIENT_TYPE_UNSPECIFIED,
	"CONFIDENTIAL": clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL,
	"CREDENTIALED": clientv1.ClientType_CLIENT_TYPE_CREDENTIALED,
	"PUBLIC":       clientv1.ClientType_CLIENT_TYPE_PUBLIC,
}

func clientObject(id string, c regClient) *clientv1.Client {
	cp := func(in []string) []string { return append([]string(nil), in...) }
	return &clientv1.Client{
		ClientId: id, ClientName: "name-" + id, ClientType: ctypes[c.Ctype], GrantTypes: cp(c.Grants),
		ResponseTypes: cp(c.Rtypes), ResponseModes: cp(c.Rmodes), RedirectUris: cp(c.Redirects),
	}
}

// presented builds the client object of a request: only its identifier is
// authoritative, the remaining attributes are whatever the caller claims.
func presented(id, claims string) *clientv1.Client {
	switch {
	case id == "-":
		return nil
	case id == "blank":
		// An object without identifier
		return clientObject("", registry.Clients["c1"])
	case claims != "":
		if rc, ok := registry.Clients[claims]; ok {
			return clientObject(id, rc)
		}
		return &clientv1.Client{ClientId: id}
	}
	if rc, ok := registry.Clients[id]; ok {
		return clientObject(id, rc)
	}
	// Unknown clients claim everything
	return clientObject(id, registry.Clients["c1"])
}

type clientReader struct {
	mu      sync.RWMutex
	clients map[string]*clientv1.Client
}

func newClientReader() *clientReader {
	out := &clientReader{clients: map[string]*clientv1.Client{}}
	for id, c := range registry.Clients {
		out.clients[id] = clientObject(id, c)
	}
	return out
}

func (r *clientReader) Get(_ context.Context, id string) (*clientv1.Client, error) {
	r.mu.RLock()
	defer r.mu.RUnlock()
	if c, ok := r.clients[id]; ok {
		return c, nil
	}
	return nil, storage.ErrNotFound
}

// set changes the registration of a client; nil removes it.
func (r *clientReader) set(id string, c *clientv1.Client) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if c == nil {
		delete(r.clients, id)
	} else {
		r.clients[id] = c
	}
}

// registration completes a partial registration.
func registration(id string, c *regClient) regClient {
	out := registry.Clients[id]
	if c == nil {
		return out
	}
	if c.Ctype != "" {
		out.Ctype = c.Ctype
	}
	set := func(dst *[]string, src []string) {
		if src != nil {
			*dst = nil
			for _, v := range src {
				if g, ok := shortGrants[v]; ok {
					v = g
				}
				*dst = append(*dst, v)
			}
		}
	}
	set(&out.Grants, c.Grants)
	set(&out.Rtypes, c.Rtypes)
	set(&out.Rmodes, c.Rmodes)
	set(&out.Redirects, c.Redirects)
	return out
}

func list(in []string) []string {
	if in == nil {
		return []string{}
	}
	return in
}

func (r *clientReader) GetByName(_ context.Context, name string) (*clientv1.Client, error) {
	return r.Get(context.Background(), strings.TrimPrefix(name, "name-"))
}

// -----------------------------------------------------------------------------
// System under test

type stores struct {
	par  storage.AuthorizationRequest
	code storage.AuthorizationCodeSession
	dev  storage.DeviceCodeSession
	tok  storage.Token
	jti  storage.DPoP
	res  storage.ResourceReader
	cli  storage.ClientReader

	clients storage.Client
}

// newStores must be called outside of a synctest bubble: the caches start
// janitor goroutines.
func newStores() *stores {
	return &stores{
		par: inmemory.AuthorizationRequests(), code: inmemory.AuthorizationCodeSessions(), dev: inmemory.DeviceCodeSessions(),
		tok: inmemory.Tokens(), jti: inmemory.DPoPProofs(), res: inmemory.Resources(), cli: newClientReader(),
		clients: inmemory.Clients(),
	}
}

type gens struct {
	code generator.AuthorizationCode
	uri  generator.RequestURI
	dc   generator.DeviceCode
	uc   generator.DeviceUserCode
	at   token.Generator
	rt   token.Generator
}

type system struct {
	st    *stores
	g     gens
	authz services.Authorization
	dev   services.Device
	tok   services.Token
	dpop  dpop.Verifier

	faults *faultPlan
	rng    *rand.Rand
	refs   map[string]string
	count  map[string]int
	proofs map[string]string // proof name -> raw proof
	pargs  map[string]M
	events []M
	iss    map[string]bool
	sdk    sdkState
	liveMu sync.Mutex
	lives  map[string]any // long-lived objects
	n      int
}

func newSystem(st *stores, kind string, seed int64) *system {
	s := &system{
		st: st, rng: rand.New(rand.NewSource(seed)), refs: map[string]string{}, count: map[string]int{}, proofs: map[string]string{},
		pargs: map[string]M{}, iss: map[string]bool{}, lives: map[string]any{}, faults: &faultPlan{},
	}
	s.g = newGens(kind)
	f := s.faults
	fs := &stores{
		par: &fPar{st.par, f}, code: &fCode{st.code, f}, dev: &fDev{st.dev, f}, tok: &fTok{st.tok, f}, jti: &fJti{st.jti, f},
		res: &fRes{st.res, f}, cli: &fCli{st.cli, f},
	}
	s.authz = authorization.New(fs.cli, fs.par, fs.code, &fGenCode{s.g.code, f}, &fGenURI{s.g.uri, f})
	s.dev = device.New(fs.cli, fs.dev, &fGenDC{s.g.dc, f}, &fGenUC{s.g.uc, f})
	s.tok = tokensvc.New(&fGenTok{s.g.at, f, "gen.at"}, &fGenTok{s.g.rt, f, "gen.rt"}, fs.cli, fs.par, fs.code, fs.dev, fs.tok, fs.res)
	s.dpop = newDPoP(fs.jti)
	return s
}

// -----------------------------------------------------------------------------
// References

// ref resolves "code#1|cut:3" to the recorded artefact.
func (s *system) ref(in string) string {
	parts := strings.Split(in, "|")
	v := parts[0]
	if strings.Contains(v, "#") {
		if r, ok := s.refs[v]; ok {
			v = r
		} else {
			v = "missing-" + strings.ReplaceAll(v, "#", "-")
		}
	}
	if v == "-" {
		v = ""
	}
	for _, m := range parts[1:] {
		name, arg, _ := strings.Cut(m, ":")
		switch name {
		case "cut":
			n, _ := strconv.Atoi(arg)
			if n <= len(v) {
				v = v[n:]
			}
		case "trim":
			n, _ := strconv.Atoi(arg)
			if n <= len(v) {
				v = v[:len(v)-n]
			}
		case "pre":
			v = unescape(arg) + v
		case "suf":
			v += unescape(arg)
		case "upper":
			if u := strings.ToUpper(v); u != v {
				v = u
			} else {
				v = strings.ToLower(v)
			}
		case "rep":
			n, _ := strconv.Atoi(arg)
			v = strings.Repeat(v, n)
		}
	}
	return v
}

func unescape(s string) string {
	return strings.NewReplacer("%20", " ", "%0A", "\n", "%7C", "|").Replace(s)
}

func (s *system) unbind(kind string) {
	s.liveMu.Lock()
	defer s.liveMu.Unlock()
	delete(s.refs, kind+"#last")
}

func (s *system) bind(kind, value string) {
	s.liveMu.Lock()
	defer s.liveMu.Unlock()
	s.count[kind]++
	s.refs[fmt.Sprintf("%s#%d", kind, s.count[kind])] = value
	s.refs[kind+"#last"] = value
}

// verifier returns the code_verifier named n ("v1", "v1.128"): name and length.
func verifier(n string) string {
	switch {
	case strings.HasPrefix(n, "chal:"): // the challenge itself
		return challenge(n[5:])
	case strings.HasPrefix(n, "case:"):
		return strings.ToLower(verifier(n[5:]))
	case strings.HasPrefix(n, "sp:"):
		return verifier(n[3:]) + " "
	case strings.HasPrefix(n, "cut:"): // all but the last character, padded in front
		v := verifier(n[4:])
		return "x" + v[:len(v)-1]
	}
	name, l, ok := strings.Cut(n, ".")
	size := 43
	if ok {
		size, _ = strconv.Atoi(l)
	}
	if name == "eu" && size >= 3 { // lengths are counted in bytes
		return verifier("v1." + strconv.Itoa(size-3)) + "€"
	}
	base := name + "-ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789._~"
	for len(base) < size {
		base += base
	}
	return base[:size]
}

func s256(in string) string {
	h := sha256.Sum256([]byte(in))
	return base64.RawURLEncoding.EncodeToString(h[:])
}

func challenge(n string) string {
	switch {
	case strings.HasPrefix(n, "low:"):
		return strings.ToLower(s256(verifier(n[4:])))
	case strings.HasPrefix(n, "std:"):
		h := sha256.Sum256([]byte(verifier(n[4:])))
		return base64.RawStdEncoding.EncodeToString(h[:])
	case strings.HasPrefix(n, "raw:"):
		return strings.TrimPrefix(n, "raw:")
	case strings.HasPrefix(n, "plain:"):
		return verifier(strings.TrimPrefix(n, "plain:"))
	case strings.HasPrefix(n, "pad:"):
		return s256(verifier(strings.TrimPrefix(n, "pad:"))) + "="
	case strings.HasPrefix(n, "short:"):
		return s256(verifier(strings.TrimPrefix(n, "short:")))[:42]
	}
	return s256(verifier(n))
}

const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"

func (s *system) text(n int) string {
	out := make([]byte, n)
	for i := range out {
		out[i] = alphabet[s.rng.Intn(len(alphabet))]
	}
	// Sometimes end with multi-byte characters: lengths are counted in bytes
	if n >= 4 && s.rng.Intn(4) == 0 {
		return string(out[:n-3]) + "€"
	}
	return string(out)
}

func or(v, d string) string {
	switch v {
	case "":
		return d
	case "-":
		return ""
	}
	return v
}

func opt(v string) *string {
	if v == "" || v == "-" {
		return nil
	}
	if v == "blank" {
		v = ""
	}
	return &v
}

func (s *system) sized(v string, d int) string {
	if v == "-" {
		return ""
	}
	// blanks only, or ending with characters that need escaping
	if n, ok := strings.CutPrefix(v, "w"); ok {
		d, _ = strconv.Atoi(n)
		return strings.Repeat(" ", d)
	}
	if n, ok := strings.CutPrefix(v, "q"); ok {
		d, _ = strconv.Atoi(n)
		return s.text(d-8) + "&=\"<%2F+"
	}
	if v != "" {
		d, _ = strconv.Atoi(v)
	}
	return s.text(d)
}

// request concretizes an authorization request template.
func (s *system) request(q *Req, cli string) *flowv1.AuthorizationRequest {
	if q == nil {
		q = &Req{}
	}
	id := or(q.Client, cli)
	rd := "https://shared.example/cb"
	if rc, ok := registry.Clients[id]; ok && len(rc.Redirects) > 0 {
		rd = rc.Redirects[0]
	}
	switch {
	case strings.HasPrefix(q.Redirect, "r"):
		// r<k>: k-th redirect of the client; shared: the shared one
		if k, err := strconv.Atoi(q.Redirect[1:]); err == nil {
			if rc, ok := registry.Clients[id]; ok && k < len(rc.Redirects) {
				rd = rc.Redirects[k]
			}
			break
		}
		fallthrough
	default:
		rd = or(q.Redirect, rd)
	}
	chal := ""
	if q.Chal != "-" {
		chal = challenge(or(q.Chal, "v1"))
	}
	out := &flowv1.AuthorizationRequest{
		Scope: or(q.Scope, "openid profile"), ResponseType: or(q.Rtype, "code"), ClientId: id, RedirectUri: rd,
		State: s.sized(q.State, 32), Nonce: s.sized(q.Nonce, 8), Audience: or(q.Aud, "urn:aud:1"),
		CodeChallenge: chal, CodeChallengeMethod: or(q.Method, "S256"),
		ResponseMode: opt(q.Mode), Prompt: opt(q.Prompt),
	}
	if q.Nested != "" && q.Nested != "-" {
		n := s.ref(q.Nested)
		out.RequestUri = &n
	}
	if q.Extra != "" {
		e := q.Extra
		out.AcrValues, out.LoginHint, out.UiLocales = &e, &e, &e
	}
	return out
}

func deref(p *string) string {
	if p == nil {
		return ""
	}
	return *p
}

func words(s string) []string {
	if w := strings.Fields(s); w != nil {
		return w
	}
	return []string{}
}

func uriOK(s string) bool {
	_, err := url.ParseRequestURI(s)
	return err == nil
}

// abstractReq projects an authorization request on the fields of the specification.
func abstractReq(r *flowv1.AuthorizationRequest) M {
	if r == nil {
		r = &flowv1.AuthorizationRequest{}
	}
	// every other parameter, as one opaque value
	rest := proto.Clone(r).(*flowv1.AuthorizationRequest)
	rest.State, rest.Nonce, rest.Scope, rest.Audience, rest.ClientId, rest.RedirectUri = "", "", "", "", "", ""
	rest.ResponseType, rest.CodeChallenge, rest.CodeChallengeMethod, rest.ResponseMode, rest.Prompt = "", "", "", nil, nil
	raw, _ := proto.MarshalOptions{Deterministic: true}.Marshal(rest)
	extra := hex.EncodeToString(raw)
	return M{
		"state": r.State, "state_len": len(r.State), "nonce": r.Nonce, "nonce_len": len(r.Nonce), "scope": r.Scope,
		"scope_w": words(r.Scope), "aud": r.Audience, "client_id": r.ClientId, "redirect": r.RedirectUri, "redirect_valid": uriOK(r.RedirectUri),
		"rtype": r.ResponseType, "chal": r.CodeChallenge, "chal_len": len(r.CodeChallenge), "method": r.CodeChallengeMethod,
		"mode_set": r.ResponseMode != nil, "mode": deref(r.ResponseMode), "prompt_set": r.Prompt != nil, "prompt": deref(r.Prompt),
		"extra": extra,
	}
}

func clampU(v uint64) int64 {
	if v > 2000000000 {
		return 2000000000
	}
	return int64(v)
}

func abstractToken(t *tokenv1.Token) M {
	out := M{
		"value": "", "id": "", "type": "", "iss": "", "sub": "", "client": "", "scope": "", "aud": "", "iat": 0, "nbf": 0, "exp": 0,
		"cnf_set": false, "jkt": "", "status": "NONE",
	}
	if t == nil {
		return out
	}
	out["value"], out["id"] = t.Value, t.TokenId
	switch t.TokenType {
	case tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN:
		out["type"] = "AT"
	case tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN:
		out["type"] = "RT"
	default:
		out["type"] = t.TokenType.String()
	}
	out["status"] = strings.TrimPrefix(t.Status.String(), "TOKEN_STATUS_")
	if m := t.Metadata; m != nil {
		out["iss"], out["sub"], out["client"], out["scope"], out["aud"] = m.Issuer, m.Subject, m.ClientId, m.Scope, m.Audience
		out["iat"], out["nbf"], out["exp"] = clampU(m.IssuedAt), clampU(m.NotBefore), clampU(m.ExpiresAt)
	}
	if t.Confirmation != nil {
		out["cnf_set"], out["jkt"] = true, t.Confirmation.Jkt
	}
	return out
}

func cnf(jkt string) *tokenv1.TokenConfirmation {
	if jkt == "" || jkt == "-" {
		return nil
	}
	return &tokenv1.TokenConfirmation{Jkt: jkt}
}

var issuers = map[string]string{
	"I1": "https://as1.example", "I2": "https://as2.example", "I3": "https://as1.example/x", "bad": "not a url", "rel": "as1.example",
}

func (s *system) issuer(n string) string {
	v := or(n, "I1")
	if i, ok := issuers[v]; ok {
		v = i
	}
	if v != "" {
		s.iss[v] = true
	}
	return v
}

// -----------------------------------------------------------------------------
// Execution

func outcome(panicked string, err error, pub *corev1.Error, cred bool) M {
	code := ""
	if pub != nil {
		code = pub.Err
		if code == "" {
			code = "blank"
		}
	}
	if err != nil && code == "" {
		code = "internal"
	}
	return M{"ok": err == nil && panicked == "", "err": code, "estate": pub.GetState(), "panic": panicked, "cred": cred}
}

func guard(f func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("VERIF_STACK") != "" {
				fmt.Fprintln(os.Stderr, r, string(debug.Stack()))
			}
			panicked = strings.SplitN(fmt.Sprintf("%v", r), "\n", 2)[0]
		}
	}()
	f()
	return ""
}

func merge(a, b M) M {
	for k, v := range b {
		a[k] = v
	}
	return a
}

// runCmd executes one command and returns its event.
func (s *system) runCmd(c *Cmd) M {
	ctx := context.Background()
	a, call := s.prepare(c)
	s.faults.arm(c.Fault)
	r := call(ctx)
	fired, alter := s.faults.disarm()
	return M{"op": c.Op, "a": a, "r": r, "f": M{"at": fired, "alter": alter}}
}

// prepare resolves the arguments of a command; the returned function performs the call.
func (s *system) prepare(c *Cmd) (M, func(context.Context) M) {
	iss := s.issuer(c.Iss)
	cliName := c.Cli
	if cliName == "" {
		cliName = "c1"
	}
	cli := presented(cliName, c.Claims)
	cliID := ""
	if cli != nil {
		cliID = cli.ClientId
	}

	switch c.Op {
	case "push":
		q := s.request(c.Q, cliID)
		a := M{"iss": iss, "cli_set": cli != nil, "cli": cliID, "rset": !c.Nil, "nested": !c.Nil && q.RequestUri != nil, "req": abstractReq(q)}
		return a, func(ctx context.Context) M {
			var res *flowv1.RegistrationResponse
			var err error
			in := &flowv1.RegistrationRequest{Issuer: iss, Client: cli, Request: q}
			if c.Nil {
				in.Request = nil
			}
			defer func() { scribble(in, res) }()
			p := guard(func() { res, err = s.authz.Register(ctx, in) })
			return merge(outcome(p, err, res.GetError(), res.GetRequestUri() != ""),
				M{"uri": res.GetRequestUri(), "expires": clampU(res.GetExpiresIn()), "iss": res.GetIssuer()})
		}
	case "authorize":
		q := s.request(c.Q, cliID)
		ref, refSet := s.ref(c.Ref), c.Ref != ""
		a := M{
			"iss": iss, "sub": or(c.Sub, "u1"), "cli_set": cli != nil, "cli": cliID, "rset": !c.Nil, "ref_set": refSet && !c.Nil, "ref": ref,
			"req": abstractReq(q),
		}
		return a, func(ctx context.Context) M {
			var res *flowv1.AuthorizeResponse
			var err error
			in := &flowv1.AuthorizeRequest{Issuer: iss, Client: cli, Subject: or(c.Sub, "u1"), Request: q}
			if refSet {
				q.RequestUri = &ref
			}
			if c.Nil {
				in.Request = nil
			}
			defer func() { scribble(in, res) }()
			p := guard(func() { res, err = s.authz.Authorize(ctx, in) })
			return merge(outcome(p, err, res.GetError(), res.GetCode() != ""), M{
				"code": res.GetCode(), "state": res.GetState(), "redirect": res.GetRedirectUri(), "client": res.GetClientId(),
				"mode": res.GetResponseMode(), "iss": res.GetIssuer(), "expires": clampU(res.GetExpiresIn()),
			})
		}
	case "peek":
		code := s.ref(c.Code)
		return M{"iss": iss, "code": code}, func(ctx context.Context) M {
			ses, err := s.st.code.Get(ctx, iss, code)
			return merge(outcome("", err, nil, false), M{"sub": ses.GetSubject(), "iss": ses.GetIssuer(), "req": abstractReq(ses.GetRequest())})
		}
	case "token":
		return s.prepareToken(c, iss, cli, cliID)
	case "introspect":
		val := s.ref(c.Val)
		a := M{"rset": !c.Nil, "iss": iss, "iss_valid": uriOK(iss), "cli_set": cli != nil, "cli": cliID, "val": val}
		return a, func(ctx context.Context) M {
			var res *tokenv1.IntrospectResponse
			var err error
			in := &tokenv1.IntrospectRequest{Issuer: iss, Client: cli, Token: val}
			if c.Nil {
				in = nil
			}
			defer func() { scribble(in, res) }()
			p := guard(func() { res, err = s.tok.Introspect(ctx, in) })
			t := res.GetToken()
			usable := false
			if t != nil {
				usable = token.IsUsable(t)
			}
			return merge(merge(outcome(p, err, res.GetError(), t != nil), abstractToken(t)), M{"usable": usable})
		}
	case "revoke":
		val := s.ref(c.Val)
		a := M{"rset": !c.Nil, "iss": iss, "iss_valid": uriOK(iss), "cli_set": cli != nil, "cli": cliID, "val": val}
		return a, func(ctx context.Context) M {
			var res *tokenv1.RevokeResponse
			var err error
			in := &tokenv1.RevokeRequest{Issuer: iss, Client: cli, Token: val}
			if c.Nil {
				in = nil
			}
			defer func() { scribble(in, res) }()
			p := guard(func() { res, err = s.tok.Revoke(ctx, in) })
			return outcome(p, err, res.GetError(), false)
		}
	case "devauth":
		id := or(c.Cli, "c1")
		sc, au := opt(c.Scope), opt(c.Aud)
		a := M{
			"rset": !c.Nil, "iss": iss, "cli": id, "scope_set": sc != nil, "scope": deref(sc), "scope_w": words(deref(sc)),
			"aud_set": au != nil, "aud": deref(au),
		}
		return a, func(ctx context.Context) M {
			var res *flowv1.DeviceAuthorizationResponse
			var err error
			in := &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: id, Scope: sc, Audience: au}
			if c.Nil {
				in = nil
			}
			defer func() { scribble(in, res) }()
			p := guard(func() { res, err = s.dev.Authorize(ctx, in) })
			return merge(outcome(p, err, res.GetError(), res.GetDeviceCode() != "" || res.GetUserCode() != ""), M{
				"dc": res.GetDeviceCode(), "uc": res.GetUserCode(), "expires": clampU(res.GetExpiresIn()), "iss": res.GetIssuer(),
				"interval": clampU(res.GetInterval()),
			})
		}
	case "approve":
		uc, sub := s.ref(c.Uc), or(c.Sub, "u1")
		return M{"rset": !c.Nil, "iss": iss, "uc": uc, "sub": sub}, func(ctx context.Context) M {
			var res *flowv1.DeviceCodeValidationResponse
			var err error
			in := &flowv1.DeviceCodeValidationRequest{Issuer: iss, UserCode: uc, Subject: sub}
			if c.Nil {
				in = nil
			}
			defer func() { scribble(in, res) }()
			p := guard(func() { res, err = s.dev.Validate(ctx, in) })
			return outcome(p, err, res.GetError(), false)
		}
	case "proof":
		return s.prepareProof(c)
	case "client":
		rc := registration(cliName, c.Reg)
		a := M{"id": cliName, "there": !c.Nil, "ctype": rc.Ctype, "grants": list(rc.Grants), "rtypes": list(rc.Rtypes), "rmodes": list(rc.Rmodes), "redirects": list(rc.Redirects)}
		return a, func(context.Context) M {
			if c.Nil {
				s.st.cli.(*clientReader).set(cliName, nil)
			} else {
				s.st.cli.(*clientReader).set(cliName, clientObject(cliName, rc))
			}
			return outcome("", nil, nil, false)
		}
	case "advance":
		return M{"d": c.D}, func(context.Context) M {
			time.Sleep(time.Duration(c.D) * time.Second)
			return outcome("", nil, nil, false)
		}
	}
	if f, ok := fops[c.Op]; ok {
		a := M{}
		for k, v := range c.C {
			a[k] = v
		}
		return a, lending(s, f, c.C, a)
	}
	panic("unknown op " + c.Op)
}

const (
	gAuthz  = "authorization_code"
	gCC     = "client_credentials"
	gDevice = "urn:ietf:params:oauth:grant-type:device_code"
	gRT     = "refresh_token"
	gXT     = "urn:ietf:params:oauth:grant-type:token-exchange"
	atType  = "urn:ietf:params:oauth:token-type:access_token"
)

var shortGrants = map[string]string{"ac": gAuthz, "cc": gCC, "dc": gDevice, "rt": gRT, "xt": gXT}

func (s *system) prepareToken(c *Cmd, iss string, cli *clientv1.Client, cliID string) (M, func(context.Context) M) {
	grant := or(c.Grant, "ac")
	if g, ok := shortGrants[grant]; ok {
		grant = g
	}
	payload := grant
	if c.Payload != "" {
		payload = or(c.Payload, "")
		if g, ok := shortGrants[payload]; ok {
			payload = g
		}
	}
	sc, au := opt(c.Scope), opt(c.Aud)
	in := &flowv1.TokenRequest{Issuer: iss, Client: cli, GrantType: grant, Scope: sc, Audience: au, TokenConfirmation: cnf(c.Jkt)}
	redirect := c.Redirect
	code, ver, dc, rt, st := s.ref(c.Code), "", s.ref(c.Dc), s.ref(c.Rt), s.ref(c.St)
	if c.Ver != "-" {
		ver = verifier(or(c.Ver, "v1"))
	}
	switch {
	case redirect == "-":
		redirect = ""
	case redirect == "" || (len(redirect) == 2 && redirect[0] == 'r'):
		k := 0
		if redirect != "" {
			k = int(redirect[1] - '0')
		}
		redirect = "https://shared.example/cb"
		if rc, ok := registry.Clients[cliID]; ok && k < len(rc.Redirects) {
			redirect = rc.Redirects[k]
		}
	}
	stt := or(c.Stt, atType)
	switch payload {
	case gAuthz:
		in.Grant = &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: code, RedirectUri: redirect, CodeVerifier: ver}}
	case gCC:
		in.Grant = &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}}
	case gDevice:
		in.Grant = &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{DeviceCode: dc, ClientId: or(c.Dcli, cliID)}}
	case gRT:
		in.Grant = &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: rt}}
	case gXT:
		in.Grant = &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: st, SubjectTokenType: stt}}
	default:
		payload = ""
	}
	a := M{
		"rset": !c.Nil, "iss": iss, "iss_valid": uriOK(iss), "cli_set": cli != nil, "cli": cliID, "grant": grant, "payload": payload,
		"cnf_set": in.TokenConfirmation != nil, "jkt": in.TokenConfirmation.GetJkt(), "scope_set": sc != nil, "scope": deref(sc), "scope_w": words(deref(sc)),
		"aud_set": au != nil, "aud": deref(au), "code": code, "code_runes": utf8.RuneCountInString(code), "ver_len": len(ver), "ver_s256": s256(ver),
		"redirect": redirect, "dc": dc, "rt": rt, "st": st, "st_type": stt,
	}
	if c.Nil {
		in = nil
	}
	return a, func(ctx context.Context) M {
		var res *flowv1.TokenResponse
		var err error
		defer func() { scribble(in, res) }()
		p := guard(func() { res, err = s.tok.Token(ctx, in) })
		at, rt := res.GetAccessToken(), res.GetRefreshToken()
		return merge(outcome(p, err, res.GetError(), at != nil || rt != nil || res.GetIdToken() != nil), M{
			"at_set": at != nil, "at": abstractToken(at), "rt_set": rt != nil, "rt": abstractToken(rt), "id_set": res.GetIdToken() != nil,
			"issued": res.GetIssuedTokenType(), "iss": res.GetIssuer(), "scope": res.GetScope(),
		})
	}
}

var produces = map[string][]string{"push": {"uri"}, "authorize": {"code"}, "devauth": {"dc", "uc"}, "token": {"at", "rt", "atid", "rtid"}}

// learn binds the artefacts of an event to references.
func (s *system) learn(e M) {
	r, ok := e["r"].(M)
	if !ok {
		return
	}
	str := func(k string) string { v, _ := r[k].(string); return v }
	if r["ok"] != true {
		for _, k := range produces[e["op"].(string)] {
			delete(s.refs, k+"#last")
		}
		return
	}
	switch e["op"] {
	case "push":
		s.bind("uri", str("uri"))
	case "authorize":
		s.bind("code", str("code"))
	case "store":
		if str("id") != "" {
			s.bind("cli", str("id"))
		}
	case "devauth":
		s.bind("dc", str("dc"))
		s.bind("uc", str("uc"))
	case "token":
		for _, k := range produces["token"] {
			delete(s.refs, k+"#last")
		}
		if r["at_set"] == true {
			s.bind("at", r["at"].(M)["value"].(string))
			s.bind("atid", r["at"].(M)["id"].(string))
		}
		if r["rt_set"] == true {
			s.bind("rt", r["rt"].(M)["value"].(string))
			s.bind("rtid", r["rt"].(M)["id"].(string))
		}
	}
}

func (s *system) step(c *Cmd) {
	var e M
	switch c.Op {
	case "par":
		e = s.runPar(c)
	case "race":
		e = s.runRace(c)
	default:
		e = s.runCmd(c)
		s.learn(e)
	}
	s.events = append(s.events, e)
	progress.Add(1)
}

func (s *system) trace(id string, t0 int64) Trace {
	ev := s.events
	if ev == nil {
		ev = []M{}
	}
	return Trace{ID: id, Multi: len(s.iss) > 1, T0: t0, Ev: ev}
}

// -----------------------------------------------------------------------------
// Input / output

func readScripts(t *testing.T, path string) []Script {
	t.Helper()
	f, err := os.Open(path)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	var out []Script
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if line == "" {
			continue
		}
		var s Script
		if err := json.Unmarshal([]byte(line), &s); err != nil {
			t.Fatalf("%v in %s", err, line)
		}
		out = append(out, s)
	}
	return out
}

type writer struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
}

func newWriter(t *testing.T, path string) *writer {
	t.Helper()
	f, err := os.Create(path)
	if err != nil {
		t.Fatal(err)
	}
	return &writer{f: f, w: bufio.NewWriter(f)}
}

func (w *writer) put(v any) {
	raw, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.w.Write(raw)
	w.w.WriteByte('\n')
}

func (w *writer) close() {
	w.w.Flush()
	w.f.Close()
}

var errInjected = errors.New("verif: injected failure")
