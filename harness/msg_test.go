package verifharness

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	_ "zntr.io/solid/api/oidc/discovery/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	_ "zntr.io/solid/api/oidc/resource/v1"
	_ "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

// -----------------------------------------------------------------------------
// Messages of the API

// setting: one field set, as described by the case. p, no and ks are the path of the field: names, numbers and kinds.
type setting struct {
	p, js, ks, reps []string
	no              []int
	v, key          string
	vno             uint64
}

func settings(v any) []setting {
	out := []setting{}
	l, _ := v.([]any)
	for _, x := range l {
		m, _ := x.(map[string]any)
		e := setting{p: cl(m, "p"), js: cl(m, "js"), ks: cl(m, "ks"), reps: cl(m, "reps"), v: cs(m, "v"), key: cs(m, "key"), vno: uint64(ci(m, "vno"))}
		ns, _ := m["no"].([]any)
		for _, n := range ns {
			f, _ := n.(float64)
			e.no = append(e.no, int(f))
		}
		out = append(out, e)
	}
	return out
}

type vtMessage interface {
	proto.Message
	MarshalVT() ([]byte, error)
	MarshalToVT([]byte) (int, error)
	SizeVT() int
	UnmarshalVT([]byte) error
	json.Marshaler
	json.Unmarshaler
}

func newMessage(name string) vtMessage {
	t, err := protoregistry.GlobalTypes.FindMessageByName(protoreflect.FullName(name))
	if err != nil {
		panic("unknown message " + name)
	}
	return t.New().Interface().(vtMessage)
}

func parseValue(fd protoreflect.FieldDescriptor, v string) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(v)
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte(v))
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(v == "true")
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		n, err := strconv.ParseUint(v, 10, 64)
		if err != nil {
			panic(err)
		}
		return protoreflect.ValueOfUint64(n)
	case protoreflect.EnumKind:
		d := fd.Enum().Values().ByName(protoreflect.Name(v))
		if d == nil {
			panic("no enumerator " + v)
		}
		return protoreflect.ValueOfEnum(d.Number())
	}
	panic("kind " + fd.Kind().String())
}

func fieldNamed(m protoreflect.Message, n string) protoreflect.FieldDescriptor {
	fd := m.Descriptor().Fields().ByName(protoreflect.Name(n))
	if fd == nil {
		panic("no field " + n)
	}
	return fd
}

func (e setting) apply(msg proto.Message) {
	m := msg.ProtoReflect()
	for i, n := range e.p {
		fd := fieldNamed(m, n)
		switch last := i == len(e.p)-1; {
		case fd.IsMap():
			m.Mutable(fd).Map().Set(protoreflect.ValueOfString(e.key).MapKey(), protoreflect.ValueOfString(e.v))
		case fd.Kind() == protoreflect.MessageKind && fd.IsList():
			m = m.Mutable(fd).List().AppendMutable().Message()
		case fd.Kind() == protoreflect.MessageKind:
			m = m.Mutable(fd).Message()
		case !last:
			panic("path through a scalar")
		case fd.IsList():
			m.Mutable(fd).List().Append(parseValue(fd, e.v))
		default:
			m.Set(fd, parseValue(fd, e.v))
		}
	}
}

// wire encodes the setting on its own; decoders have to merge the parts.
func (e setting) wire(i int) []byte {
	num := protowire.Number(e.no[i])
	if i < len(e.p)-1 {
		return protowire.AppendBytes(protowire.AppendTag(nil, num, protowire.BytesType), e.wire(i+1))
	}
	switch e.ks[i] {
	case "message":
		return protowire.AppendBytes(protowire.AppendTag(nil, num, protowire.BytesType), nil)
	case "map":
		kv := protowire.AppendString(protowire.AppendTag(nil, 1, protowire.BytesType), e.key)
		kv = protowire.AppendString(protowire.AppendTag(kv, 2, protowire.BytesType), e.v)
		return protowire.AppendBytes(protowire.AppendTag(nil, num, protowire.BytesType), kv)
	case "string", "bytes":
		return protowire.AppendString(protowire.AppendTag(nil, num, protowire.BytesType), e.v)
	case "bool":
		b := uint64(0)
		if e.v == "true" {
			b = 1
		}
		return protowire.AppendVarint(protowire.AppendTag(nil, num, protowire.VarintType), b)
	case "enum":
		return protowire.AppendVarint(protowire.AppendTag(nil, num, protowire.VarintType), e.vno)
	}
	n, err := strconv.ParseUint(e.v, 10, 64)
	if err != nil {
		panic(err)
	}
	if e.ks[i] == "fixed64" {
		return protowire.AppendFixed64(protowire.AppendTag(nil, num, protowire.Fixed64Type), n)
	}
	return protowire.AppendVarint(protowire.AppendTag(nil, num, protowire.VarintType), n)
}

// unknown fields of every wire type
func unknownFields() []byte {
	b := protowire.AppendVarint(protowire.AppendTag(nil, 1000, protowire.VarintType), 1<<40)
	b = protowire.AppendString(protowire.AppendTag(b, 1001, protowire.BytesType), strings.Repeat("unknown", 40))
	b = protowire.AppendFixed64(protowire.AppendTag(b, 1002, protowire.Fixed64Type), 7)
	b = protowire.AppendFixed32(protowire.AppendTag(b, 1003, protowire.Fixed32Type), 7)
	b = protowire.AppendTag(b, 1004, protowire.StartGroupType)
	b = protowire.AppendVarint(protowire.AppendTag(b, 1, protowire.VarintType), 3)
	return protowire.AppendTag(b, 1004, protowire.EndGroupType)
}

// handJSON writes the document a caller following the contract would write.
func handJSON(set []setting, style string) []byte {
	doc := map[string]any{}
	for _, e := range set {
		cur := doc
		for i := range e.p {
			n := e.p[i]
			if style == "camel" {
				n = e.js[i]
			}
			switch last := i == len(e.p)-1; {
			case e.ks[i] == "map":
				mm, _ := cur[n].(map[string]any)
				if mm == nil {
					mm = map[string]any{}
					cur[n] = mm
				}
				mm[e.key] = e.v
			case e.ks[i] == "message":
				if e.reps[i] == "repeated" {
					sub := map[string]any{}
					l, _ := cur[n].([]any)
					cur[n] = append(l, sub)
					cur = sub
					continue
				}
				sub, _ := cur[n].(map[string]any)
				if sub == nil {
					sub = map[string]any{}
					cur[n] = sub
				}
				cur = sub
			case last:
				var v any = e.v
				switch e.ks[i] {
				case "bytes":
					v = base64.StdEncoding.EncodeToString([]byte(e.v))
				case "bool":
					v = e.v == "true"
				case "enum":
					if style == "camel" {
						v = e.vno
					}
				case "uint64", "fixed64":
					if style == "camel" {
						v = json.Number(e.v)
					}
				}
				if e.reps[i] == "repeated" {
					l, _ := cur[n].([]any)
					v = append(l, v)
				}
				cur[n] = v
			}
		}
	}
	if style != "proto" {
		doc["not_a_field"] = map[string]any{"x": []any{1, "2", nil}}
	}
	return js(doc)
}

func valueText(fd protoreflect.FieldDescriptor, v protoreflect.Value) string {
	switch fd.Kind() {
	case protoreflect.BytesKind:
		return string(v.Bytes())
	case protoreflect.EnumKind:
		if d := fd.Enum().Values().ByNumber(v.Enum()); d != nil {
			return string(d.Name())
		}
	}
	return v.String()
}

// held lists what a message holds.
func held(m protoreflect.Message, prefix string) []string {
	out := []string{}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		n := prefix + string(fd.Name())
		switch {
		case fd.IsMap():
			v.Map().Range(func(k protoreflect.MapKey, x protoreflect.Value) bool {
				out = append(out, fmt.Sprintf("%s[%s]=%s", n, k.String(), x.String()))
				return true
			})
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				in := fmt.Sprintf("%s[%d]", n, i)
				if fd.Kind() == protoreflect.MessageKind {
					out = append(append(out, in+"={}"), held(v.List().Get(i).Message(), in+".")...)
				} else {
					out = append(out, in+"="+valueText(fd, v.List().Get(i)))
				}
			}
		case fd.Kind() == protoreflect.MessageKind:
			out = append(append(out, n+"={}"), held(v.Message(), n+".")...)
		default:
			out = append(out, n+"="+valueText(fd, v))
		}
		return true
	})
	sort.Strings(out)
	return out
}

// goName is the name protoc-gen-go gives to a field.
func goName(s string) string {
	out := []byte{}
	low := func(c byte) bool { return 'a' <= c && c <= 'z' }
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '_' && i+1 < len(s) && low(s[i+1]):
		case '0' <= c && c <= '9':
			out = append(out, c)
		default:
			if low(c) {
				c -= 'a' - 'A'
			}
			out = append(out, c)
			for ; i+1 < len(s) && low(s[i+1]); i++ {
				out = append(out, s[i+1])
			}
		}
	}
	return string(out)
}

func scalarText(v reflect.Value) string {
	switch {
	case v.Kind() == reflect.Slice:
		return string(v.Bytes())
	case v.Kind() == reflect.Int32:
		return v.Interface().(fmt.Stringer).String()
	}
	return fmt.Sprint(v.Interface())
}

// accessed lists what the accessors of a message tell; zero values are left out.
func accessed(m proto.Message, prefix string) []string {
	out := []string{}
	fds := m.ProtoReflect().Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		n := prefix + string(fd.Name())
		get := reflect.ValueOf(m).MethodByName("Get" + goName(string(fd.Name())))
		if !get.IsValid() {
			out = append(out, n+" has no accessor")
			continue
		}
		v := get.Call(nil)[0]
		switch {
		case fd.IsMap():
			for _, k := range v.MapKeys() {
				out = append(out, fmt.Sprintf("%s[%s]=%s", n, k.String(), v.MapIndex(k).String()))
			}
		case fd.IsList():
			for j := 0; j < v.Len(); j++ {
				in := fmt.Sprintf("%s[%d]", n, j)
				if fd.Kind() == protoreflect.MessageKind {
					out = append(append(out, in+"={}"), accessed(v.Index(j).Interface().(proto.Message), in+".")...)
				} else {
					out = append(out, in+"="+scalarText(v.Index(j)))
				}
			}
		case fd.Kind() == protoreflect.MessageKind:
			if !v.IsNil() {
				out = append(append(out, n+"={}"), accessed(v.Interface().(proto.Message), n+".")...)
			}
		case v.Kind() == reflect.Slice && v.Len() == 0, v.Kind() != reflect.Slice && v.IsZero():
		default:
			out = append(out, n+"="+scalarText(v))
		}
	}
	sort.Strings(out)
	return out
}

// nothing: a missing message is empty in every respect.
func nothing(m vtMessage) bool {
	z := reflect.Zero(reflect.TypeOf(m)).Interface().(vtMessage)
	b, err := z.MarshalVT()
	return len(b) == 0 && err == nil && z.SizeVT() == 0 && len(accessed(z, "")) == 0
}

func topNumbers(b []byte) []int {
	seen := map[int]bool{}
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		if n < 0 {
			return []int{-1}
		}
		b = b[n:]
		if n = protowire.ConsumeFieldValue(num, typ, b); n < 0 {
			return []int{-1}
		}
		b = b[n:]
		seen[int(num)] = true
	}
	out := []int{}
	for n := range seen {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

func init() {
	fops["msg"] = func(s *system, c, a M) func(context.Context) M {
		set := settings(c["set"])
		return func(context.Context) M {
			r := M{"enc_ok": false, "done": false, "sized": true, "got": []string{}, "get": []string{}, "nums": []int{}, "names": []string{}, "nothing": true}
			p := guard(func() {
				var enc []byte
				var err error
				src := newMessage(cs(c, "type"))
				switch cs(c, "enc") {
				case "wire", "rev":
					for i := range set {
						if cs(c, "enc") == "rev" {
							enc = append(set[i].wire(0), enc...)
						} else {
							enc = append(enc, set[i].wire(0)...)
						}
					}
				case "doc", "camel", "proto":
					enc = handJSON(set, cs(c, "enc"))
				default:
					for _, e := range set {
						e.apply(src)
					}
					switch cs(c, "enc") {
					case "pb":
						enc, err = proto.Marshal(src)
					case "json":
						enc, err = src.MarshalJSON()
					case "gojson":
						enc, err = json.Marshal(src)
					default:
						enc, err = src.MarshalVT()
						buf := make([]byte, len(enc)+16)
						n, errTo := src.MarshalToVT(buf)
						if errTo != nil || n != len(enc) || src.SizeVT() != len(enc) || proto.Size(src) != len(enc) {
							r["sized"] = false
						}
						for _, x := range buf[min(n, len(buf)):] {
							if x != 0 {
								r["sized"] = false
							}
						}
						if len(set) < 8 && n >= 0 && n <= len(buf) && string(buf[:n]) != string(enc) && !hasMap(set) {
							r["sized"] = false
						}
					}
				}
				r["enc_ok"] = err == nil
				switch cs(c, "enc") {
				case "vt", "pb":
					r["nums"] = topNumbers(enc)
				case "json":
					doc := map[string]json.RawMessage{}
					_ = json.Unmarshal(enc, &doc)
					names := []string{}
					for k := range doc {
						names = append(names, k)
					}
					sort.Strings(names)
					r["names"] = names
				}
				if cb(c, "unk") {
					enc = append(unknownFields(), enc...)
					enc = append(enc, unknownFields()...)
				}
				if n := ci(c, "cut"); n >= 0 && int(n) < len(enc) {
					enc = enc[:n]
				}
				dst := newMessage(cs(c, "type"))
				switch cs(c, "dec") {
				case "vt":
					err = dst.UnmarshalVT(enc)
				case "pb":
					err = proto.Unmarshal(enc, dst)
				case "json":
					err = dst.UnmarshalJSON(enc)
				case "gojson":
					err = json.Unmarshal(enc, dst)
				}
				// the input is the caller's
				for i := range enc {
					enc[i] = 'x'
				}
				r["done"] = err == nil
				r["got"], r["get"], r["nothing"] = held(dst.ProtoReflect(), ""), accessed(dst, ""), nothing(dst)
			})
			return merge(outcome(p, nil, nil, false), r)
		}
	}
	fops["enum"] = func(s *system, c, a M) func(context.Context) M {
		return func(context.Context) M {
			r := M{"name": ""}
			p := guard(func() {
				t, err := protoregistry.GlobalTypes.FindEnumByName(protoreflect.FullName(cs(c, "type")))
				if err != nil {
					panic(err)
				}
				r["name"] = t.New(protoreflect.EnumNumber(ci(c, "no"))).(fmt.Stringer).String()
			})
			return merge(outcome(p, nil, nil, false), r)
		}
	}
	fops["rpc"] = func(s *system, c, a M) func(context.Context) M {
		return func(ctx context.Context) M {
			w := &wireConn{calls: []string{}, got: []string{}, icpt: cb(c, "icpt"), descs: map[string]*grpc.ServiceDesc{}, impls: map[string]any{}}
			r := M{"back": []string{}}
			p := guard(func() {
				svc, method := cs(c, "svc"), cs(c, "method")
				if cs(c, "mode") == "unimpl" {
					clientv1.RegisterClientAuthenticationServiceServer(w, clientv1.UnimplementedClientAuthenticationServiceServer{})
					clientv1.RegisterClientRegistrationServiceServer(w, clientv1.UnimplementedClientRegistrationServiceServer{})
					flowv1.RegisterAuthorizationServiceServer(w, flowv1.UnimplementedAuthorizationServiceServer{})
					tokenv1.RegisterIntrospectionServiceServer(w, tokenv1.UnimplementedIntrospectionServiceServer{})
					tokenv1.RegisterRevocatonServiceServer(w, tokenv1.UnimplementedRevocatonServiceServer{})
				} else {
					srv := &rpcServer{w: w, fail: cs(c, "mode") == "err", rset: settings(c["rset"])}
					clientv1.RegisterClientAuthenticationServiceServer(w, srv)
					clientv1.RegisterClientRegistrationServiceServer(w, srv)
					flowv1.RegisterAuthorizationServiceServer(w, srv)
					tokenv1.RegisterIntrospectionServiceServer(w, srv)
					tokenv1.RegisterRevocatonServiceServer(w, srv)
				}
				req := newMessage(cs(c, "in"))
				for _, e := range settings(c["set"]) {
					e.apply(req)
				}
				clients := map[string]any{
					"oidc.client.v1.ClientAuthenticationService": clientv1.NewClientAuthenticationServiceClient(w),
					"oidc.client.v1.ClientRegistrationService":   clientv1.NewClientRegistrationServiceClient(w),
					"oidc.flow.v1.AuthorizationService":          flowv1.NewAuthorizationServiceClient(w),
					"oidc.token.v1.IntrospectionService":         tokenv1.NewIntrospectionServiceClient(w),
					"oidc.token.v1.RevocatonService":             tokenv1.NewRevocatonServiceClient(w),
				}
				out := reflect.ValueOf(clients[svc]).MethodByName(method).Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(req)})
				err, _ := out[1].Interface().(error)
				r["status"] = status.Code(err).String()
				if !out[0].IsNil() {
					r["back"] = held(out[0].Interface().(proto.Message).ProtoReflect(), "")
				}
			})
			return merge(merge(outcome(p, nil, nil, false), r), M{"path": w.path, "ipath": w.ipath, "called": w.calls, "got": w.got})
		}
	}
}

func hasMap(set []setting) bool {
	for _, e := range set {
		if e.key != "" {
			return true
		}
	}
	return false
}

// wireConn takes calls from the generated clients to the generated service descriptions, by name and in bytes.
type wireConn struct {
	descs       map[string]*grpc.ServiceDesc
	impls       map[string]any
	path, ipath string
	calls, got  []string
	icpt        bool
}

func (w *wireConn) RegisterService(d *grpc.ServiceDesc, impl any) {
	if !reflect.TypeOf(impl).Implements(reflect.TypeOf(d.HandlerType).Elem()) {
		panic("not an implementation of " + d.ServiceName)
	}
	w.descs[d.ServiceName], w.impls[d.ServiceName] = d, impl
}

func (w *wireConn) NewStream(context.Context, *grpc.StreamDesc, string, ...grpc.CallOption) (grpc.ClientStream, error) {
	return nil, status.Error(codes.Unimplemented, "no streams")
}

func (w *wireConn) Invoke(ctx context.Context, path string, args, reply any, _ ...grpc.CallOption) error {
	w.path = path
	parts := strings.Split(path, "/")
	if len(parts) != 3 || w.descs[parts[1]] == nil {
		return status.Error(codes.Unimplemented, "unknown service")
	}
	in, err := proto.Marshal(args.(proto.Message))
	if err != nil {
		return err
	}
	var ic grpc.UnaryServerInterceptor
	if w.icpt {
		ic = func(ctx context.Context, req any, info *grpc.UnaryServerInfo, h grpc.UnaryHandler) (any, error) {
			w.ipath = info.FullMethod
			return h(ctx, req)
		}
	}
	for _, m := range w.descs[parts[1]].Methods {
		if m.MethodName != parts[2] {
			continue
		}
		res, err := m.Handler(w.impls[parts[1]], ctx, func(dst any) error { return proto.Unmarshal(in, dst.(proto.Message)) }, ic)
		if err != nil {
			return err
		}
		out, err := proto.Marshal(res.(proto.Message))
		if err != nil {
			return err
		}
		return proto.Unmarshal(out, reply.(proto.Message))
	}
	return status.Error(codes.Unimplemented, "unknown method")
}

// rpcServer implements every service of the API and records what reaches it.
type rpcServer struct {
	clientv1.UnimplementedClientAuthenticationServiceServer
	clientv1.UnimplementedClientRegistrationServiceServer
	flowv1.UnimplementedAuthorizationServiceServer
	tokenv1.UnimplementedIntrospectionServiceServer
	tokenv1.UnimplementedRevocatonServiceServer
	w    *wireConn
	fail bool
	rset []setting
}

func rpcAnswer[Q, R proto.Message](s *rpcServer, name string, q Q, r R) (R, error) {
	s.w.calls = append(s.w.calls, name)
	s.w.got = held(q.ProtoReflect(), "")
	if s.fail {
		var none R
		return none, status.Error(codes.PermissionDenied, "refused")
	}
	for _, e := range s.rset {
		e.apply(r)
	}
	return r, nil
}

func (s *rpcServer) Authenticate(_ context.Context, q *clientv1.AuthenticateRequest) (*clientv1.AuthenticateResponse, error) {
	return rpcAnswer(s, "oidc.client.v1.ClientAuthenticationService/Authenticate", q, &clientv1.AuthenticateResponse{})
}

func (s *rpcServer) Register(_ context.Context, q *clientv1.RegisterRequest) (*clientv1.RegisterResponse, error) {
	return rpcAnswer(s, "oidc.client.v1.ClientRegistrationService/Register", q, &clientv1.RegisterResponse{})
}

func (s *rpcServer) Authorize(_ context.Context, q *flowv1.AuthorizeRequest) (*flowv1.AuthorizeResponse, error) {
	return rpcAnswer(s, "oidc.flow.v1.AuthorizationService/Authorize", q, &flowv1.AuthorizeResponse{})
}

func (s *rpcServer) Token(_ context.Context, q *flowv1.TokenRequest) (*flowv1.TokenResponse, error) {
	return rpcAnswer(s, "oidc.flow.v1.AuthorizationService/Token", q, &flowv1.TokenResponse{})
}

func (s *rpcServer) Introspect(_ context.Context, q *tokenv1.IntrospectRequest) (*tokenv1.IntrospectResponse, error) {
	return rpcAnswer(s, "oidc.token.v1.IntrospectionService/Introspect", q, &tokenv1.IntrospectResponse{})
}

func (s *rpcServer) Revoke(_ context.Context, q *tokenv1.RevokeRequest) (*tokenv1.RevokeResponse, error) {
	return rpcAnswer(s, "oidc.token.v1.RevocatonService/Revoke", q, &tokenv1.RevokeResponse{})
}
