package verifharness

import (
	"context"
	"errors"
	"hash/fnv"
	"runtime"
	"strings"
	"sync/atomic"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/storage"
)

// -----------------------------------------------------------------------------
// Direct use of the in-memory stores.

// fill sets every field of a message from a label.
func fill(m protoreflect.Message, label string, depth int) {
	num := func(n protoreflect.Name) uint64 {
		h := fnv.New64a()
		h.Write([]byte(label + string(n)))
		return h.Sum64() >> 40
	}
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		one := func(suffix string) (protoreflect.Value, bool) {
			switch fd.Kind() {
			case protoreflect.StringKind:
				return protoreflect.ValueOfString(label + suffix + "-" + string(fd.Name())), true
			case protoreflect.BytesKind:
				return protoreflect.ValueOfBytes([]byte(label + suffix + "-" + string(fd.Name()))), true
			case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
				return protoreflect.ValueOfUint64(num(fd.Name())), true
			case protoreflect.Int64Kind, protoreflect.Sint64Kind:
				return protoreflect.ValueOfInt64(int64(num(fd.Name()))), true
			case protoreflect.Uint32Kind:
				return protoreflect.ValueOfUint32(uint32(num(fd.Name()))), true
			case protoreflect.Int32Kind:
				return protoreflect.ValueOfInt32(int32(num(fd.Name()))), true
			case protoreflect.BoolKind:
				return protoreflect.ValueOfBool(true), true
			case protoreflect.EnumKind:
				return protoreflect.ValueOfEnum(1), true
			}
			return protoreflect.Value{}, false
		}
		switch {
		case fd.IsMap():
		case fd.Kind() == protoreflect.MessageKind && fd.IsList():
			if depth > 0 {
				fill(m.Mutable(fd).List().AppendMutable().Message(), label, depth-1)
			}
		case fd.Kind() == protoreflect.MessageKind:
			if depth > 0 {
				fill(m.Mutable(fd).Message(), label, depth-1)
			}
		case fd.IsList():
			for _, x := range []string{"a", "b"} {
				if v, ok := one(x); ok {
					m.Mutable(fd).List().Append(v)
				}
			}
		default:
			if v, ok := one(""); ok {
				m.Set(fd, v)
			}
		}
	}
}

// scribble overwrites every field of messages their owner is done with.
func scribble(ms ...proto.Message) {
	for _, m := range ms {
		if m == nil || !m.ProtoReflect().IsValid() {
			continue
		}
		overwrite(m.ProtoReflect(), 3)
		fill(m.ProtoReflect(), "scribbled", 2)
		switch x := m.(type) {
		case *tokenv1.Token:
			x.Status = tokenv1.TokenStatus_TOKEN_STATUS_UNSPECIFIED
		case *sessionv1.DeviceCodeSession:
			x.Status = sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_UNSPECIFIED
		}
	}
}

// overwrite changes in place what lists and byte strings hold.
func overwrite(m protoreflect.Message, depth int) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap():
		case fd.IsList() && fd.Kind() == protoreflect.StringKind:
			for i := 0; i < v.List().Len(); i++ {
				v.List().Set(i, protoreflect.ValueOfString("scribbled"))
			}
		case fd.Kind() == protoreflect.BytesKind && !fd.IsList():
			for i := range v.Bytes() {
				v.Bytes()[i] ^= 0x5a
			}
		case fd.Kind() == protoreflect.MessageKind && !fd.IsList() && depth > 0:
			overwrite(v.Message(), depth-1)
		}
		return true
	})
}

var devStatus = map[string]sessionv1.DeviceCodeStatus{
	"PENDING": sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING, "VALIDATED": sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED,
}

var tokStatus = map[string]tokenv1.TokenStatus{
	"ACTIVE": tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, "REVOKED": tokenv1.TokenStatus_TOKEN_STATUS_REVOKED, "EXPIRED": tokenv1.TokenStatus_TOKEN_STATUS_EXPIRED,
}

// build makes the object of a kind entirely determined by its label "content~issuer~id~other id".
func build(kind, label string) proto.Message {
	p := strings.Split(label, "~")
	for len(p) < 4 {
		p = append(p, "")
	}
	var m proto.Message
	switch kind {
	case "par":
		x := &flowv1.AuthorizationRequest{}
		m = x
		fill(m.ProtoReflect(), label, 2)
		x.State = label
	case "code":
		x := &sessionv1.AuthorizationCodeSession{}
		m = x
		fill(m.ProtoReflect(), label, 2)
		x.Issuer, x.Subject = p[1], label
	case "dev":
		x := &sessionv1.DeviceCodeSession{}
		m = x
		fill(m.ProtoReflect(), label, 2)
		x.Issuer, x.DeviceCode, x.ConfirmationCode = p[1], p[3], label
	case "tok":
		x := &tokenv1.Token{}
		m = x
		fill(m.ProtoReflect(), label, 2)
		x.Issuer, x.TokenId, x.Value = p[1], p[2], p[3]
		x.Metadata.Subject = label
	case "cli":
		x := &clientv1.Client{}
		m = x
		fill(m.ProtoReflect(), label, 2)
		x.ClientId, x.ClientName, x.ClientUri = "", p[2], label
	}
	return m
}

// labelOf recovers the label of an object that was read, "altered" when it is not what the label says.
func labelOf(kind string, m proto.Message) string {
	if m == nil || !m.ProtoReflect().IsValid() {
		return "nothing"
	}
	m = proto.Clone(m)
	label := ""
	want := func() proto.Message { return build(kind, label) }
	var w proto.Message
	switch x := m.(type) {
	case *flowv1.AuthorizationRequest:
		label = x.State
		w = want()
	case *sessionv1.AuthorizationCodeSession:
		label = x.Subject
		w = want()
	case *sessionv1.DeviceCodeSession:
		label = x.ConfirmationCode
		w = want()
		x.ExpiresAt, x.Status = 0, 0
		w.(*sessionv1.DeviceCodeSession).ExpiresAt, w.(*sessionv1.DeviceCodeSession).Status = 0, 0
	case *tokenv1.Token:
		label = x.GetMetadata().GetSubject()
		w = want()
		x.Value, x.Status = "", 0
		w.(*tokenv1.Token).Value, w.(*tokenv1.Token).Status = "", 0
	case *clientv1.Client:
		label = x.ClientUri
		w = want()
		x.ClientId = ""
	}
	if !proto.Equal(m, w) {
		return "altered:" + label
	}
	return label
}

func storeErr(err error) M {
	o := outcome("", err, nil, false)
	if err != nil {
		o["err"] = "other"
		if errors.Is(err, storage.ErrNotFound) {
			o["err"] = "not_found"
		}
	}
	return o
}

func init() {
	fops["store"] = func(s *system, c M, a M) func(context.Context) M {
		kind, f := cs(c, "kind"), cs(c, "f")
		iss := ""
		if kind == "par" || kind == "code" || kind == "dev" || kind == "tok" {
			iss = s.issuer(cs(c, "iss"))
		}
		id, id2 := s.ref(cs(c, "id")), s.ref(cs(c, "id2"))
		label := strings.Join([]string{cs(c, "v"), iss, id, id2}, "~")
		a["kind"], a["f"], a["iss"], a["id"], a["id2"], a["v"] = kind, f, iss, id, id2, label
		a["nil"], a["sexp"], a["status"] = cb(c, "nil"), ci(c, "sexp"), cs(c, "status")
		st := s.st
		return func(ctx context.Context) M {
			out := M{"v": "", "status": "", "sexp": 0, "expires": 0, "found": false, "id": "", "obj_id": ""}
			var err error
			p := guard(func() {
				switch kind + "." + f {
				case "par.reg":
					var n uint64
					x := build(kind, label).(*flowv1.AuthorizationRequest)
					n, err = st.par.Register(ctx, iss, id, x)
					out["expires"] = clampU(n)
					scribble(x)
				case "par.get":
					var x *flowv1.AuthorizationRequest
					if x, err = st.par.Get(ctx, iss, id); err == nil {
						out["v"] = labelOf(kind, x)
						scribble(x)
					}
				case "par.del":
					err = st.par.Delete(ctx, iss, id)
				case "code.reg":
					var n uint64
					x := build(kind, label).(*sessionv1.AuthorizationCodeSession)
					n, err = st.code.Register(ctx, iss, id, x)
					out["expires"] = clampU(n)
					scribble(x)
				case "code.get":
					var x *sessionv1.AuthorizationCodeSession
					if x, err = st.code.Get(ctx, iss, id); err == nil {
						out["v"] = labelOf(kind, x)
						scribble(x)
					}
				case "code.del":
					err = st.code.Delete(ctx, iss, id)
				case "dev.reg", "dev.val":
					x := build(kind, label).(*sessionv1.DeviceCodeSession)
					x.Status, x.ExpiresAt = devStatus[cs(c, "status")], uint64(ci(c, "sexp"))
					if f == "reg" {
						var n uint64
						n, err = st.dev.Register(ctx, iss, id, x)
						out["expires"] = clampU(n)
					} else {
						err = st.dev.Validate(ctx, iss, id, x)
					}
					scribble(x)
				case "dev.getu", "dev.getd":
					var x *sessionv1.DeviceCodeSession
					if f == "getu" {
						x, err = st.dev.GetByUserCode(ctx, iss, id)
					} else {
						x, err = st.dev.GetByDeviceCode(ctx, iss, id)
					}
					if err == nil {
						out["v"], out["sexp"] = labelOf(kind, x), clampU(x.GetExpiresAt())
						out["status"] = "?"
						for n, v := range devStatus {
							if x.GetStatus() == v {
								out["status"] = n
							}
						}
						scribble(x)
					}
				case "dev.del":
					err = st.dev.Delete(ctx, iss, id)
				case "tok.reg":
					if cb(c, "nil") {
						err = st.tok.Create(ctx, iss, nil)
						break
					}
					x := build(kind, label).(*tokenv1.Token)
					x.Status = tokStatus[cs(c, "status")]
					err = st.tok.Create(ctx, iss, x)
					scribble(x)
				case "tok.get", "tok.getv":
					var x *tokenv1.Token
					if f == "get" {
						x, err = st.tok.Get(ctx, iss, id)
					} else {
						x, err = st.tok.GetByValue(ctx, iss, id)
					}
					if err == nil {
						out["v"] = labelOf(kind, x)
						out["status"] = strings.TrimPrefix(x.GetStatus().String(), "TOKEN_STATUS_")
						scribble(x)
					}
				case "tok.del":
					err = st.tok.Delete(ctx, iss, id)
				case "tok.revoke":
					err = st.tok.Revoke(ctx, iss, id)
				case "jti.reg":
					err = st.jti.Register(ctx, id)
				case "jti.exists":
					out["found"], err = st.jti.Exists(ctx, id)
				case "jti.del":
					err = st.jti.Delete(ctx, id)
				case "cli.reg":
					x := build(kind, label).(*clientv1.Client)
					out["id"], err = st.clients.Register(ctx, x)
					out["obj_id"] = x.ClientId
					scribble(x)
				case "cli.get", "cli.getn":
					var x *clientv1.Client
					if f == "get" {
						x, err = st.clients.Get(ctx, id)
					} else {
						x, err = st.clients.GetByName(ctx, id)
					}
					if err == nil {
						out["v"] = labelOf(kind, x)
						scribble(x)
					}
				case "res.get":
					x, e := st.res.GetByURI(ctx, id)
					if err = e; err == nil {
						out["v"] = x.GetUrn()
						scribble(x)
					}
				default:
					panic("unknown store operation " + kind + "." + f)
				}
			})
			o := storeErr(err)
			o["panic"] = p
			if p != "" {
				o["ok"] = false
			}
			return merge(o, out)
		}
	}
	produces["store"] = nil
}

// -----------------------------------------------------------------------------
// Concurrent batches on real goroutines. The order in which requests began and
// ended gives their precedence.

func (s *system) runRace(c *Cmd) M {
	n := len(c.Par)
	evs := make([]M, n)
	start, end := make([]int64, n), make([]int64, n)
	calls, args := make([]func(context.Context) M, n), make([]M, n)
	s.faults.arm(nil)
	for i := range c.Par {
		args[i], calls[i] = s.prepare(&c.Par[i])
	}
	var clock, ready atomic.Int64
	done := make(chan struct{}, n)
	for i := range c.Par {
		i := i
		go func() {
			ready.Add(1)
			for k := 0; ready.Load() < int64(n); k++ {
				if k%64 == 63 {
					runtime.Gosched()
				}
			}
			for k := 0; i < len(c.Sched) && k < c.Sched[i]; k++ {
				runtime.Gosched()
			}
			start[i] = clock.Add(1)
			r := calls[i](context.Background())
			end[i] = clock.Add(1)
			evs[i] = M{"op": c.Par[i].Op, "a": args[i], "r": r, "f": M{"at": "", "alter": ""}}
			done <- struct{}{}
		}()
	}
	for i := 0; i < n; i++ {
		<-done
	}
	prec := [][]int{}
	for i := range evs {
		for j := range evs {
			if i != j && end[i] < start[j] {
				prec = append(prec, []int{i + 1, j + 1})
			}
		}
	}
	for _, e := range evs {
		s.learn(e)
	}
	return M{"op": "par", "evs": evs, "prec": prec}
}
