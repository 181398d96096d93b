package verifharness

import (
	"context"
	"fmt"

	jose "github.com/go-jose/go-jose/v4"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/server/storage"
)

// -----------------------------------------------------------------------------
// Long-lived objects. An object serves every case of a behaviour that has the
// same static settings, as the signers, verifiers and authenticators of a running
// server do. What belongs to one call (keys, registries) reaches the object
// through the context of the call.

type lend struct {
	kp  jwk.KeyProviderFunc
	ks  jwk.KeySetProviderFunc
	reg *authnClients
}

type lendKey struct{}

// lendOf is what the case c lends to the objects it uses.
func lendOf(c M) *lend { l, _ := c["lend"].(*lend); return l }

// lending prepares a case and its call.
func lending(s *system, f fop, c, a M) func(context.Context) M {
	l := &lend{}
	in := M{"lend": l}
	for k, v := range c {
		in[k] = v
	}
	call := f(s, in, a)
	return func(ctx context.Context) M { return call(context.WithValue(ctx, lendKey{}, l)) }
}

func lent(ctx context.Context) *lend {
	if l, ok := ctx.Value(lendKey{}).(*lend); ok {
		return l
	}
	return &lend{}
}

// lendKeys makes the key provider of a case available to a long-lived object.
func lendKeys(c M, kp jwk.KeyProviderFunc) jwk.KeyProviderFunc {
	l := lendOf(c)
	if l == nil || kp == nil {
		return kp
	}
	l.kp = kp
	return func(ctx context.Context) (*jose.JSONWebKey, error) {
		if p := lent(ctx).kp; p != nil {
			return p(ctx)
		}
		return nil, fmt.Errorf("the context of the call is lost")
	}
}

func lendSet(c M, ks jwk.KeySetProviderFunc) jwk.KeySetProviderFunc {
	l := lendOf(c)
	if l == nil {
		return ks
	}
	l.ks = ks
	return func(ctx context.Context) (*jose.JSONWebKeySet, error) {
		if p := lent(ctx).ks; p != nil {
			return p(ctx)
		}
		return nil, fmt.Errorf("the context of the call is lost")
	}
}

type lentRegistry struct{}

func (lentRegistry) Get(ctx context.Context, id string) (*clientv1.Client, error) {
	if r := lent(ctx).reg; r != nil {
		return r.Get(ctx, id)
	}
	return nil, errInjected
}

func (lentRegistry) GetByName(ctx context.Context, name string) (*clientv1.Client, error) {
	return nil, errInjected
}

func lentOr(c M, r *authnClients) storage.ClientReader {
	l := lendOf(c)
	if l == nil {
		return r
	}
	l.reg = r
	return lentRegistry{}
}

// live returns the long-lived object of that name.
func live[T any](s *system, c M, make func() T, name ...any) T {
	if lendOf(c) == nil {
		return make()
	}
	k := fmt.Sprint(name...)
	s.liveMu.Lock()
	defer s.liveMu.Unlock()
	if x, ok := s.lives[k]; ok {
		return x.(T)
	}
	x := make()
	s.lives[k] = x
	return x
}
