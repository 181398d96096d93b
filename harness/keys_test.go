package verifharness

import (
	"crypto/rand"
	"crypto/rsa"
	"sync"
)

var (
	rsaMu   sync.Mutex
	rsaKeys = map[string]*rsa.PrivateKey{}
)

func rsaKey(name string) *rsa.PrivateKey {
	rsaMu.Lock()
	defer rsaMu.Unlock()
	k, ok := rsaKeys[name]
	if !ok {
		k, _ = rsa.GenerateKey(rand.Reader, 2048)
		rsaKeys[name] = k
	}
	return k
}
