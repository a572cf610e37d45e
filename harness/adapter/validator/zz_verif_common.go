package validator

import (
	"crypto"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// zzKeys is a key set of named fixture keys.
type zzKeys struct {
	kids []string
	keys []int
}

func (s *zzKeys) PublicKeyURL() string { return "https://keys.example.com" }

func (s *zzKeys) find(kid string) int {
	for i, k := range s.kids {
		if zz.Fork(k == kid) {
			return s.keys[i]
		}
	}
	return -1
}

func (s *zzKeys) PublicKey(kid string) crypto.PublicKey {
	if i := s.find(kid); i >= 0 {
		return zz.PubKey(i)
	}
	return nil
}

var _ keyset.KeySet = &zzKeys{}
