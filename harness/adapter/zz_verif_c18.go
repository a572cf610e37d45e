package adapter

import (
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/kubernetes"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/handler"
	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// A provider that is unreachable when its OidcConfig is created is picked up
// when it becomes available, including its keys.
//
//verif:bound=provider_down_for_the_first_0..40_discovery_requests,_any_discovery_suffix_of_at_most_3_characters budget=60 tbudget=100
func Verif_C18_config() {
	down := zz.Int("down", 0, 40)
	p := &zz18Idp{down: down}
	zz.SetTransport(&zz.Transport{F: p.RoundTrip})
	suffix := zz.StringIn("suffix", zz18Chars, 1, 3)
	store := storepolicy.New()
	var kube kubernetes.Interface
	h := handler.New(store, kube)
	h.HandleAddUpdateEvent(&v1.OidcConfig{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "name"}, Spec: v1.OidcConfigSpec{
		ClientID: "id", ClientSecret: "s", DiscoveryURL: "https://idp/d/" + suffix,
	}})
	c := store.GetClient("ns/name")
	zz.Assert(c != nil, "the client is not available")
	if c == nil {
		return
	}
	s := c.AuthorizationServer()
	for i := 0; i < 43; i++ {
		k := s.KeySet()
		if !p.up {
			zz.Assert(k == nil || k.PublicKey("k") == nil, "keys from a provider that was never reached")
			continue
		}
		zz.Reach("available")
		zz.Assert(k != nil && k.PublicKeyURL() == "https://idp/k/"+suffix, "the keys of the provider are not picked up")
		if k != nil {
			zz.Assert(zz.SameKey(k.PublicKey("k"), 0), "the key of the provider is not found")
		}
		zz.Assert(s.AuthorizationEndpoint() == "https://idp/a/"+suffix, "the endpoint of the provider is not picked up")
		zz.Assert(p.after <= 1, "discovery was fetched again after it succeeded")
		return
	}
	zz.Assert(false, "the provider is not picked up when it becomes available")
}
