package apistrategy

import (
	"crypto"
	"strings"

	policy "istio.io/api/policy/v1beta1"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

type zzAsked struct {
	token string
	kind  validator.Token
	ks    keyset.KeySet
	rules []v1.Rule
}

// zzValidator gives the outcome it is told and records what it is asked. Like
// every validator it refuses tokens that are empty or contain a space.
type zzValidator struct {
	asked      []zzAsked
	access, id *errors.OAuthError
}

func (v *zzValidator) Validate(token string, kind validator.Token, ks keyset.KeySet, rules []v1.Rule, userInfoEndpoint string) *errors.OAuthError {
	v.asked = append(v.asked, zzAsked{token, kind, ks, rules})
	if zz.Fork(zz.Or(token == "", strings.Contains(token, " "))) {
		return errors.UnauthorizedHTTPException("token not provided", nil)
	}
	if kind == validator.Access {
		return v.access
	}
	return v.id
}

type zzKeys struct{ names []string }

func (k *zzKeys) PublicKeyURL() string { return "https://keys.example.com" }

func (k *zzKeys) PublicKey(kid string) crypto.PublicKey {
	for i, n := range k.names {
		if n == kid {
			return zz.PubKey(i)
		}
	}
	return nil
}

func zzRequest(header string) *authnz.HandleAuthnZRequest {
	return &authnz.HandleAuthnZRequest{Instance: &authnz.InstanceMsg{
		Target:  &authnz.TargetMsg{Namespace: "ns", Service: "svc", Path: "/", Method: "GET"},
		Request: &authnz.RequestMsg{Headers: &authnz.HeadersMsg{Authorization: header}, Params: &authnz.QueryParamsMsg{}},
	}}
}

func zzPassed(resp *authnz.HandleAuthnZResponse) bool {
	return resp != nil && resp.Result != nil && resp.Result.Status.Code == 0
}

func zzAction(ks keyset.KeySet, rules []v1.Rule) *engine.Action {
	a := &engine.Action{KeySet: ks}
	a.Rules = rules
	return a
}

// zzChallenge takes a refusal apart.
func zzChallenge(resp *authnz.HandleAuthnZResponse) (*policy.DirectHttpResponse, string) {
	zz.Assert(resp != nil && resp.Result != nil && resp.Result.Status.Code == 16, "a refusal is UNAUTHENTICATED")
	zz.Assert(len(resp.Result.Status.Details) == 1, "a refusal carries a direct response")
	d := zz.UnpackDetail(resp.Result.Status.Details[0])
	zz.Assert(d != nil, "a refusal carries a direct response that can be read")
	h, ok := d.Headers["WWW-Authenticate"]
	zz.Assert(ok, "a refusal carries a WWW-Authenticate header")
	zz.Assert(strings.HasPrefix(h, "Bearer realm=\""), "the challenge names the Bearer scheme and the realm")
	return d, h
}
