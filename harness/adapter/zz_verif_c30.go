package adapter

import (
	"encoding/base64"
	"strconv"
	"strings"

	k8sv1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/kubernetes"
	corev1 "k8s.io/client-go/kubernetes/typed/core/v1"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/handler"
	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy/api"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy/web"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// zzLog looks for credentials in what has been logged since the last look.
func zzLog(w *zzWhole, log string, codes []string) {
	if log != "" {
		zz.Reach("something is logged")
	}
	has := func(s string) bool { return strings.Contains(log, s) }
	zz.Assert(!has("0123456789abcdef0123456789abcdef") && !has("fedcba9876543210"), "the cookie keys are in the log")
	for i, p := range w.idps {
		zz.Assert(!has(p.secret) && !has(base64.StdEncoding.EncodeToString([]byte("client"+strconv.Itoa(i)+":"+p.secret))), "a client secret is in the log")
		for _, t := range p.issued {
			zz.Assert(!has(t.access), "an access token is in the log")
			zz.Assert(!has(t.id), "an ID token is in the log")
			zz.Assert(!has(t.refresh), "a refresh token is in the log")
		}
	}
	for _, c := range codes {
		zz.Assert(!has(c), "an authorization code is in the log")
	}
	for _, n := range []string{"oidc-cookie-client0", "oidc-cookie-client1"} {
		if v, ok := w.jar[n]; ok && v != "" {
			zz.Assert(!has(v), "a session cookie is in the log")
		}
	}
}

// What is logged at the default level while browsers log in, come back and log
// out, with providers that answer, refuse or cannot be reached.
//
//verif:bound=2_clients_of_2_providers,_5_(6)_steps_out_of_request,_callback,_callback_with_another_state_or_code,_logout_and_time_passing,_tokens_opaque_or_JWTs,_valid,_expired_or_not_confirmed,_every_exchange_and_refresh_answered,_answered_with_a_malformed_document,_refused_or_lost,_userinfo_answered_or_lost;_messages_of_level_info_and_above budget=100 tbudget=400
func Verif_C30_flows() {
	zz.CaptureLog()
	w := zzNewWhole()
	w.blind = true
	opaque := zz.Choose("opaque", 2) == 1
	n := 5
	if zz.Thorough() {
		n = 6
	}
	step := 0
	var codes []string
	lost := map[string]bool{}
	for i, p := range w.idps {
		l := "idp" + strconv.Itoa(i)
		i, p := i, p
		p.next = func(kind string) *zzTokens {
			switch zz.Choose(l+"."+kind+strconv.Itoa(step), 5-i) {
			case 1:
				return p.issue(opaque, true)
			case 2:
				t := p.issue(opaque, false)
				t.refused = true
				return t
			case 3:
				return nil
			case 4:
				t := p.issue(opaque, false)
				t.broken = true
				return t
			}
			return p.issue(opaque, false)
		}
		p.down = func(path string) bool {
			if i > 0 || path != "/t" && path != "/u" {
				return false
			}
			k := l + ".lost" + path + strconv.Itoa(step)
			if v, ok := lost[k]; ok {
				return v
			}
			lost[k] = zz.Choose(k, 2) == 1
			return lost[k]
		}
	}
	zzLog(w, zz.TakeLog(), codes)
	live := false
	states, uris := make([]string, 2), make([]string, 2)
	for ; step < n; step++ {
		l := "step" + strconv.Itoa(step)
		i := 0
		if step == 0 {
			i = zz.Choose(l+".at", 2)
		} else if states[1] != "" {
			i = 1
		}
		path := "/p" + strconv.Itoa(i)
		kinds := []int{0}
		if states[i] != "" {
			kinds = append(kinds, 1, 2, 3, 5)
		}
		if live {
			kinds = append(kinds, 4)
		}
		kind := kinds[zz.Choose(l, len(kinds))]
		switch kind {
		case 0:
			s := w.ask(path, "", nil)
			if s.passed {
				zz.Reach("passed")
			} else if s.location != "" {
				zz.Reach("sent to log in")
				code := "~C" + strconv.Itoa(i) + "." + strconv.Itoa(step) + "~"
				j, uri, state := w.authorize(s.location, code)
				zz.Assert(i == j, "the login goes to another provider")
				states[i], uris[i] = state, uri
				codes = append(codes, code)
			}
		case 1, 2, 5:
			p := &authnz.QueryParamsMsg{Code: "~unknown~", State: states[i]}
			for c := range w.idps[i].codes {
				p.Code = c
			}
			if kind == 2 {
				p.State += "x"
			} else if kind == 5 {
				p.Error = "access_denied"
			}
			s := w.ask(strings.TrimPrefix(uris[i], "https://app"), "", p)
			if s.location != "" {
				live = true
				zz.Reach("logged in")
			} else {
				zz.Reach("callback refused")
			}
			codes = append(codes, "~unknown~")
		case 3:
			w.ask(path+"/oidc/logout", "", nil)
			zz.Reach("logged out")
		case 4:
			zz.Advance(7200)
			live, states = false, make([]string, 2)
			for _, p := range w.idps {
				for _, t := range p.issued {
					t.expired = true
				}
			}
			zz.Reach("expired")
		}
		zzLog(w, zz.TakeLog(), codes)
	}
}

// What is logged of API requests.
//
//verif:bound=access_and_ID_tokens_opaque_or_JWTs,_in_or_out_of_time,_good_or_tampered,_with_any_scheme_and_trailing_part_of_6_characters;_requests_with_a_part_of_the_instance_missing;_messages_of_level_info_and_above budget=60 tbudget=60
func Verif_C30_requests() {
	zz.CaptureLog()
	w := zzNewWhole()
	w.blind = true
	for _, p := range w.idps {
		p.next = func(string) *zzTokens { return nil }
	}
	p := w.idps[zz.Choose("idp", 2)]
	a := p.issue(zz.Choose("opaque", 2) == 1, zz.Choose("expired", 2) == 1)
	i := p.issue(false, zz.Choose("id expired", 2) == 1)
	auth := "Bearer " + a.access
	switch zz.Choose("second", 4) {
	case 1:
		auth += " " + i.id
	case 2:
		auth += " ~" + zz.String("rest", 6)
	case 3:
		auth = zz.StringIn("scheme", "a-zA-Z", 1, 6) + " " + a.access + " " + i.id
	}
	params := &authnz.QueryParamsMsg{Code: "~C~", State: "state"}
	headers := &authnz.HeadersMsg{Cookies: "oidc-cookie-client0=~cookie~", Authorization: auth}
	m := &authnz.InstanceMsg{
		Target:  &authnz.TargetMsg{Namespace: "ns", Service: "svc", Path: []string{"/api/x", "/p0/x", "/p0/oidc/callback", "/free"}[zz.Choose("path", 4)], Method: "GET"},
		Request: &authnz.RequestMsg{Scheme: "https", Host: "app", Path: "/api/x", Headers: headers, Params: params},
	}
	r := &authnz.HandleAuthnZRequest{Instance: m}
	part := zz.Choose("missing", 6)
	switch part {
	case 1:
		r.Instance = nil
	case 2:
		m.Target = nil
	case 3:
		m.Request = nil
	case 4:
		m.Request.Headers = nil
	case 5:
		m.Request.Params = nil
	}
	_, err := w.a.HandleAuthnZ(nil, r)
	if part != 0 {
		zz.Assert(err != nil, "a request without a part of the instance gets an answer")
		zz.Reach("incomplete")
	} else {
		zz.Reach("complete")
	}
	log := zz.TakeLog()
	zzLog(w, log, []string{"~C~"})
	zz.Assert(!strings.Contains(log, "~cookie~"), "a session cookie is in the log")
}

// zz30Cluster has cookie keys as given and a secret with the client secret.
type zz30Cluster struct {
	kubernetes.Interface
	corev1.CoreV1Interface
	corev1.SecretInterface
	keys map[string][]byte
}

func (c *zz30Cluster) CoreV1() corev1.CoreV1Interface           { return c }
func (c *zz30Cluster) Secrets(ns string) corev1.SecretInterface { return c }
func (c *zz30Cluster) Get(name string, o metav1.GetOptions) (*k8sv1.Secret, error) {
	return &k8sv1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: name}, Data: c.keys}, nil
}

// What is logged of the configuration, and of cookie keys that are of no use.
//
//verif:bound=client_secrets_in_the_configuration,_in_a_secret,_under_another_key_or_missing;_cookie_keys_good,_missing_or_of_the_wrong_size;_messages_of_level_info_and_above budget=60 tbudget=60
func Verif_C30_config() {
	zz.CaptureLog()
	c := &zz30Cluster{keys: map[string][]byte{"key": []byte("~S0~")}}
	if zz.Choose("hash", 2) == 1 {
		c.keys["HASH_KEY"] = []byte("~hash456789abcdef0123456789abcde")
	}
	switch zz.Choose("block", 3) {
	case 1:
		c.keys["BLOCK_KEY"] = []byte("~block98765432~~")
	case 2:
		c.keys["BLOCK_KEY"] = []byte("~block9876543~")
	}
	w := &zzWhole{jar: map[string]string{}, blind: true}
	p := &zzWholeIdp{n: 0, secret: "~S0~", codes: map[string]string{}, w: w}
	w.idps = []*zzWholeIdp{p}
	zz.SetTransport(&zz.Transport{F: p.RoundTrip})
	store := storepolicy.New()
	h := handler.New(store, c)
	e, err := engine.New(store)
	zz.Assert(err == nil, "the engine is made")
	w.a = &AppidAdapter{apistrategy: apistrategy.New(), webstrategy: webstrategy.New(config.NewConfig(), c), engine: e}
	spec := v1.OidcConfigSpec{ClientName: "oidc", ClientID: "client0", DiscoveryURL: p.base() + "/d"}
	ref := zz.Choose("secret", 4)
	if ref == 0 || ref == 3 {
		spec.ClientSecret = "~S0~"
	}
	if ref > 0 {
		spec.ClientSecretRef = v1.ClientSecretRef{Name: "secret", Key: "key"}
	}
	if ref == 2 {
		spec.ClientSecretRef.Key = "other"
	}
	o := &v1.OidcConfig{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "oidc"}, Spec: spec}
	h.HandleAddUpdateEvent(o)
	h.HandleAddUpdateEvent(&v1.Policy{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "policy"}, Spec: v1.PolicySpec{Target: []v1.TargetElement{
		{ServiceName: "svc", Paths: []v1.PathConfig{{Prefix: "/p0", Policies: []v1.PathPolicy{{PolicyType: "oidc", Config: "oidc"}}}}},
	}}})
	if s := w.ask("/p0", "", nil); s.location != "" {
		zz.Reach("sent to log in")
	} else {
		zz.Reach("refused")
	}
	h.HandleAddUpdateEvent(o)
	h.HandleDeleteEvent(policy.CrdKey{Id: "ns/oidc", CrdType: v1.OIDCCONFIG})
	w.ask("/p0", "", nil)
	log := zz.TakeLog()
	w.jar = nil // see the flows
	zzLog(w, log, nil)
	zz.Assert(!strings.Contains(log, "~hash") && !strings.Contains(log, "~block"), "the cookie keys are in the log")
}
