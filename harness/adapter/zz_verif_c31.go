package adapter

import (
	"errors"
	"net/http"
	"strings"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// Nothing in these harnesses need do more than end: a panic anywhere is a
// violation. In addition what is broken must not be passed, and the sound
// client, provider and policies next to it must work as before.

// zz31Sound logs in at the second provider and asks the JWT policy.
func zz31Sound(w *zzWhole, jwt bool) {
	p := w.idps[1]
	p.next = func(string) *zzTokens { return p.issue(false, false) }
	w.jar = map[string]string{}
	s := w.ask("/p1/a", "", nil)
	zz.Assert(!s.passed && s.location != "", "a request at the sound client is not sent to log in")
	i, uri, state := w.authorize(s.location, "~sound~")
	zz.Assert(i == 1 && uri == "https://app/p1/a/oidc/callback", "the login at the sound client goes elsewhere")
	s = w.ask("/p1/a/oidc/callback", "", &authnz.QueryParamsMsg{Code: "~sound~", State: state})
	zz.Assert(s.location == "https://app/p1/a", "the login at the sound client does not end")
	s = w.ask("/p1/b", "", nil)
	t := p.issued[len(p.issued)-1]
	zz.Assert(s.passed && s.authorization == "Bearer "+t.access+" "+t.id, "the session at the sound client is not accepted")
	s = w.ask("/free", "", nil)
	zz.Assert(s.passed && s.authorization == "", "a request without a policy is not passed")
	if jwt {
		a := w.idps[0].issue(false, false)
		s = w.ask("/api/x", "Bearer "+a.access, nil)
		zz.Assert(s.passed, "a good token is refused under the sound JWT policy")
	}
	s = w.ask("/api/x", "Bearer ~bad~", nil)
	zz.Assert(!s.passed && s.challenge != "", "a bad token is not refused under the sound JWT policy")
	zz.Reach("the others work")
}

// zz31Value is a member of no use: absent, or of another value or type.
func zz31Value(label string) (v *zz.J, absent bool) {
	switch zz.Choose(label, 9) {
	case 0:
		return nil, true
	case 1:
		return zz.JNull(), false
	case 2:
		return zz.JS(""), false
	case 3:
		return zz.JS("%zz :"), false
	case 4:
		return zz.JN(7, false), false
	case 5:
		return zz.JB(true), false
	case 6:
		return zz.JA(), false
	case 7:
		return zz.JA(zz.JNull(), zz.JS("x"), zz.JO()), false
	}
	return zz.JO().With("a", zz.JNull()), false
}

// zz31Twist makes one member of a document, of any depth, of no use.
func zz31Twist(label string, like *zz.J) func(*zz.J) *zz.J {
	at := zz.Choose(label+".member", len(like.Keys))
	var inner func(*zz.J) *zz.J
	if v := like.A[at]; v.K == "array" && len(v.A) == 1 && v.A[0].K == "object" && zz.Choose(label+".inner", 2) == 1 {
		inner = zz31Twist(label+".in", v.A[0])
	}
	var v *zz.J
	absent := false
	if inner == nil {
		v, absent = zz31Value(label + ".value")
	}
	return func(doc *zz.J) *zz.J {
		r := zz.JO()
		for i, k := range doc.Keys {
			switch {
			case k != like.Keys[at]:
				r.With(k, doc.A[i])
			case inner != nil:
				r.With(k, zz.JA(inner(doc.A[i].A[0])))
			case !absent:
				r.With(k, v)
			}
		}
		return r
	}
}

// Providers that answer anything.
//
//verif:bound=one_endpoint_of_a_provider_(discovery,_keys,_tokens,_userinfo)_that_answers_with_any_of_8_statuses_or_a_document_that_is_empty,_no_JSON,_of_another_type,_or_has_a_member_that_is_absent,_null_or_of_7_other_values,_always,_only_at_first_or_only_later;_a_login,_two_requests_and_a_refresh_at_it,_then_a_login,_requests_and_API_requests_at_the_sound_ones budget=100 tbudget=300
func Verif_C31_answers() {
	at := []string{"/d", "/k", "/t", "/u"}[zz.Choose("endpoint", 4)]
	when, odd := zz.Choose("when", 3), 0
	if when == 0 {
		odd = zz.Choose("odd", 8)
	} else {
		odd = []int{1, 6, 7}[zz.Choose("odd", 3)]
	}
	other := 0
	if odd == 0 {
		other = []int{204, 206, 299, 400, 401, 404, 500, 503}[zz.Choose("status", 8)]
	}
	calls := map[string]int{}
	var once func(*zz.J) *zz.J
	w := zzNewWholeWith(func(w *zzWhole) {
		w.blind = true
		w.idps[0].twist = func(path string, status int, doc *zz.J) (int, *zz.J) {
			calls[path]++
			if path != at || when == 1 && calls[path] > 1 || when == 2 && calls[path] == 1 {
				return status, doc
			}
			zz.Reach("odd answer from " + path)
			switch odd {
			case 0:
				return other, doc
			case 1:
				return status, zz.JEmpty()
			case 2:
				return status, zz.JInvalid()
			case 3:
				return status, zz.JNull()
			case 4:
				return status, zz.JA(zz.JNull(), doc)
			case 5:
				return status, zz.JS("text")
			case 6:
				return 500, zz.JEmpty()
			}
			if status != 200 {
				return status, doc
			}
			if once == nil {
				once = zz31Twist("doc", doc)
			}
			return status, once(doc)
		}
	})
	p := w.idps[0]
	opaque := at == "/u" || at == "/t" && zz.Choose("opaque", 2) == 1
	p.next = func(string) *zzTokens { return p.issue(opaque, false) }
	check := func(s *zzSeen) {
		if !s.passed {
			return
		}
		zz.Reach("passed nevertheless")
		ok := false
		for _, t := range p.issued {
			ok = ok || s.authorization == "Bearer "+t.access+" "+t.id
		}
		zz.Assert(ok, "a request is passed with tokens that were not issued")
	}
	s := w.ask("/p0", "", nil)
	zz.Assert(!s.passed, "a request without a session is passed")
	if s.location != "" && strings.HasPrefix(s.location, "https://idp0/a?") {
		_, _, state := w.authorize(s.location, "~C~")
		w.ask("/p0/oidc/callback", "", &authnz.QueryParamsMsg{Code: "~C~", State: state})
		check(w.ask("/p0", "", nil))
		zz.Advance(7200)
		for _, t := range p.issued {
			t.expired = true
		}
		check(w.ask("/p0", "", nil))
		check(w.ask("/p0", "", nil))
	} else {
		zz.Reach("no login")
	}
	a := p.issue(false, true)
	zz.Assert(!w.ask("/api", "Bearer "+a.access, nil).passed, "an expired token is passed")
	zz31Sound(w, at != "/k")
}

// URLs of no use.
var zz31URLs = []string{"", ":", "/", "%zz", "http://[", "idp0/d", "https://", "https://idp0/%zz", "ht tp://idp0", "https://nowhere/d", "https://idp0/d\n", "//idp0/d"}

// Configurations that hold anything.
//
//verif:bound=an_OidcConfig_and_a_JwtConfig_with_12_URLs_of_no_use,_ids_absent_or_of_up_to_12_printable_characters,_scopes_nil,_empty_or_with_an_empty_one,_any_method_text_of_4_characters,_parts_of_a_secret_reference;_requests,_callbacks_and_logouts_under_them;_events_of_other_types,_updates_and_deletions budget=60 tbudget=120
func Verif_C31_configs() {
	w := zzNewWhole()
	w.blind = true
	w.host = func(*http.Request) (*http.Response, error) { return nil, errors.New("no such host") }
	u := zz31URLs[zz.Choose("url", len(zz31URLs))]
	spec := v1.OidcConfigSpec{DiscoveryURL: u, AuthMethod: zz.String("auth", 4)}
	switch zz.Choose("part", 7) {
	case 1:
		spec.ClientID = "c" + zz.StringIn("id", "-a-zA-Z0-9_.", 0, 11)
	case 2:
		spec.Scopes = []string{}
	case 3:
		spec.Scopes = []string{"", "openid"}
	case 4:
		spec.ClientSecretRef.Name = "secret1"
	case 5:
		spec.ClientSecretRef = v1.ClientSecretRef{Name: "secret1", Key: "none"}
	case 6:
		spec.ClientSecretRef = v1.ClientSecretRef{Name: "none", Key: "key"}
	}
	meta := metav1.ObjectMeta{Namespace: "ns", Name: "odd"}
	w.h.HandleAddUpdateEvent(&v1.OidcConfig{ObjectMeta: meta, Spec: spec})
	w.h.HandleAddUpdateEvent(&v1.JwtConfig{ObjectMeta: meta, Spec: v1.JwtConfigSpec{JwksURL: u}})
	pol := &v1.Policy{ObjectMeta: meta, Spec: v1.PolicySpec{Target: []v1.TargetElement{{ServiceName: "svc", Paths: []v1.PathConfig{
		{Prefix: "/odd", Policies: []v1.PathPolicy{{PolicyType: "oidc", Config: "odd"}}},
		{Exact: "/odd/api", Policies: []v1.PathPolicy{{PolicyType: "jwt", Config: "odd"}}},
	}}}}}
	w.h.HandleAddUpdateEvent(pol)
	refused := func(when string) {
		zz.Assert(!w.ask("/odd", "", nil).passed, "a request under a broken client is passed "+when)
		zz.Assert(!w.ask("/odd/oidc/callback", "", &authnz.QueryParamsMsg{Code: "~C~", State: "~X~"}).passed, "a callback under a broken client is passed "+when)
		zz.Assert(!w.ask("/odd/oidc/logout", "", nil).passed, "a logout under a broken client is passed "+when)
		a := w.idps[0].issue(false, false)
		zz.Assert(!w.ask("/odd/api", "Bearer "+a.access, nil).passed, "a request under a broken key set is passed "+when)
	}
	refused("at first")
	switch zz.Choose("event", 6) {
	case 1:
		w.h.HandleAddUpdateEvent(nil)
		w.h.HandleDeleteEvent(nil)
	case 2:
		w.h.HandleAddUpdateEvent("ns/odd")
		w.h.HandleDeleteEvent("ns/odd")
		w.h.HandleAddUpdateEvent(v1.Policy{})
		w.h.HandleDeleteEvent(pol)
	case 3:
		for _, id := range []string{"", "/", "odd", "ns/odd/x", "ns/none"} {
			for _, t := range []v1.CrdType{v1.JWTCONFIG, v1.OIDCCONFIG, v1.POLICY, v1.NONE} {
				w.h.HandleDeleteEvent(policy.CrdKey{Id: id, CrdType: t})
			}
		}
	case 4:
		w.h.HandleDeleteEvent(policy.CrdKey{Id: "ns/odd", CrdType: v1.OIDCCONFIG})
		w.h.HandleDeleteEvent(policy.CrdKey{Id: "ns/odd", CrdType: v1.JWTCONFIG})
		w.h.HandleDeleteEvent(policy.CrdKey{Id: "ns/odd", CrdType: v1.OIDCCONFIG})
	case 5:
		w.h.HandleAddUpdateEvent(&v1.OidcConfig{})
		w.h.HandleAddUpdateEvent(&v1.JwtConfig{})
		w.h.HandleAddUpdateEvent(&v1.Policy{})
	}
	refused("later")
	zz31Sound(w, true)
}

// Policies and requests that hold anything.
//
//verif:bound=a_policy_with_any_of_9_odd_paths_or_a_method_and_a_type_of_up_to_5_printable_characters,_no_policies,_an_odd_rule,_redirect_or_configuration_name,_then_a_request_with_any_of_12_odd_paths,_any_host,_method_or_cookies_of_up_to_3_to_6_printable_characters_or_any_authorization_of_up_to_8,_callbacks_with_any_code_and_state budget=60 tbudget=120
func Verif_C31_requests() {
	w := zzNewWhole()
	w.blind = true
	path := v1.PathConfig{}
	odd := zz.Choose("odd", 2) == 1
	verb, scheme, host, cookies, authorization := "GET", "https", "app", "", ""
	switch zz.Choose("free", 5) {
	case 0:
		path.Method, verb = []string{"GET", "POST"}[zz.Choose("method", 2)], zz.String("verb", 6)
	case 1:
		path.Method = zz.String("method", 5)
	case 2:
		cookies = zz.String("cookies", 3)
	case 4:
		scheme, host = zz.StringIn("scheme", "a-z:", 0, 5), zz.StringIn("host", "-a-z0-9.:", 0, 6)
	case 3:
		authorization = zz.String("authorization", 8)
	}
	switch t := []string{"", "/", "//", "*", "/*", "odd", "/odd//x", "/odd/*", "/odd/"}[zz.Choose("path", map[bool]int{false: 9, true: 1}[odd])]; {
	case odd:
		path.Prefix = "/odd"
	case zz.Choose("kind", 2) == 0:
		path.Prefix = t
	default:
		path.Exact = t
	}
	covers := path.Prefix == "/" || path.Prefix == "" && path.Exact == "" || path.Prefix == "//" || strings.Contains(path.Prefix+path.Exact, "*")
	pp := v1.PathPolicy{PolicyType: "oidc", Config: "oidc0"}
	kinds := 1
	if odd {
		kinds = 7
	}
	switch zz.Choose("policies", kinds) {
	case 1:
		pp.PolicyType = zz.String("type", 5)
	case 2:
		pp.Config = ""
	case 3:
		pp.Config = "a/b/c"
	case 4:
		pp.RedirectUri = "%zz :"
	case 5:
		pp = v1.PathPolicy{PolicyType: "jwt", Config: "jwt", Rules: []v1.Rule{{}}}
	case 6:
		pp.Rules = []v1.Rule{{Claim: ".", Match: "?", Source: "?", Values: []string{""}}}
	}
	path.Policies = []v1.PathPolicy{pp}
	if odd && zz.Choose("none", 2) == 1 {
		path.Policies = nil
	}
	w.h.HandleAddUpdateEvent(&v1.Policy{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "odd"}, Spec: v1.PolicySpec{Target: []v1.TargetElement{{ServiceName: "svc", Paths: []v1.PathConfig{path}}, {}}}})
	at := []string{"", "/", "//", "odd", "/odd", "/odd/x", "/odd/../p0", "/odd?x=%zz", "/odd%2f", "/oidc/callback", "/oidc/logout", "/odd/oidc/callback"}[zz.Choose("at", 12)]
	params := &authnz.QueryParamsMsg{}
	if strings.HasSuffix(at, "/callback") || at == "/" {
		params.Code, params.State, params.Error = zz.String("code", 4), zz.String("state", 4), zz.String("error", 4)
	}
	_, err := w.a.HandleAuthnZ(nil, &authnz.HandleAuthnZRequest{Instance: &authnz.InstanceMsg{
		Target: &authnz.TargetMsg{Namespace: "ns", Service: "svc", Path: at, Method: verb},
		Request: &authnz.RequestMsg{Scheme: scheme, Host: host, Path: at,
			Headers: &authnz.HeadersMsg{Cookies: cookies, Authorization: authorization}, Params: params},
	}})
	if err != nil {
		zz.Reach("refused with an error")
	} else {
		zz.Reach("answered")
	}
	if covers {
		zz.Reach("the odd policy covers all")
		w.h.HandleDeleteEvent(policy.CrdKey{Id: "ns/odd", CrdType: v1.POLICY})
	}
	zz31Sound(w, true)
}

// Tokens that hold anything.
//
//verif:bound=a_genuinely_signed_token_of_which_one_member_of_header_or_claims_is_absent,_null_or_of_7_other_values,_or_any_text_of_up_to_21_characters_or_one_of_12_texts_of_parts_that_are_empty,_no_base64_or_documents_of_other_types,_as_access_or_ID_token_of_an_API_request,_or_issued_by_the_provider_in_a_login,_without_rules_or_with_a_rule_on_any_claim budget=60 tbudget=120
func Verif_C31_tokens() {
	w := zzNewWhole()
	w.blind = true
	exp := zz.JN(int(zz.Now().Unix())+3600, false)
	head := zz.JO().With("alg", zz.JS("RS256")).With("kid", zz.JS("k")).With("typ", zz.JS("JWT"))
	claims := zz.JO().With("exp", exp).With("nbf", zz.JN(1000, false)).With("iat", zz.JN(1000, false)).With("iss", zz.JS("i")).With("sub", zz.JS("s")).With("aud", zz.JS("client0")).With("jti", zz.JS("j")).With("o", zz.JO().With("c", zz.JS("v")))
	text := ""
	switch zz.Choose("what", 3) {
	case 0:
		head = zz31Twist("head", head)(head)
	case 1:
		claims = zz31Twist("claims", claims)(claims)
	case 2:
		texts := []string{"", ".", "..", "...", "a.b.c", "e30.e30.", "e30.e30.AAAA", "bnVsbA.bnVsbA.x", "W10.W10.AA", "eyJhbGciOjF9.e30.AA", "eyJhbGciOiJub25lIn0.e30.", "eyJhbGciOm51bGx9.bnVsbA.AA", "%%.%%.%%"}
		if n := zz.Choose("text", len(texts)); n > 0 {
			text = texts[n]
		} else {
			text = "t" + zz.StringIn("text", "-a-zA-Z0-9_+/=", 0, 20)
		}
	}
	if text == "" {
		text = zz.Token(zz.Tok{Head: head, Claims: claims, Sign: "RS256"})
	}
	rules := []v1.Rule{}
	if zz.Choose("rule", 2) == 1 {
		c := []string{"exp", "aud", "sub", "iss", "jti", "o", "o.c", "aud.x", "", "."}[zz.Choose("claim", 10)]
		rules = append(rules, v1.Rule{Claim: c, Values: []string{"v"}})
	}
	var targets = []v1.TargetElement{{ServiceName: "svc", Paths: []v1.PathConfig{
		{Prefix: "/odd", Policies: []v1.PathPolicy{{PolicyType: "jwt", Config: "jwt", Rules: rules}}},
		{Prefix: "/p0", Policies: []v1.PathPolicy{{PolicyType: "oidc", Config: "oidc0", Rules: rules}}},
	}}}
	w.h.HandleAddUpdateEvent(&v1.Policy{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "odd"}, Spec: v1.PolicySpec{Target: targets}})
	p := w.idps[0]
	good := p.issue(false, false)
	switch zz.Choose("as", 3) {
	case 0:
		w.ask("/odd", "Bearer "+text, nil)
	case 1:
		w.ask("/odd", "Bearer "+good.access+" "+text, nil)
	case 2:
		access := zz.Choose("of login", 2) == 1
		p.next = func(string) *zzTokens {
			t := *good
			if access {
				t.access = text
			} else {
				t.id = text
			}
			return &t
		}
		s := w.ask("/p0", "", nil)
		zz.Assert(s.location != "", "a browser is not sent to log in")
		_, _, state := w.authorize(s.location, "~C~")
		s = w.ask("/p0/oidc/callback", "", &authnz.QueryParamsMsg{Code: "~C~", State: state})
		if s.location != "" {
			zz.Reach("logged in nevertheless")
			w.ask("/p0", "", nil)
		}
	}
	zz31Sound(w, true)
}
