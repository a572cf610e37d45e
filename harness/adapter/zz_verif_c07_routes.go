package adapter

import (
	"strconv"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

const zz07Chars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.:/@"

// zz07Rule is a rule of a path, on the claim role of the tokens.
type zz07Rule struct {
	match, source, value string
}

func (r *zz07Rule) rules() []v1.Rule {
	return []v1.Rule{{Claim: "role", Match: r.match, Source: r.source, Values: []string{r.value}}}
}

// zz07Pair are the roles that a pair of tokens carries.
type zz07Pair struct{ access, id string }

func (r *zz07Rule) holds(t zz07Pair) bool {
	role := t.access
	if r.source == "id_token" {
		role = t.id
	}
	return zz.Fork((role == r.value) != (r.match == "NOT"))
}

func zz07Token(name, role string) string {
	return zz.Token(zz.Tok{
		Head:   zz.JO().With("alg", zz.JS("RS256")).With("kid", zz.JS("k")),
		Claims: zz.JO().With("sub", zz.JS(name)).With("role", zz.JS(role)).With("exp", zz.JN(int(zz.Now().Unix())+3600, false)),
		Sign:   "RS256",
	})
}

// The rules of the path that a request is for are those that its tokens are
// held to, whichever way they came: with a callback, from a session begun under
// other rules, from a refresh or in the header of the request.
//
//verif:bound=3_paths_with_a_rule_each_of_3_kinds_of_match_and_3_sources,_any_values_and_claims_of_up_to_40_characters,_a_login,_two_requests_with_its_session_at_any_path,_the_second_before_or_after_its_expiry,_or_a_request_with_the_tokens_in_its_header budget=60 tbudget=120
func Verif_C07_routes() {
	w := zzNewWhole()
	w.blind = true
	word := func(l string) string { return zz.StringIn(l, zz07Chars, 1, 40) }
	match := []string{"", "ALL", "ANY", "NOT"}[zz.Choose("match", 4)]
	source := []string{"", "access_token", "id_token"}[zz.Choose("source", 3)]
	var rules []*zz07Rule
	target := v1.TargetElement{ServiceName: "svc"}
	for i, path := range []string{"/p0/a", "/p0/b", "/api"} {
		r := &zz07Rule{match: match, source: source, value: word("value" + strconv.Itoa(i))}
		rules = append(rules, r)
		p := v1.PathPolicy{PolicyType: "oidc", Config: "oidc0", Rules: r.rules()}
		if i == 2 {
			p.PolicyType, p.Config = "jwt", "jwt"
		}
		target.Paths = append(target.Paths, v1.PathConfig{Exact: path, Policies: []v1.PathPolicy{p}})
	}
	w.h.HandleAddUpdateEvent(&v1.Policy{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "policy"}, Spec: v1.PolicySpec{Target: []v1.TargetElement{target}}})
	p := w.idps[0]
	var pairs []zz07Pair
	issue := func() *zzTokens {
		n := strconv.Itoa(len(pairs))
		pair := zz07Pair{access: word("access role " + n), id: word("id role " + n)}
		pairs = append(pairs, pair)
		t := &zzTokens{access: zz07Token("a"+n, pair.access), id: zz07Token("i"+n, pair.id), refresh: "~R" + n + "~"}
		p.issued = append(p.issued, t)
		return t
	}
	p.next = func(string) *zzTokens { return issue() }
	if zz.Choose("api", 2) == 1 {
		t := issue()
		s := w.ask("/api", "Bearer "+t.access+" "+t.id, nil)
		zz.Assert(s.err == nil && s.passed == rules[2].holds(pairs[0]), "a request with tokens in its header is not held to the rules of its path")
		if s.passed {
			zz.Reach("header passed")
		} else {
			zz.Reach("header refused")
		}
		return
	}
	paths := []string{"/p0/a", "/p0/b"}
	x := zz.Choose("login at", 2)
	s := w.ask(paths[x], "", nil)
	_, _, state := w.authorize(s.location, "~C~")
	// the callback is for the path of the rules
	target.Paths = append(target.Paths,
		v1.PathConfig{Exact: "/p0/a/oidc/callback", Policies: target.Paths[0].Policies},
		v1.PathConfig{Exact: "/p0/b/oidc/callback", Policies: target.Paths[1].Policies})
	w.h.HandleAddUpdateEvent(&v1.Policy{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "policy"}, Spec: v1.PolicySpec{Target: []v1.TargetElement{target}}})
	s = w.ask(paths[x]+"/oidc/callback", "", &authnz.QueryParamsMsg{Code: "~C~", State: state})
	began := s.location == "https://app"+paths[x]
	zz.Assert(began == rules[x].holds(pairs[0]), "the tokens of a login are not held to the rules of its path")
	if !began {
		zz.Assert(!s.passed, "a callback is passed on")
		s = w.ask(paths[zz.Choose("request at", 2)], "", nil)
		zz.Assert(!s.passed, "a session begins with tokens that do not satisfy the rules")
		zz.Reach("login refused")
		return
	}
	y := zz.Choose("request at", 2)
	s = w.ask(paths[y], "", nil)
	zz.Assert(s.passed == rules[y].holds(pairs[0]), "the tokens of a session are not held to the rules of the path")
	if !s.passed {
		zz.Assert(s.location != "" || s.err != nil || s.code != 0, "a refused request is not answered")
		zz.Reach("session refused")
		return
	}
	z := zz.Choose("next at", 2)
	if zz.Choose("expired", 2) == 1 {
		zz.Advance(7200)
		s = w.ask(paths[z], "", nil)
		zz.Assert(len(pairs) == 2, "an expired session is not refreshed")
		zz.Assert(s.passed == rules[z].holds(pairs[1]), "refreshed tokens are not held to the rules of the path")
		if s.passed {
			t := p.issued[1]
			zz.Assert(s.authorization == "Bearer "+t.access+" "+t.id, "a refreshed session does not give its new tokens")
			zz.Reach("refreshed")
		} else {
			zz.Reach("refresh refused")
		}
		return
	}
	s = w.ask(paths[z], "", nil)
	zz.Assert(s.passed == rules[z].holds(pairs[0]), "the tokens of a session are not held to the rules of the path")
	zz.Reach("asked again")
}
