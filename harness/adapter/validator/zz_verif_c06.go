package validator

import (
	"errors"
	"net/http"
	"strconv"
	"time"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// zzProvider is the userinfo endpoint of a provider.
type zzProvider struct {
	calls  int
	status int
	fails  bool
	method string
	url    string
	auth   []string
	body   bool
}

func (p *zzProvider) RoundTrip(req *http.Request) (*http.Response, error) {
	p.calls++
	p.method, p.url, p.auth, p.body = req.Method, req.URL.String(), req.Header["Authorization"], req.Body != nil && req.Body != http.NoBody
	if p.fails {
		return nil, errors.New("connection refused")
	}
	return zz.Response(req, p.status, []byte("{}")), nil
}

func (p *zzProvider) use() { zz.SetTransport(&zz.Transport{F: p.RoundTrip}) }

var zzAlgs = []string{"RS256", "RS384", "RS512", "PS256", "PS384", "PS512"}

// zzTok is a token and what decides whether it is to be trusted.
type zzTok struct {
	text   string
	kid    string // "" when there is none
	alg    string
	sign   string
	key    int
	tamper int
	timely bool
}

// zzToken makes a token of the widest variety: everything about it is usual
// except for one part.
func zzToken(l string) *zzTok {
	t := &zzTok{timely: true}
	head := zz.JO().With("typ", zz.JS("JWT"))
	odd := zz.Choose(l+".odd", 4)
	t.alg = zzAlgs[0]
	if odd == 1 {
		switch zz.Choose(l+".alg", 6) {
		case 0:
			t.alg = zz.String(l+".alg text", 20)
			for _, a := range zzAlgs {
				zz.Assume(t.alg != a)
			}
			head.With("alg", zz.JS(t.alg))
		case 1:
			head.With("alg", zz.JN(256, false))
			t.alg = ""
		case 2:
			t.alg = ""
		default:
			t.alg = []string{"none", "HS256", "ES256"}[zz.Choose(l+".other alg", 3)]
			head.With("alg", zz.JS(t.alg))
		}
		t.sign = []string{"RS256", "HS256", "none", ""}[zz.Choose(l+".signed as", 4)]
	} else {
		n := 2
		if zz.Thorough() {
			n = 6
		}
		t.alg = []string{"RS256", "PS256", "RS384", "RS512", "PS384", "PS512"}[zz.Choose(l+".alg", n)]
		head.With("alg", zz.JS(t.alg))
		t.sign = []string{t.alg, "RS256", "PS256", "RS512", "HS256", "none", ""}[zz.Choose(l+".signed as", 7)]
	}
	if odd == 2 {
		switch zz.Choose(l+".kid", 5) {
		case 0:
			head.With("kid", zz.JN(1, false))
		case 1:
			head.With("kid", zz.JNull())
		case 2:
			head.With("kid", zz.JA(zz.JS("k")))
		case 3:
			head.With("kid", zz.JB(true))
		}
	} else {
		t.kid = zz.String(l+".kid", 40)
		head.With("kid", zz.JS(t.kid))
	}
	t.key = zz.Choose(l+".key", 2)
	if t.sign != "" && t.sign != "none" {
		t.tamper = zz.Choose(l+".tamper", 3)
	}
	now := int(time.Now().Unix())
	claims := zz.JO().With("iss", zz.JS("https://issuer.example.com")).With("aud", zz.JA(zz.JS("a"), zz.JS("b")))
	given := 3
	if odd == 3 {
		given = zz.Choose(l+".times", 3)
	}
	half := zz.Bool(l + ".half seconds")
	if given&1 != 0 {
		d := zz.Int(l+".exp offset", -100000, 100000)
		zz.Assume(zz.Or(d <= -60, d >= 60))
		claims.With("exp", zz.JN(now+d, half))
		t.timely = d > 0
	}
	if given&2 != 0 {
		d := zz.Int(l+".nbf offset", -100000, 100000)
		zz.Assume(zz.Or(d <= -60, d >= 60))
		claims.With("nbf", zz.JN(now+d, half))
		t.timely = zz.And(t.timely, d < 0)
	}
	t.text = zz.Token(zz.Tok{Head: head, Claims: claims, Sign: t.sign, Key: t.key, Tamper: t.tamper})
	return t
}

func zzRSA(a string) bool {
	for _, n := range zzAlgs {
		if n == a {
			return true
		}
	}
	return false
}

// genuine tells whether the token is a JWT to be trusted under the key set.
func (t *zzTok) genuine(ks *zzKeys) bool {
	if ks == nil || !zzRSA(t.alg) || t.sign != t.alg || t.tamper != 0 {
		return false
	}
	key := -1
	for i, k := range ks.kids {
		key = zz.IteInt(k == t.kid, ks.keys[i], key)
	}
	return zz.And(t.kid != "", key == t.key, t.timely)
}

// zzRules makes rules of which each source is addressed by at most one. Those
// that address the access and the ID token hold for every token or for none.
func zzRules(l string) (rules []v1.Rule, access, id string) {
	n := zz.Choose(l+".rules", 3)
	for i := 0; i < n; i++ {
		q := l + ".rule" + strconv.Itoa(i)
		claim := zz.StringIn(q+".claim", "abcdefghijklmnopqrstuvwxyz_", 1, 40)
		zz.Assume(claim != "exp") // the tokens have no other
		r := v1.Rule{Claim: claim, Match: "NOT", Values: []string{"v"}, Source: []string{"access_token", "id_token", ""}[zz.Choose(q+".source", 3)]}
		state := "holds"
		if zz.Choose(q+".fails", 2) == 1 {
			r.Match, state = "ANY", "fails"
		}
		if r.Source == "id_token" {
			if id != "fails" {
				id = state
			}
		} else if access != "fails" {
			access = state
		}
		rules = append(rules, r)
	}
	return
}

// zzJudge validates one token and compares the outcome with what is due.
func zzJudge(v TokenValidator, oidc bool, text string, genuine bool, tt Token, ks *zzKeys, rules []v1.Rule, access, id string, idp *zzProvider) {
	idp.use()
	idp.calls = 0
	endpoint := "https://idp.example.com/userinfo"
	var failed bool
	if ks == nil {
		failed = v.Validate(text, tt, nil, rules, endpoint) != nil
	} else {
		failed = v.Validate(text, tt, ks, rules, endpoint) != nil
	}
	zz.Observe("refused", failed)
	if ks == nil || text == "" {
		zz.Assert(failed, "a token is accepted without a key set or without being there")
		zz.Reach("nothing to trust")
		return
	}
	state := access
	if tt == ID {
		state = id
	}
	zz.Assert(zz.Implies(genuine, failed == (state == "fails")), "a genuine token is accepted when the rules that address it hold, and only then")
	zz.Assert(zz.Implies(genuine, idp.calls == 0), "the provider is not asked about a genuine token")
	if !oidc || tt == ID {
		zz.Assert(zz.Or(genuine, failed), "a token that is not genuine is accepted")
		zz.Assert(idp.calls == 0, "the provider's userinfo does not stand in for a signature")
		if failed {
			zz.Reach("refused")
		} else {
			zz.Reach("accepted")
		}
		return
	}
	confirmed := zz.And(idp.calls == 1, !idp.fails, idp.status == 200)
	if !failed {
		zz.Assert(zz.Or(genuine, confirmed), "an opaque token is accepted although the provider did not confirm it")
		zz.Assert(zz.Or(genuine, access == ""), "an opaque token is accepted although a rule addresses the access token")
	} else {
		zz.Assert(zz.Or(genuine, idp.fails, idp.status != 200, access != ""), "an opaque token the provider confirms is refused")
	}
	if idp.calls > 0 {
		zz.Assert(idp.calls == 1 && idp.method == "GET" && idp.url == endpoint && !idp.body, "the provider's userinfo endpoint is called")
		zz.Assert(len(idp.auth) == 1 && idp.auth[0] == "Bearer "+text, "with exactly the token that is validated")
		if failed {
			zz.Reach("not confirmed")
		} else {
			zz.Reach("confirmed")
		}
	} else if !failed {
		zz.Reach("genuine access token")
	}
}

func zzNewProvider() *zzProvider {
	p := &zzProvider{status: 200}
	switch zz.Choose("userinfo", 3) {
	case 1:
		p.status = zz.Int("userinfo status", 201, 599)
		zz.Assume(zz.Or(p.status < 300, p.status >= 400))
	case 2:
		p.fails = true
	}
	return p
}

func zzKind() (TokenValidator, bool, Token) {
	if zz.Choose("flow", 2) == 0 {
		return NewTokenValidator(policy.JWT), false, Token(zz.Choose("kind", 2))
	}
	return NewTokenValidator(policy.OIDC), true, Token(zz.Choose("kind", 2))
}

// Every make of signed token against every key set.
//
//verif:bound=header_algorithm_of_the_RSA_families,_others,_any_text_or_absent,_key_id_any_text_up_to_40,_absent_or_of_another_type,_signed_by_one_of_2_keys_under_any_algorithm,_altered_or_not,_any_exp_and_nbf_offset,_key_set_of_up_to_2_keys_of_any_name_or_none budget=60 tbudget=400
func Verif_C06_tokens() {
	v, oidc, tt := zzKind()
	idp := &zzProvider{status: 200}
	if oidc && tt == Access && zz.Choose("unconfirmed", 2) == 1 {
		idp.status = 401
	}
	t := zzToken("t")
	var ks *zzKeys
	if n := zz.Choose("keys", 4); n < 3 {
		ks = &zzKeys{}
		for i := 0; i < n; i++ {
			ks.kids = append(ks.kids, zz.String("keyset.kid"+strconv.Itoa(i), 40))
			ks.keys = append(ks.keys, i)
		}
		if n == 2 {
			zz.Assume(ks.kids[0] != ks.kids[1])
		}
	}
	zzJudge(v, oidc, t.text, t.genuine(ks), tt, ks, nil, "", "", idp)
}

// Rules and the provider's answer for genuine and other tokens.
//
//verif:bound=up_to_2_rules_of_any_claim_of_up_to_40_characters_and_any_source_that_hold_or_fail,_userinfo_answering_any_status_(not_3xx)_or_failing,_tokens_genuine,_of_another_key,_expired_or_texts_of_up_to_200_characters budget=60 tbudget=300
func Verif_C06_userinfo() {
	v, oidc, tt := zzKind()
	idp := zzNewProvider()
	rules, access, id := zzRules("r")
	ks := &zzKeys{kids: []string{"k0"}, keys: []int{0}}
	head := zz.JO().With("alg", zz.JS("RS256")).With("kid", zz.JS("k0"))
	text, genuine := "", false
	switch zz.Choose("token", 6) {
	case 0:
		text, genuine = zz.Token(zz.Tok{Head: head, Claims: zz.JO(), Sign: "RS256"}), true
	case 1:
		text = zz.Token(zz.Tok{Head: head, Claims: zz.JO(), Sign: "RS256", Key: 1})
	case 2:
		text = zz.Token(zz.Tok{Head: head, Claims: zz.JO().With("exp", zz.JN(int(time.Now().Unix())-zz.Int("expired", 60, 1000000), false)), Sign: "RS256"})
	case 3:
		text = zz.StringIn("opaque", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_~+/=", 1, 200)
	case 4:
		text = zz.StringIn("part0", "abcABC019-_", 0, 40) + "." + zz.StringIn("part1", "abcABC019-_", 0, 40)
	case 5:
		text = "."
		for i, n := 0, 2+zz.Choose("dots", 2); i < n; i++ {
			text += zz.StringIn("seg"+strconv.Itoa(i), "abc-_", 1, 2) + "."
		}
	}
	zzJudge(v, oidc, text, genuine, tt, ks, rules, access, id, idp)
}

// An absent token or key set.
//
//verif:bound=with_and_without_rules,_every_flow_and_token_kind
func Verif_C06_absent() {
	v, oidc, tt := zzKind()
	idp := &zzProvider{status: 200}
	rules, access, id := zzRules("r")
	if zz.Choose("absent", 2) == 0 {
		zzJudge(v, oidc, "", false, tt, &zzKeys{kids: []string{"k"}, keys: []int{0}}, rules, access, id, idp)
	} else {
		t := zz.Token(zz.Tok{Head: zz.JO().With("alg", zz.JS("RS256")).With("kid", zz.JS("k")), Claims: zz.JO(), Sign: "RS256"})
		zzJudge(v, oidc, t, false, tt, nil, rules, access, id, idp)
		zz.Assert(idp.calls == 0, "the provider is not asked without a key set")
	}
}

// Validations one after the other do not influence each other.
//
//verif:bound=2_(3)_validations_in_a_row_of_2_tokens_by_either_validator_under_2_key_sets_that_use_the_same_key_id_for_different_keys_or_an_empty_one,_the_provider_changing_its_answer budget=60 tbudget=300
func Verif_C06_history() {
	vs := []TokenValidator{NewTokenValidator(policy.JWT), NewTokenValidator(policy.OIDC)}
	kid := zz.String("kid", 40)
	zz.Assume(kid != "")
	head := zz.JO().With("alg", zz.JS("RS256")).With("kid", zz.JS(kid))
	opaque := zz.StringIn("opaque", "abcdefghijklmnopqrstuvwxyz0123456789", 1, 40)
	toks := []string{zz.Token(zz.Tok{Head: head, Claims: zz.JO().With("sub", zz.JS("a")), Sign: "RS256"}), zz.Token(zz.Tok{Head: head, Claims: zz.JO().With("sub", zz.JS("b")), Sign: "RS256", Key: 1}), opaque}
	sets := []*zzKeys{{kids: []string{kid}, keys: []int{0}}, {kids: []string{kid}, keys: []int{1}}, {}}
	n := 2
	if zz.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		l := "step" + strconv.Itoa(i)
		k, s, o, tt := zz.Choose(l+".token", 3), zz.Choose(l+".keyset", 3), zz.Choose(l+".flow", 2), Token(zz.Choose(l+".kind", 2))
		idp := &zzProvider{status: 200}
		if zz.Choose(l+".unconfirmed", 2) == 1 {
			idp.status = 401
		}
		zzJudge(vs[o], o == 1, toks[k], k == s && k < 2, tt, sets[s], nil, "", "", idp)
	}
}

// Time passes and keys are replaced between validations of the same tokens.
//
//verif:bound=3_(4)_steps_out_of_a_validation_by_either_validator,_time_passing_and_the_key_set_replacing_or_withdrawing_its_keys,_2_tokens_that_expire_or_become_valid_at_different_times budget=60 tbudget=200
func Verif_C06_time() {
	vs := []TokenValidator{NewTokenValidator(policy.JWT), NewTokenValidator(policy.OIDC)}
	kid := zz.String("kid", 40)
	zz.Assume(kid != "")
	head := zz.JO().With("alg", zz.JS("RS256")).With("kid", zz.JS(kid))
	now := int(time.Now().Unix())
	exp, nbf := zz.Int("exp offset", 60, 100000), zz.Int("nbf offset", 60, 100000)
	toks := []string{
		zz.Token(zz.Tok{Head: head, Claims: zz.JO().With("exp", zz.JN(now+exp, false)), Sign: "RS256"}),
		zz.Token(zz.Tok{Head: head, Claims: zz.JO().With("nbf", zz.JN(now+nbf, false)), Sign: "RS256"}),
	}
	ks := &zzKeys{kids: []string{kid}, keys: []int{0}}
	passed := 0
	n := 3
	if zz.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		l := "step" + strconv.Itoa(i)
		step := 0
		if i > 0 && i < n-1 {
			step = zz.Choose(l, 3)
		}
		switch step {
		case 1:
			d := []int{3600, 50000}[zz.Choose(l+".by", 2)]
			passed += d
			zz.Advance(d)
			for _, at := range []int{exp, nbf} {
				zz.Assume(zz.Or(at-passed <= -60, at-passed >= 60))
			}
			zz.Reach("time passed")
		case 2:
			if zz.Choose(l+".gone", 2) == 1 {
				ks.kids, ks.keys = nil, nil
				zz.Reach("key withdrawn")
				break
			}
			if len(ks.keys) > 0 {
				ks.keys[0] = 1 - ks.keys[0]
			} else {
				ks.kids, ks.keys = []string{kid}, []int{0}
			}
			zz.Reach("key replaced")
		default:
			k, o, tt := zz.Choose(l+".token", 2), zz.Choose(l+".flow", 2), Token(zz.Choose(l+".kind", 2))
			timely := exp > passed
			if k == 1 {
				timely = nbf < passed
			}
			zzJudge(vs[o], o == 1, toks[k], zz.And(len(ks.keys) > 0 && ks.keys[0] == 0, timely), tt, ks, nil, "", "", &zzProvider{status: 401})
		}
	}
}

// Many rules of which at most one addresses the access token.
//
//verif:bound=5_rules_for_the_ID_token_of_which_any_one_may_be_for_the_access_token_instead,_opaque_tokens_of_up_to_100_characters,_confirmed_or_not budget=60 tbudget=60
func Verif_C06_many() {
	v, oidc, tt := zzKind()
	idp := zzNewProvider()
	ks := &zzKeys{kids: []string{"k0"}, keys: []int{0}}
	at := zz.Choose("at", 6)
	access := ""
	var rules []v1.Rule
	for i := 0; i < 5; i++ {
		r := v1.Rule{Claim: "c" + strconv.Itoa(i), Match: "NOT", Values: []string{"v"}, Source: "id_token"}
		if i == at {
			r.Source, access = []string{"access_token", ""}[zz.Choose("source", 2)], "holds"
		}
		rules = append(rules, r)
	}
	text := "o" + zz.StringIn("opaque", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_~+/=", 0, 99)
	zzJudge(v, oidc, text, false, tt, ks, rules, access, "holds", idp)
}
