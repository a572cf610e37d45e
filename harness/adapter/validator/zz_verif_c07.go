package validator

import (
	"net/http"
	"strconv"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

const zzWord = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-_:/"

// zzClaim is a claim: its document, what it carries and whether its type can be
// judged at all. The document is nil when the claim is absent.
type zzClaim struct {
	doc   *zz.J
	words []string
	odd   bool
	last  bool // the last word is the text of a number or a boolean
}

func zzScalar(l string, k int) (doc *zz.J, text string) {
	switch k {
	case 0:
		n := zz.Int(l+".number", -1000000000, 1000000000)
		return zz.JN(n, false), strconv.Itoa(n)
	case 1:
		n := zz.Int(l+".number", 0, 1000000000)
		return zz.JN(n, true), strconv.Itoa(n) + ".5"
	}
	b := zz.Bool(l + ".bool")
	return zz.JB(b), zz.IteStr(b, "true", "false")
}

// zzMakeClaim makes a claim of any type.
func zzMakeClaim(l string, max int) *zzClaim {
	c := &zzClaim{}
	switch k := zz.Choose(l+".type", 8); k {
	case 0, 1, 2:
		d, t := zzScalar(l, k)
		c.doc, c.words, c.last = d, []string{t}, true
	case 3:
		n := 1 + zz.Choose(l+".words", max)
		text := ""
		for i := 0; i < n; i++ {
			w := zz.StringIn(l+".word"+strconv.Itoa(i), zzWord, 0, 60)
			if i > 0 {
				text += " "
			}
			text += w
			c.words = append(c.words, w)
		}
		c.doc = zz.JS(text)
	case 4:
		n := zz.Choose(l+".elements", max+1)
		c.doc = zz.JA()
		for i := 0; i < n; i++ {
			q := l + ".element" + strconv.Itoa(i)
			var e *zz.J
			k := zz.Choose(q+".type", 7)
			c.last = k < 3
			switch k {
			case 0, 1, 2:
				d, t := zzScalar(q, k)
				e = d
				c.words = append(c.words, t)
			case 3:
				t := zz.String(q+".text", 60)
				e = zz.JS(t)
				c.words = append(c.words, t)
			case 4:
				e, c.odd = zz.JNull(), true
			case 5:
				e, c.odd = zz.JA(zz.JS("a")), true
			case 6:
				e, c.odd = zz.JO().With("a", zz.JS("a")), true
			}
			c.doc.A = append(c.doc.A, e)
		}
	case 5:
		c.doc, c.odd = zz.JO().With("a", zz.JS("a")), true
	case 6:
		c.doc = zz.JNull()
	case 7:
	}
	return c
}

// holds judges a rule over the claim it names.
func (c *zzClaim) holds(match string, values []string) bool {
	if c.odd {
		return false
	}
	all, any := len(values) > 0, false
	for _, v := range values {
		has := false
		for _, w := range c.words {
			has = zz.Or(has, w == v)
		}
		all = zz.And(all, has)
		any = zz.Or(any, has)
	}
	switch match {
	case "ANY":
		return any
	case "NOT":
		return !any
	}
	return all
}

func zzMatch(l string) string {
	m := []string{"ALL", "ANY", "NOT", "", "?"}[zz.Choose(l, 5)]
	if m == "?" {
		m = zz.String(l+" text", 60)
		zz.Assume(zz.And(m != "ANY", m != "NOT"))
	}
	return m
}

func zzSigned(claims *zz.J) (string, *zzKeys) {
	return zz.Token(zz.Tok{Head: zz.JO().With("alg", zz.JS("RS256")).With("kid", zz.JS("k")), Claims: claims, Sign: "RS256"}), &zzKeys{kids: []string{"k"}, keys: []int{0}}
}

type zzProviderStub struct{ calls int }

func (p *zzProviderStub) use() {
	zz.SetTransport(&zz.Transport{F: func(req *http.Request) (*http.Response, error) {
		p.calls++
		return zz.Response(req, 200, []byte("{}")), nil
	}})
}

func zzFlow(l string) TokenValidator {
	if zz.Choose(l, 2) == 0 {
		return NewTokenValidator(policy.JWT)
	}
	return NewTokenValidator(policy.OIDC)
}

// One rule over a claim of any type.
//
//verif:bound=one_rule_of_any_match_text_with_up_to_3_values_of_1..60_characters_or_the_text_of_the_number,_a_claim_that_is_a_number_(whole_or_half,_up_to_10^9),_a_boolean,_a_string_of_up_to_2_(3)_words,_an_array_of_up_to_2_(3)_elements_of_any_type,_an_object,_null_or_absent budget=100 tbudget=500
func Verif_C07_values() {
	max := 2
	if zz.Thorough() {
		max = 3
	}
	c := zzMakeClaim("claim", max)
	r := v1.Rule{Claim: "c", Match: zzMatch("match"), Source: "access_token"}
	n := zz.Choose("values", 4)
	for i := 0; i < n; i++ {
		v := zz.String("value"+strconv.Itoa(i), 60)
		zz.Assume(v != "")
		if c.last && i == 0 {
			// the whole text of a number can be named, too
			if zz.Choose("value"+strconv.Itoa(i)+" is it", 2) == 1 {
				v = c.words[len(c.words)-1]
			}
		}
		r.Values = append(r.Values, v)
	}
	claims := zz.JO().With("other", zz.JS("x y"))
	if c.doc != nil {
		claims.With("c", c.doc)
	}
	text, ks := zzSigned(claims)
	err := NewTokenValidator(policy.JWT).Validate(text, Access, ks, []v1.Rule{r}, "")
	zz.Observe("refused", err != nil)
	zz.Assert(zz.Iff(err == nil, c.holds(r.Match, r.Values)), "the rule decides")
	if err == nil {
		zz.Reach("held")
	} else {
		zz.Reach("failed")
	}
}

// Claims are found by their dotted path.
//
//verif:bound=any_path_of_up_to_4_(5)_characters_of_a,_b_and_dots,_claims_nested_up_to_3_tiers_whose_names_overlap,_also_names_with_a_dot,_values_of_1..60_characters budget=60 tbudget=300
func Verif_C07_paths() {
	max := 4
	if zz.Thorough() {
		max = 5
	}
	path := zz.StringIn("path", "ab.", 0, max)
	v := []string{}
	for i := 0; i < 4; i++ {
		v = append(v, zz.StringIn("claim"+strconv.Itoa(i), zzWord, 1, 60))
	}
	claims := zz.JO().
		With("a", zz.JS(v[0])).
		With("b", zz.JO().
			With("a", zz.JS(v[1])).
			With("b", zz.JO().With("a", zz.JS(v[2])))).
		With("a.a", zz.JS("no")).
		With("ab", zz.JO().With("a", zz.JS(v[3])).With("b", zz.JA(zz.JO().With("a", zz.JS("no")))))
	expected := zz.StringIn("value", zzWord, 1, 60)
	match := []string{"ALL", "ANY", "NOT"}[zz.Choose("match", 3)]
	text, ks := zzSigned(claims)
	rules := []v1.Rule{{Claim: path, Match: match, Values: []string{expected}}}
	err := zzFlow("flow").Validate(text, Access, ks, rules, "")
	zz.Observe("refused", err != nil)
	carries := zz.Or(zz.And(path == "a", v[0] == expected), zz.And(path == "b.a", v[1] == expected), zz.And(path == "b.b.a", v[2] == expected), zz.And(path == "ab.a", v[3] == expected))
	odd := zz.Or(path == "b", path == "b.b", path == "ab", path == "ab.b")
	if match == "NOT" {
		carries = !carries
	}
	zz.Assert(zz.Iff(err == nil, zz.And(carries, !odd)), "the claim the path names decides")
	if err == nil {
		zz.Reach("held")
	} else {
		zz.Reach("failed")
	}
}

// Every rule that addresses the token must hold, the others do not matter.
//
//verif:bound=up_to_2_(3)_rules_over_2_claims_of_up_to_1_(2)_words,_of_any_source,_the_same_token_validated_again_under_other_rules budget=100 tbudget=500
func Verif_C07_rules() {
	words, max := 1, 2
	if zz.Thorough() {
		max = 3
		if zz.Choose("wide", 2) == 1 {
			words, max = 2, 2
		}
	}
	claims := zz.JO()
	have := map[string]*zzClaim{}
	for _, n := range []string{"scope", "role"} {
		c := &zzClaim{}
		if k := zz.Choose(n+".words", words+1); k > 0 {
			text := ""
			for i := 0; i < k; i++ {
				w := zz.StringIn(n+".word"+strconv.Itoa(i), zzWord, 1, 60)
				if i > 0 {
					text += " "
				}
				text += w
				c.words = append(c.words, w)
			}
			claims.With(n, zz.JS(text))
		}
		have[n] = c
	}
	text, ks := zzSigned(claims)
	v := zzFlow("flow")
	tt := Token(zz.Choose("kind", 2))
	addressed := "id_token"
	if tt == Access {
		addressed = "access_token"
	}
	sets := 2
	for s := 0; s < sets; s++ {
		l := "set" + strconv.Itoa(s)
		n := 1
		if s == 0 {
			if n = zz.Choose(l+".rules", max+1); n == 3 {
				sets = 1
			}
		}
		var rules []v1.Rule
		due := true
		for i := 0; i < n; i++ {
			q := l + ".rule" + strconv.Itoa(i)
			r := v1.Rule{Claim: []string{"scope", "role"}[zz.Choose(q+".claim", 2)], Source: []string{addressed, "other", ""}[zz.Choose(q+".source", 3-2*s)]}
			if r.Source == "other" {
				r.Source = zz.String(q+".source text", 60)
				zz.Assume(r.Source != "")
				if zz.Choose(q+".source other kind", 2) == 1 {
					r.Source = "id_token"
					if tt == ID {
						r.Source = "access_token"
					}
				}
			}
			r.Match = []string{"ALL", "NOT"}[zz.Choose(q+".match", 2)]
			r.Values = []string{zz.StringIn(q+".value", zzWord, 1, 60)}
			rules = append(rules, r)
			if r.Source == addressed || r.Source == "" && tt == Access {
				due = zz.And(due, have[r.Claim].holds(r.Match, r.Values))
			}
		}
		idp := &zzProviderStub{}
		idp.use()
		err := v.Validate(text, tt, ks, rules, "https://idp.example.com/userinfo")
		zz.Observe("refused", err != nil)
		zz.Assert(zz.Iff(err == nil, due), "exactly the rules that address the token decide")
		zz.Assert(idp.calls == 0, "the provider is not asked about a genuine token")
		if err == nil {
			zz.Reach("held")
		} else {
			zz.Reach("failed")
		}
	}
}
