package validator

import (
	"strconv"
	"strings"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// Many words against many values.
//
//verif:bound=one_rule_with_5_values_over_a_string_or_an_array_of_6_words_of_1..30_characters,_any_of_which_may_coincide budget=60 tbudget=100
func Verif_C07_many() {
	c := &zzClaim{}
	var list []*zz.J
	for i := 0; i < 6; i++ {
		w := strconv.Itoa(i) + zz.StringIn("word"+strconv.Itoa(i), zzWord, 0, 29)
		c.words = append(c.words, w)
		list = append(list, zz.JS(w))
	}
	c.doc = zz.JS(strings.Join(c.words, " "))
	if zz.Choose("array", 2) == 1 {
		c.doc = zz.JA(list...)
	}
	r := v1.Rule{Claim: "scope", Match: []string{"ALL", "ANY", "NOT"}[zz.Choose("match", 3)]}
	odd := zz.Choose("odd", 6) // the only value that may be missing (or there)
	for i := 0; i < 5; i++ {
		v := c.words[(i*5+1)%6]
		if (i == odd) == (r.Match == "ALL") {
			v = strconv.Itoa((i*5+1)%6) + zz.StringIn("value"+strconv.Itoa(i), zzWord, 0, 29)
		}
		r.Values = append(r.Values, v)
	}
	text, ks := zzSigned(zz.JO().With("scope", c.doc))
	err := NewTokenValidator(policy.JWT).Validate(text, Access, ks, []v1.Rule{r}, "")
	zz.Observe("refused", err != nil)
	zz.Assert(zz.Iff(err == nil, c.holds(r.Match, r.Values)), "the rule decides")
	if err == nil {
		zz.Reach("held")
	} else {
		zz.Reach("failed")
	}
}

// A claim far down, and many rules of which one fails.
//
//verif:bound=a_claim_1..6_tiers_down,_up_to_5_rules_of_which_any_one_may_fail,_values_of_1..60_characters budget=60 tbudget=100
func Verif_C07_deep() {
	deep := 1 + zz.Choose("tiers", 6)
	word := zz.StringIn("word", zzWord, 1, 60)
	doc := zz.JO().With("c", zz.JS(word))
	path := "c"
	for i := deep - 1; i > 0; i-- {
		doc = zz.JO().With("t"+strconv.Itoa(i), doc).With("c", zz.JS("other"))
		path = "t" + strconv.Itoa(i) + "." + path
	}
	var rules []v1.Rule
	n := 1 + zz.Choose("rules", 5)
	at := zz.Choose("at", n)
	for i := 0; i < n; i++ {
		v := word
		if i == at {
			v = zz.StringIn("value", zzWord, 1, 60)
		}
		rules = append(rules, v1.Rule{Claim: path, Match: "ALL", Values: []string{v}, Source: "access_token"})
	}
	text, ks := zzSigned(doc)
	err := NewTokenValidator(policy.JWT).Validate(text, Access, ks, rules, "")
	zz.Assert(zz.Iff(err == nil, rules[at].Values[0] == word), "every one of many rules decides")
	if err == nil {
		zz.Reach("held")
	} else {
		zz.Reach("failed")
	}
}
