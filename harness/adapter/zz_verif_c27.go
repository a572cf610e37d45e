package adapter

import (
	"strconv"
	"strings"

	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// Secrets, codes and tokens on their way through the adapter. What is looked
// for is in zzWhole.ask and zzWholeIdp.
//
//verif:bound=2_clients_of_2_providers,_5_(6)_steps_out_of_request,_callback,_callback_with_another_state,_logout_and_time_passing_at_either,_access_tokens_opaque_or_JWTs,_in_or_out_of_time,_confirmed_or_not,_every_exchange_and_refresh_answered_or_refused budget=100 tbudget=500
func Verif_C27_flows() {
	w := zzNewWhole()
	opaque := zz.Choose("opaque", 2) == 1
	n := 5
	if zz.Thorough() {
		n = 6
	}
	step := 0
	for i, p := range w.idps {
		p := p
		l := "idp" + strconv.Itoa(i)
		p.next = func(kind string) *zzTokens {
			l := l + "." + kind + strconv.Itoa(step)
			switch zz.Choose(l, 4) {
			case 1:
				return p.issue(opaque, true)
			case 2:
				t := p.issue(opaque, false)
				t.refused = true
				return t
			case 3:
				return nil
			}
			return p.issue(opaque, false)
		}
	}
	live := false
	states, uris := make([]string, 2), make([]string, 2)
	for ; step < n; step++ {
		l := "step" + strconv.Itoa(step)
		i := 0
		if step > 0 {
			i = zz.Choose(l+".at", 2)
		}
		path := "/p" + strconv.Itoa(i)
		kinds := []int{0}
		if states[i] != "" {
			kinds = append(kinds, 1, 2, 3)
		}
		if live {
			kinds = append(kinds, 4)
		}
		kind := kinds[zz.Choose(l, len(kinds))]
		switch kind {
		case 0:
			s := w.ask(path, "", nil)
			if s.passed {
				zz.Reach("passed")
			} else if s.location != "" {
				zz.Reach("sent to log in")
				j, uri, state := w.authorize(s.location, "~C"+strconv.Itoa(i)+"."+strconv.Itoa(step)+"~")
				zz.Assert(i == j, "the login goes to another provider")
				states[i], uris[i] = state, uri
			}
		case 1, 2:
			p := &authnz.QueryParamsMsg{Code: "~unknown~", State: states[i]}
			for c := range w.idps[i].codes {
				p.Code = c
			}
			if kind == 2 {
				p.State += "x"
			}
			s := w.ask(strings.TrimPrefix(uris[i], "https://app"), "", p)
			zz.Assert(!s.passed, "a callback is passed on")
			if s.location != "" {
				live = true
				zz.Reach("logged in")
			} else {
				zz.Reach("callback refused")
			}
		case 3:
			s := w.ask(path+"/oidc/logout", "", nil)
			zz.Assert(!s.passed, "a logout is passed on")
			zz.Reach("logged out")
		case 4:
			// sessions expire and logins under way are abandoned
			zz.Advance(7200)
			live, states = false, make([]string, 2)
			for _, p := range w.idps {
				for _, t := range p.issued {
					t.expired = true
				}
			}
			zz.Reach("expired")
		}
	}
}

// Tokens of API requests.
//
//verif:bound=access_and_ID_tokens_opaque_or_JWTs_in_or_out_of_time,_with_any_trailing_part_of_2_characters budget=60 tbudget=60
func Verif_C27_api() {
	w := zzNewWhole()
	for _, p := range w.idps {
		p.next = func(string) *zzTokens { return nil }
	}
	p := w.idps[zz.Choose("idp", 2)]
	a := p.issue(zz.Choose("opaque", 2) == 1, zz.Choose("expired", 2) == 1)
	i := p.issue(false, zz.Choose("id expired", 2) == 1)
	auth := "Bearer " + a.access
	switch zz.Choose("second", 3) {
	case 1:
		auth += " " + i.id
	case 2:
		auth += " ~" + zz.String("rest", 2)
	}
	s := w.ask("/api/x", auth, nil)
	if s.passed {
		zz.Reach("passed")
	} else {
		zz.Assert(s.challenge != "", "a refused request gets no challenge")
		zz.Reach("refused")
	}
}
