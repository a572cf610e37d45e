package adapter

import (
	"net/url"
	"strconv"
	"strings"

	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// zz29Side is what holds for one of the clients.
type zz29Side struct {
	tokens *zzTokens // of the session the browser has
	old    string    // cookie of a session that was ended
	state  string    // of the login under way
	uri    string
	path   string // where it began

}

// A user at two clients whose providers work: logins succeed and lead back,
// sessions last until their tokens expire or the user logs out, and are renewed
// as long as the provider does.
//
//verif:bound=2_clients_of_2_providers_under_policies_without_rules,_paths_of_up_to_64_characters,_parameters_code,_state_and_error_of_the_application_of_up_to_8_characters,_5_(6)_steps_out_of_request,_callback,_callback_with_any_other_state_of_up_to_20_characters,_logout,_return_of_the_cookie_of_an_ended_session_and_time_passing_at_either,_access_tokens_opaque_or_JWTs,_refreshes_granted_or_not budget=100 tbudget=600
func Verif_C29_sessions() {
	w := zzNewWhole()
	w.blind = true
	opaque := zz.Choose("opaque", 2) == 1
	n := 5
	if zz.Thorough() {
		n = 6
	}
	step, grants := 0, 0
	for _, p := range w.idps {
		p := p
		p.next = func(kind string) *zzTokens {
			grants++
			if kind == "refresh_token" && zz.Choose("step"+strconv.Itoa(step)+".refresh", 2) == 1 {
				return nil
			}
			return p.issue(opaque, false)
		}
	}
	sides := []*zz29Side{{}, {}}
	suffix := ""
	if zz.Choose("long", 2) == 1 {
		suffix = "/" + zz.StringIn("path", "abcxyzABCXYZ019-_.", 1, 60)
	}
	// the application has parameters of the same names
	own := &authnz.QueryParamsMsg{Code: zz.String("own code", 8), State: zz.String("own state", 8), Error: zz.String("own error", 8)}
	for ; step < n; step++ {
		l := "step" + strconv.Itoa(step)
		i := 0
		if step > 0 {
			i = zz.Choose(l+".at", 2)
		}
		s, p := sides[i], w.idps[i]
		path := "/p" + strconv.Itoa(i) + suffix
		kinds := []string{"request"}
		if s.state != "" {
			kinds = append(kinds, "callback", "foreign")
		}
		if s.tokens != nil {
			kinds = append(kinds, "logout", "time")
		}
		if s.old != "" {
			kinds = append(kinds, "old")
		}
		before := grants
		switch k := kinds[zz.Choose(l, len(kinds))]; k {
		case "old", "request":
			if k == "old" {
				w.jar["oidc-cookie-client"+strconv.Itoa(i)] = s.old
				s.old, s.tokens, s.state = "", nil, ""
			}
			r := w.ask(path, "", own)
			zz.Assert(r.err == nil, "a request fails although the provider works")
			t := s.tokens
			if r.passed {
				zz.Assert(t != nil, "a request passes without a session")
				if t.expired {
					zz.Assert(grants == before+1 && !p.issued[len(p.issued)-1].expired && t != p.issued[len(p.issued)-1], "a request passes with expired tokens")
					t = p.issued[len(p.issued)-1]
					s.tokens = t
					zz.Reach("refreshed")
				} else {
					zz.Assert(grants == before, "tokens in force are refreshed")
					zz.Reach("passed")
				}
				zz.Assert(r.authorization == "Bearer "+t.access+" "+t.id, "the application does not get the tokens of the session")
				s.state = ""
				break
			}
			zz.Assert(t == nil || t.expired, "a request with a session in force is sent to log in")
			if t != nil && !t.opaque && grants > before {
				zz.Assert(len(p.issued) == 0 || p.issued[len(p.issued)-1].expired, "refreshed tokens are not used")
				zz.Reach("not refreshed")
			}
			if t != nil && !t.opaque {
				zz.Assert(grants > before, "an expired session is not refreshed")
			}
			zz.Assert(r.code != 0 && r.location != "", "a request without a session is not sent to log in")
			j, uri, state := w.authorize(r.location, "~C"+strconv.Itoa(i)+"."+strconv.Itoa(step)+"~")
			zz.Assert(i == j, "the login goes to another provider")
			zz.Assert(uri == "https://app"+path+"/oidc/callback", "the login does not lead back")
			u, _ := url.Parse(r.location)
			zz.Assert(strings.Contains(" "+u.Query().Get("scope")+" ", " openid "), "the login does not ask for an ID token")
			zz.Assert(state != "" && state != sides[1-i].state && state != s.state, "the state of a login was used before")
			s.state, s.uri, s.path, s.tokens = state, uri, path, nil
			zz.Reach("sent to log in")
		case "callback":
			q := &authnz.QueryParamsMsg{State: s.state, Code: s.code(p)}
			r := w.ask(strings.TrimPrefix(s.uri, "https://app"), "", q)
			zz.Assert(r.err == nil && !r.passed && grants == before+1, "a callback is not exchanged")
			zz.Assert(r.location == "https://app"+s.path, "a login does not lead back to where it began")
			s.tokens, s.state = p.issued[len(p.issued)-1], ""
			zz.Reach("logged in")
		case "foreign":
			q := &authnz.QueryParamsMsg{State: zz.String(l+".state", 20), Code: s.code(p)}
			zz.Assume(q.State != s.state)
			r := w.ask(strings.TrimPrefix(s.uri, "https://app"), "", q)
			zz.Assert(!r.passed && r.location == "" && grants == before, "a callback that no login asked for is exchanged")
			zz.Reach("foreign callback")
		case "logout":
			name := "oidc-cookie-client" + strconv.Itoa(i)
			s.old = w.jar[name]
			r := w.ask(path+"/oidc/logout", "", nil)
			zz.Assert(r.err == nil && !r.passed && r.location == path, "a logout does not lead back to the application")
			s.tokens, s.state = nil, ""
			delete(w.jar, name)
			zz.Reach("logged out")
		case "time":
			zz.Advance(7200)
			for k, o := range w.idps {
				for _, t := range o.issued {
					t.expired = true
				}
				sides[k].state = ""
			}
			zz.Reach("expired")
		}
	}
}

func (s *zz29Side) code(p *zzWholeIdp) string {
	for c, u := range p.codes {
		if u == s.uri {
			return c
		}
	}
	return "~none~"
}

// zz29User is one of several users at a client.
type zz29User struct {
	jar    map[string]string
	tokens *zzTokens
	state  string
	uri    string
}

// login takes a user through a login.
func (u *zz29User) login(w *zzWhole, i int, path, code string) {
	p := w.idps[i]
	w.jar = u.jar
	r := w.ask(path, "", nil)
	zz.Assert(r.err == nil && !r.passed && r.location != "", "a user without a session is not sent to log in")
	_, uri, state := w.authorize(r.location, code)
	u.state, u.uri = state, uri
	r = w.ask(strings.TrimPrefix(uri, "https://app"), "", &authnz.QueryParamsMsg{State: state, Code: code})
	zz.Assert(r.err == nil && r.location == "https://app"+path, "a login does not lead back")
	u.tokens = p.issued[len(p.issued)-1]
	u.state = ""
}

// renewable takes the refresh token away from tokens that shall have none.
func (p *zzWholeIdp) renewable(t *zzTokens, yes bool) *zzTokens {
	if !yes {
		t.refresh = ""
	}
	return t
}

// Users of one client do not get in each other's way.
//
//verif:bound=2_(3)_users_of_one_client_with_a_browser_each,_5_steps_out_of_login,_request,_logout_and_expiry_by_any_of_them,_access_tokens_opaque_or_JWTs,_with_or_without_refresh_tokens budget=60 tbudget=400
func Verif_C29_users() {
	w := zzNewWhole()
	w.blind = true
	opaque := zz.Choose("opaque", 2) == 1
	at := zz.Choose("client", 2)
	p := w.idps[at]
	renewable := zz.Choose("refresh tokens", 2) == 0
	p.next = func(kind string) *zzTokens { return p.renewable(p.issue(opaque, false), renewable) }
	users := []*zz29User{{jar: map[string]string{}}, {jar: map[string]string{}}}
	if zz.Thorough() {
		users = append(users, &zz29User{jar: map[string]string{}})
	}
	path := "/p" + strconv.Itoa(at)
	for step := 0; step < 5; step++ {
		l := "step" + strconv.Itoa(step)
		i := 0
		if step > 0 {
			i = zz.Choose(l+".user", len(users))
		}
		u := users[i]
		if u.tokens == nil {
			u.login(w, at, path, "~C"+strconv.Itoa(step)+"~")
			zz.Reach("logged in")
		} else if zz.Choose(l, 2) == 1 {
			w.jar = u.jar
			r := w.ask(path+"/oidc/logout", "", nil)
			zz.Assert(r.err == nil && r.location == path, "a logout does not lead back to the application")
			delete(u.jar, "oidc-cookie-client"+strconv.Itoa(at))
			u.tokens = nil
			zz.Reach("logged out")
		} else {
			u.tokens.expired = true // the provider withdraws it
			zz.Reach("expired")
		}
		for _, o := range users {
			w.jar = o.jar
			if o.tokens == nil {
				continue
			}
			before := len(p.issued)
			r := w.ask(path, "", nil)
			if o.tokens.expired && opaque {
				// the session of this user is over
				zz.Assert(o == u && !r.passed && r.location != "", "a request passes with a token that the provider has withdrawn")
				o.tokens = nil
				continue
			}
			zz.Assert(r.err == nil && r.passed && len(p.issued) == before, "a session ends because of another user")
			zz.Assert(r.authorization == "Bearer "+o.tokens.access+" "+o.tokens.id, "a request gets the tokens of another user")
			zz.Reach("passed")
		}
	}
}

// Many users of one client, all of whom stay logged in.
//
//verif:bound=24_(60)_users_of_one_client,_one_of_whom_logs_out,_access_tokens_opaque_or_JWTs,_with_or_without_refresh_tokens budget=40 tbudget=120
func Verif_C29_many() {
	w := zzNewWhole()
	w.blind = true
	opaque := zz.Choose("opaque", 2) == 1
	p := w.idps[1]
	renewable := zz.Choose("refresh tokens", 2) == 0
	p.next = func(kind string) *zzTokens { return p.renewable(p.issue(opaque, false), renewable) }
	n := 24
	if zz.Thorough() {
		n = 60
	}
	var users []*zz29User
	for i := 0; i < n; i++ {
		u := &zz29User{jar: map[string]string{}}
		u.login(w, 1, "/p1", "~C"+strconv.Itoa(i)+"~")
		users = append(users, u)
	}
	leaves := zz.Choose("leaves", n)
	w.jar = users[leaves].jar
	w.ask("/p1/oidc/logout", "", nil)
	for i, u := range users {
		w.jar = u.jar
		r := w.ask("/p1", "", nil)
		if i == leaves {
			zz.Assert(!r.passed, "a request passes after the logout")
			zz.Reach("left")
			continue
		}
		zz.Assert(r.err == nil && r.passed, "a session ends because of another user")
		zz.Assert(r.authorization == "Bearer "+u.tokens.access+" "+u.tokens.id, "a request gets the tokens of another user")
		zz.Reach("passed")
	}
}
