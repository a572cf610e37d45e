package webstrategy

import (
	"strings"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// zz28Client gives tokens to each login.
func zz28Client(id string) *zzClient {
	c := zzNewClient(id)
	c.answer = func(k zzCall) (*authserver.TokenResponse, error) {
		return &authserver.TokenResponse{AccessToken: "A", IdentityToken: "I"}, nil
	}
	return c
}

func zz28Judge() *zzJudge {
	j := &zzJudge{}
	j.says("A", validator.Access, zzOK)
	j.says("I", validator.ID, zzOK)
	return j
}

// zz28Login goes through a login and gives its state and its session.
func zz28Login(w *WebStrategy, c *zzClient, path string) (state, id string) {
	resp, err := w.HandleAuthnZRequest(zzRequest(path, ""), zzAction(c, nil))
	state, cookie, _ := zzLogin(resp, err, c)
	req := zzRequest(path+"/oidc/callback", zzPair(cookie))
	req.Instance.Request.Params = &authnz.QueryParamsMsg{Code: "code", State: state}
	resp, err = w.HandleAuthnZRequest(req, zzAction(c, nil))
	_, cookie = zzRedirect(resp, err)
	set, _ := zz.SetCookie(cookie)
	zz.Assert(set != nil, "a login does not give a session")
	return state, set.Value
}

// The values are those of the system's random source: the same when it repeats
// itself, whatever else happened before, and different when it does not.
//
//verif:bound=2_processes,_2_(3)_logins_each_at_any_of_2_clients_of_any_ids_of_at_most_41_characters,_the_random_source_giving_one_of_11_sequences budget=60 tbudget=200
func Verif_C28_source() {
	ids := []string{"c" + zz.StringIn("client 0", zzIDChars, 0, 40), "d" + zz.StringIn("client 1", zzIDChars, 0, 40)}
	n := 2
	if zz.Thorough() {
		n = 3
	}
	at := []int{}
	for i := 0; i < n; i++ {
		at = append(at, zz.Choose("client of login", 2))
	}
	before := zz.Choose("logins before", 2)
	run := func(seed, before int) (states, sessions []string) {
		w := zzWeb()
		w.tokenUtil = zz28Judge()
		for i := 0; i < before; i++ {
			zz28Login(w, zz28Client("other"), "/x")
		}
		zz.SeedRandom(seed)
		for _, x := range at {
			s, id := zz28Login(w, zz28Client(ids[x]), "/p")
			states, sessions = append(states, s), append(sessions, id)
		}
		return
	}
	seed := 1 + zz.Choose("seed", 3)
	s1, i1 := run(seed, 0)
	s2, i2 := run(seed, before)
	s3, i3 := run(seed+1, before)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		zz.Assert(s1[i] == s2[i], "a state does not come from the secure random source alone")
		zz.Assert(i1[i] == i2[i], "a session identifier does not come from the secure random source alone")
		for _, v := range []string{s1[i], i1[i], s3[i], i3[i]} {
			zz.Assert(len(v) >= 10, "a state or session identifier has less than ten characters")
			zz.Assert(!seen[v], "a state or session identifier is given twice")
			seen[v] = true
		}
		zz.Assert(!strings.HasPrefix(i1[i], s1[i]) && !strings.Contains(i3[i], s3[i]), "a session identifier can be told from the state of its login")
		// no part of a value is fixed
		same := 0
		for k := 0; k < len(i1[i]) && k < len(i3[i]); k++ {
			if i1[i][k] == i3[i][k] {
				same++
			}
		}
		zz.Assert(len(i1[i]) == len(i3[i]) && 2*same < len(i1[i]), "most of a session identifier is the same whatever the random source gives")
	}
	// at least ten characters of each vary
	var states, sessions []string
	for i := 0; i < 8; i++ {
		s, id := run(10+i, before)
		states, sessions = append(states, s...), append(sessions, id...)
	}
	zz.Assert(zz28Varying(states) >= 10, "less than ten characters of a state vary")
	zz.Assert(zz28Varying(sessions) >= 10, "less than ten characters of a session identifier vary")
	zz.Reach("values compared")
}

// zz28Varying counts the positions at which values differ.
func zz28Varying(values []string) int {
	varying := 0
	for k := range values[0] {
		for _, v := range values {
			if k >= len(v) || v[k] != values[0][k] {
				varying++
				break
			}
		}
	}
	return varying
}

// Without randomness nobody is logged in.
//
//verif:bound=the_random_source_failing_at_the_login,_at_the_callback_or_at_both,_any_client_id_of_at_most_41_characters budget=30 tbudget=60
func Verif_C28_failing() {
	w := zzWeb()
	w.tokenUtil = zz28Judge()
	c := zz28Client("c" + zz.StringIn("client", zzIDChars, 0, 40))
	zz28Login(w, zz28Client("other"), "/x")
	sessions := zzSessions(w)
	atLogin := zz.Choose("fails", 2) == 0
	if atLogin {
		zz.FailRandom(true)
		resp, err := w.HandleAuthnZRequest(zzRequest("/p", ""), zzAction(c, nil))
		zz.Assert(!zzPassed(resp), "a request passes without a session")
		zz.Assert(err != nil, "a login begins without a random state")
		zz.Reach("no login")
		return
	}
	resp, err := w.HandleAuthnZRequest(zzRequest("/p", ""), zzAction(c, nil))
	state, cookie, _ := zzLogin(resp, err, c)
	zz.FailRandom(true)
	req := zzRequest("/p/oidc/callback", zzPair(cookie))
	req.Instance.Request.Params = &authnz.QueryParamsMsg{Code: "code", State: state}
	resp, err = w.HandleAuthnZRequest(req, zzAction(c, nil))
	zz.Assert(!zzPassed(resp), "a callback passes")
	zz.Assert(zzRefused(resp, err), "a session without a random identifier is begun")
	zz.Assert(zzSessions(w) == sessions, "a session without a random identifier is stored")
	zz.Reach("no session")
}
