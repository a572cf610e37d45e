package adapter

import (
	"errors"
	"net/http"
	"strconv"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

func zz22Transport(req *http.Request) (*http.Response, error) {
	zz.Yield()
	switch req.URL.String() {
	case "https://idp/d/0", "https://idp/d/1":
		x := req.URL.String()[len("https://idp/d/"):]
		return zz.Response(req, 200, zz.Body(zz.JO().
			With("issuer", zz.JS("https://idp")).
			With("authorization_endpoint", zz.JS("https://idp/a/"+x)).
			With("token_endpoint", zz.JS("https://idp/t/"+x)).
			With("jwks_uri", zz.JS("https://idp/k/"+x)).
			With("userinfo_endpoint", zz.JS("https://idp/u/"+x)))), nil
	case "https://idp/k/0", "https://idp/k/1":
		return zz.Response(req, 200, zz.Body(zz.JO().With("keys", zz.JA(
			zz.JO().With("kid", zz.JS("k")).With("kty", zz.JS("RSA")).With("n", zz.JS(zz.KeyN(0))).With("e", zz.JS(zz.KeyE)))))), nil
	}
	return nil, errors.New("no such host")
}

// what an adapter does with a request, as one text
func zz22Outcome(w *zzWorld, r *authnz.HandleAuthnZRequest) string {
	resp, err := w.a.HandleAuthnZ(nil, r)
	switch {
	case err != nil:
		return "refused"
	case resp == nil || resp.Result == nil:
		return "nothing"
	case w.api.calls > 0:
		k := ""
		if w.api.action.KeySet != nil {
			k = w.api.action.KeySet.PublicKeyURL()
		}
		return "jwt " + w.api.action.Config + " " + k + zz22Rules(w.api.action.Rules)
	case w.web.calls > 0:
		c := ""
		if w.web.action.Client != nil {
			c = w.web.action.Client.ID() + " " + w.web.action.Client.AuthorizationServer().TokenEndpoint()
		}
		return "oidc " + w.web.action.Config + " " + c + zz22Rules(w.web.action.Rules)
	case resp.Result.Status.Code == 0:
		return "passed"
	}
	return "other"
}

func zz22Rules(rs []v1.Rule) string {
	t := ""
	for _, r := range rs {
		t += " " + r.Claim
		for _, v := range r.Values {
			t += "," + v
		}
	}
	return t
}

// zz22Policy is one of the versions of a policy.
func zz22Policy(version int) *v1.Policy {
	jwt := func(c string) []v1.PathPolicy {
		return []v1.PathPolicy{{PolicyType: "jwt", Config: c, Rules: []v1.Rule{{Claim: "v" + strconv.Itoa(version), Match: "ALL", Values: []string{c}}}}}
	}
	oidc := func(c string) []v1.PathPolicy {
		return []v1.PathPolicy{{PolicyType: "oidc", Config: c}}
	}
	var paths []v1.PathConfig
	switch version {
	case 1:
		paths = []v1.PathConfig{{Prefix: "/a", Method: "ALL", Policies: jwt("j0")}, {Exact: "/a/b", Method: "GET", Policies: oidc("o0")}}
	case 2:
		paths = []v1.PathConfig{{Prefix: "/", Method: "ALL", Policies: oidc("o0")}, {Exact: "/a/b", Method: "ALL", Policies: jwt("j1")}}
	case 3:
		paths = []v1.PathConfig{{Prefix: "/a", Method: "ALL", Policies: jwt("j1")}, {Exact: "/a/b", Method: "GET", Policies: jwt("j1")}, {Prefix: "/a/b", Method: "ALL", Policies: jwt("j0")}}
	}
	return zzPolicy("ns", "p", v1.TargetElement{ServiceName: "svc", Paths: paths})
}

func zz22Jwt(i int, version string) *v1.JwtConfig {
	return &v1.JwtConfig{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "j" + strconv.Itoa(i)}, Spec: v1.JwtConfigSpec{JwksURL: "https://idp/k/" + version}}
}

func zz22Oidc(id string) *v1.OidcConfig {
	return &v1.OidcConfig{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "o0"}, Spec: v1.OidcConfigSpec{ClientID: id, ClientSecret: "s", DiscoveryURL: "https://idp/d/1"}}
}

// zz22World is an adapter with policy version (0: none) and its configurations.
func zz22World(version int) *zzWorld {
	w := zzNewWorld()
	w.h.HandleAddUpdateEvent(zz22Jwt(0, "0"))
	w.h.HandleAddUpdateEvent(zz22Jwt(1, "0"))
	w.h.HandleAddUpdateEvent(zz22Oidc("c0"))
	if version > 0 {
		w.h.HandleAddUpdateEvent(zz22Policy(version))
	}
	return w
}

const zz22Events = 8

func (w *zzWorld) zz22Event(e int) {
	switch e {
	case 0, 1, 2:
		w.h.HandleAddUpdateEvent(zz22Policy(e + 1))
	case 3:
		w.h.HandleDeleteEvent(policy.CrdKey{Id: "ns/p", CrdType: v1.POLICY})
	case 4:
		w.h.HandleAddUpdateEvent(zz22Jwt(0, "1"))
	case 5:
		w.h.HandleDeleteEvent(policy.CrdKey{Id: "ns/j0", CrdType: v1.JWTCONFIG})
	case 6:
		w.h.HandleAddUpdateEvent(zz22Oidc("c1"))
	case 7:
		w.h.HandleDeleteEvent(policy.CrdKey{Id: "ns/o0", CrdType: v1.OIDCCONFIG})
	}
}

var zz22Paths = []string{"/a", "/a/b", "/c"}

// A request during a configuration event.
//
//verif:bound=1_request_(3_paths,_2_methods)_during_1_event_out_of_8_(policy,_JwtConfig_and_OidcConfig_written_or_deleted),_policy_absent_or_in_one_of_3_versions,_every_order_of_their_accesses race=1 preempt=1 tpreempt=2 replay=300 budget=150 tbudget=250
func Verif_C22_events() {
	zz.SetTransport(&zz.Transport{F: zz22Transport})
	version := zz.Choose("policy", 4)
	event := zz.Choose("event", zz22Events)
	path := zz22Paths[zz.Choose("path", len(zz22Paths))]
	method := []string{"GET", "POST"}[zz.Choose("method", 2)]
	request := func() *authnz.HandleAuthnZRequest { return zzRequest("ns", "svc", path, method) }

	before := zz22Outcome(zz22World(version), request())
	wa := zz22World(version)
	wa.zz22Event(event)
	after := zz22Outcome(wa, request())

	w := zz22World(version)
	got := ""
	zz.Go(func() { w.zz22Event(event) })
	zz.Go(func() { got = zz22Outcome(w, request()) })
	zz.Join()
	if before == after {
		zz.Reach("unaffected")
		zz.Assert(got == before, "a request that an event does not concern is decided otherwise")
	} else {
		zz.Reach("affected")
		zz.Assert(got == before || got == after, "a request sees part of a configuration event")
	}
	w.api.calls, w.web.calls = 0, 0
	zz.Assert(zz22Outcome(w, request()) == after, "an event is lost or undone by a concurrent request")
}

// Configuration events of different kinds at the same time.
//
//verif:bound=2_concurrent_events_of_different_kinds,_policy_absent_or_in_one_of_3_versions,_every_order_of_their_accesses race=1 preempt=1 tpreempt=2 replay=300 budget=100 tbudget=150
func Verif_C22_kinds() {
	zz.SetTransport(&zz.Transport{F: zz22Transport})
	version := zz.Choose("policy", 4)
	kind := zz.Choose("kinds", 3)
	a, b := 0, 0
	switch kind {
	case 0: // policy and JwtConfig
		a, b = zz.Choose("a", 4), 4+zz.Choose("b", 2)
	case 1: // policy and OidcConfig
		a, b = zz.Choose("a", 4), 6+zz.Choose("b", 2)
	case 2:
		a, b = 4+zz.Choose("a", 2), 6+zz.Choose("b", 2)
	}
	ws := zz22World(version)
	ws.zz22Event(a)
	ws.zz22Event(b)
	w := zz22World(version)
	zz.Go(func() { w.zz22Event(a) })
	zz.Go(func() { w.zz22Event(b) })
	zz.Join()
	for _, path := range zz22Paths {
		for _, x := range []*zzWorld{w, ws} {
			x.api.calls, x.web.calls = 0, 0
		}
		zz.Assert(zz22Outcome(w, zzRequest("ns", "svc", path, "GET")) == zz22Outcome(ws, zzRequest("ns", "svc", path, "GET")), "concurrent events do not leave what they declare")
	}
	zz.Reach("both applied")
}

// Two requests at the same time under one policy.
//
//verif:bound=2_concurrent_requests_(3_paths_each,_callbacks_and_logouts_among_them),_3_versions_of_the_policy,_every_order_of_their_accesses race=1 preempt=1 tpreempt=2 replay=300 budget=100 tbudget=150
func Verif_C22_requests() {
	zz.SetTransport(&zz.Transport{F: zz22Transport})
	version := 1 + zz.Choose("policy", 3)
	paths := []string{"/a", "/a/b", "/a/b/oidc/callback", "/c/oidc/logout"}
	var reqs [2]func() *authnz.HandleAuthnZRequest
	for i := range reqs {
		path := paths[zz.Choose("path"+strconv.Itoa(i), len(paths))]
		reqs[i] = func() *authnz.HandleAuthnZRequest { return zzRequest("ns", "svc", path, "GET") }
	}
	var want, got [2]string
	for i := range reqs {
		want[i] = zz22Outcome(zz22World(version), reqs[i]())
	}
	w := zz22World(version) // one that has not seen a request
	// each request has strategies of its own to record in
	for i := range reqs {
		i := i
		x := zzNewWorld()
		x.store = w.store
		x.a = &AppidAdapter{apistrategy: x.api, webstrategy: x.web, engine: w.a.engine}
		zz.Go(func() { got[i] = zz22Outcome(x, reqs[i]()) })
	}
	zz.Join()
	for i := range reqs {
		zz.Assert(got[i] == want[i], "a request is decided otherwise during another")
	}
	zz.Reach("both decided")
}

var _ keyset.KeySet
