package adapter

import (
	"strconv"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/handler"
	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"

	"istio.io/api/mixer/adapter/model/v1beta1"
)

const zzSegChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~%!$&'()*+,;=:@"
const zzNameChars = "abcdefghijklmnopqrstuvwxyz0123456789-"

// zzStrategy records what it is asked to decide.
type zzStrategy struct {
	calls  int
	action *engine.Action
	req    *authnz.HandleAuthnZRequest
	resp   *authnz.HandleAuthnZResponse
}

func (s *zzStrategy) HandleAuthnZRequest(r *authnz.HandleAuthnZRequest, a *engine.Action) (*authnz.HandleAuthnZResponse, error) {
	s.calls++
	s.action = a
	s.req = r
	return s.resp, nil
}

// zzWorld is an adapter with recording strategies over real policy handling.
type zzWorld struct {
	store storepolicy.PolicyStore
	h     handler.PolicyHandler
	api   *zzStrategy
	web   *zzStrategy
	a     *AppidAdapter
}

func zzNewWorld() *zzWorld {
	w := &zzWorld{store: storepolicy.New(), api: &zzStrategy{resp: zzRefuse("api")}, web: &zzStrategy{resp: zzRefuse("web")}}
	w.h = handler.New(w.store, nil)
	e, err := engine.New(w.store)
	zz.Assert(err == nil, "the engine is made for a store")
	w.a = &AppidAdapter{apistrategy: w.api, webstrategy: w.web, engine: e}
	return w
}

func zzRefuse(m string) *authnz.HandleAuthnZResponse {
	r := &authnz.HandleAuthnZResponse{Result: &v1beta1.CheckResult{}}
	r.Result.Status.Code = 16
	r.Result.Status.Message = m
	return r
}

func zzRequest(ns, svc, path, method string) *authnz.HandleAuthnZRequest {
	return &authnz.HandleAuthnZRequest{Instance: &authnz.InstanceMsg{
		Target: &authnz.TargetMsg{Namespace: ns, Service: svc, Path: path, Method: method},
		Request: &authnz.RequestMsg{
			Headers: &authnz.HeadersMsg{},
			Params:  &authnz.QueryParamsMsg{},
		},
	}}
}

// zzEntry is one configured path.
type zzEntry struct {
	exact  bool
	segs   []string
	method string
	ns     string
	svc    string
	cfg    string
	conf   v1.PathConfig
}

// zzMakeEntry makes a path entry; forms: how a prefix may be spelled.
func zzMakeEntry(label string, maxSeg int, methods []string, cfg string) zzEntry {
	e := zzEntry{cfg: cfg}
	n := zz.Choose(label+".segs", maxSeg+1)
	path := ""
	for i := 0; i < n; i++ {
		s := zz.StringIn(label+".seg"+strconv.Itoa(i), zzSegChars, 1, 60)
		zz.Assume(s != "*")
		e.segs = append(e.segs, s)
		path += "/" + s
	}
	e.method = methods[zz.Choose(label+".method", len(methods))]
	e.conf = v1.PathConfig{Method: e.method, Policies: []v1.PathPolicy{{PolicyType: "jwt", Config: cfg}}}
	e.exact = zz.Choose(label+".exact", 2) == 1
	if e.exact {
		if n == 0 {
			e.conf.Exact = "/"
		} else {
			e.conf.Exact = path
		}
	} else {
		e.conf.Prefix = path
		if n == 0 {
			e.conf.Prefix = "/"
		}
	}
	return e
}

// respell spells the same entry in one of the other accepted forms.
func (e *zzEntry) respell(form int) {
	switch {
	case e.exact && form == 1:
		e.conf.Exact += "/"
	case !e.exact && len(e.segs) > 0 && form == 1:
		e.conf.Prefix += "/"
	case !e.exact && form == 2:
		if len(e.segs) == 0 {
			e.conf.Prefix = "/*"
		} else {
			e.conf.Prefix += "/*"
		}
	case !e.exact && len(e.segs) == 0 && form == 3:
		e.conf.Prefix = ""
	}
}

// match tells whether the entry covers the path, and how specifically.
func (e *zzEntry) match(segs []string) (bool, int) {
	if e.exact {
		if len(e.segs) != len(segs) {
			return false, 0
		}
	} else if len(e.segs) > len(segs) {
		return false, 0
	}
	ok := true
	for i := range e.segs {
		ok = zz.And(ok, e.segs[i] == segs[i])
	}
	score := 10 * (len(e.segs) + 1)
	if e.exact {
		score = 1000
	}
	if e.specific() {
		score++
	}
	return ok, score
}

func (e *zzEntry) specific() bool {
	switch e.method {
	case "GET", "PUT", "POST", "DELETE", "PATCH":
		return true
	}
	return false
}

func zzPolicy(ns, name string, targets ...v1.TargetElement) *v1.Policy {
	return &v1.Policy{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name}, Spec: v1.PolicySpec{Target: targets}}
}

type zzKeySet struct {
	keyset.KeySet
	name string
}

// chosen is the configuration name of the policy in force for a request, "" for none.
func (w *zzWorld) chosen(ns, svc, path, method string) string {
	w.api.calls, w.web.calls = 0, 0
	w.api.action = nil
	resp, err := w.a.HandleAuthnZ(nil, zzRequest(ns, svc, path, method))
	zz.Assert(err == nil && resp != nil, "a well formed request with existing configurations is decided")
	if w.api.calls == 0 {
		zz.Assert(resp != nil && resp.Result != nil && resp.Result.Status.Code == 0, "a request without a policy is passed")
		return ""
	}
	zz.Assert(w.api.calls == 1 && w.web.calls == 0 && w.api.action != nil && w.api.action.Type == policy.JWT, "one strategy decides")
	return w.api.action.Config
}

func zzReqPath(label string, max int) (segs []string, path string) {
	n := zz.Choose(label+".segs", max+1)
	for i := 0; i < n; i++ {
		s := zz.StringIn(label+".seg"+strconv.Itoa(i), zzSegChars, 1, 60)
		segs = append(segs, s)
		path += "/" + s
	}
	if n == 0 {
		path = "/"
	}
	if n >= 2 {
		// these endings are left out of the path that is looked up: C02 appends them itself
		zz.Assume(!zz.And(segs[n-2] == "oidc", zz.Or(segs[n-1] == "callback", segs[n-1] == "logout")))
	}
	return
}
