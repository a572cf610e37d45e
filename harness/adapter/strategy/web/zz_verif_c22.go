package webstrategy

import (
	"errors"
	"strconv"
	"strings"

	k8sv1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/kubernetes"
	corev1 "k8s.io/client-go/kubernetes/typed/core/v1"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	oerrors "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// What follows keeps no state of its own, so that it orders nothing.

// zz22Cluster holds the key secret unless it is down.
type zz22Cluster struct {
	kubernetes.Interface
	corev1.CoreV1Interface
	corev1.SecretInterface
	down bool
}

func (c *zz22Cluster) CoreV1() corev1.CoreV1Interface           { return c }
func (c *zz22Cluster) Secrets(ns string) corev1.SecretInterface { return c }
func (c *zz22Cluster) Get(name string, o metav1.GetOptions) (*k8sv1.Secret, error) {
	zz.Yield()
	if c.down {
		return nil, errors.New("cluster unreachable")
	}
	return zzKeySecret(zzHash, zzBlock), nil
}
func (c *zz22Cluster) Create(s *k8sv1.Secret) (*k8sv1.Secret, error) {
	return nil, errors.New("cluster unreachable")
}

// zz22Judge finds tokens good, expired or bad by their first character.
type zz22Judge struct{}

func (zz22Judge) Validate(token string, kind validator.Token, ks keyset.KeySet, rules []v1.Rule, info string) *oerrors.OAuthError {
	zz.Yield()
	switch {
	case strings.HasPrefix(token, "g"):
		return nil
	case strings.HasPrefix(token, "x"):
		return oerrors.UnauthorizedHTTPException("Token is expired", nil)
	}
	return oerrors.UnauthorizedHTTPException("crypto/rsa: verification error", nil)
}

type zz22Client struct {
	client.Client
	id     string
	server zzServer
}

func (c *zz22Client) Name() string                                               { return "client" }
func (c *zz22Client) ID() string                                                 { return c.id }
func (c *zz22Client) Scope() string                                              { return "openid" }
func (c *zz22Client) AuthorizationServer() authserver.AuthorizationServerService { return &c.server }
func (c *zz22Client) ExchangeGrantCode(code, uri string) (*authserver.TokenResponse, error) {
	zz.Yield()
	return &authserver.TokenResponse{AccessToken: "g-a-" + code, IdentityToken: "g-i-" + code, RefreshToken: "r"}, nil
}
func (c *zz22Client) RefreshToken(t string) (*authserver.TokenResponse, error) {
	zz.Yield()
	return &authserver.TokenResponse{AccessToken: "g-a-" + t, IdentityToken: "g-i-" + t}, nil
}

func zz22NewClient(id string) *zz22Client {
	return &zz22Client{id: id, server: zzServer{auth: "https://idp/auth", info: "https://idp/info", ks: &zzNoKeys{}}}
}

// Browsers that log in at the same time.
//
//verif:bound=2_concurrent_requests_out_of_login_and_callback_(with_a_state_of_their_own_or_another's),_cookie_keys_read_before_or_not,_every_order_of_their_accesses race=1 preempt=1 tpreempt=2 replay=100 budget=100 tbudget=120
func Verif_C22_logins() {
	known := zz.Choose("known", 2) == 1
	c := zz22NewClient("c")
	// callbacks use state cookies made with the same keys by another process
	other := New(config.NewConfig(), &zz22Cluster{}).(*WebStrategy)
	other.tokenUtil = zz22Judge{}
	cluster := &zz22Cluster{down: !known}
	w := New(config.NewConfig(), cluster).(*WebStrategy)
	w.tokenUtil = zz22Judge{}
	cluster.down = false
	var reqs []*authnz.HandleAuthnZRequest
	var kinds []int
	for i := 0; i < 2; i++ {
		k := zz.Choose("request"+strconv.Itoa(i), 3)
		r := zzRequest("/", "")
		if k > 0 {
			resp, err := other.HandleAuthnZRequest(zzRequest("/", ""), zzAction(c, nil))
			state, cookie, _ := zzLogin(resp, err, c)
			r = zzRequest("/oidc/callback", zzPair(cookie))
			r.Instance.Request.Params.Code = "code" + strconv.Itoa(i)
			r.Instance.Request.Params.State = state
			if k == 2 {
				r.Instance.Request.Params.State = "other"
			}
		}
		reqs = append(reqs, r)
		kinds = append(kinds, k)
	}
	resps := make([]*authnz.HandleAuthnZResponse, 2)
	errs := make([]error, 2)
	for i := range reqs {
		i := i
		zz.Go(func() { resps[i], errs[i] = w.HandleAuthnZRequest(reqs[i], zzAction(c, nil)) })
	}
	zz.Join()
	for i, k := range kinds {
		switch k {
		case 0:
			zz.Reach("login")
			state, _, _ := zzLogin(resps[i], errs[i], c)
			zz.Assert(state != "", "a login without a state")
		case 1:
			zz.Reach("callback")
			_, set := zzRedirect(resps[i], errs[i])
			resp, err := w.HandleAuthnZRequest(zzRequest("/", zzPair(set)), zzAction(c, nil))
			zz.Assert(err == nil && zzPassed(resp), "a login completed during another is not remembered")
			code := "code" + strconv.Itoa(i)
			zz.Assert(resp.Output != nil && resp.Output.Authorization == "Bearer g-a-"+code+" g-i-"+code, "concurrent logins are given each other's tokens")
		case 2:
			zz.Reach("callback refused")
			zz.Assert(zzRefused(resps[i], errs[i]), "a callback with another state is honoured")
		}
	}
}

// Requests of one session at the same time.
//
//verif:bound=2_concurrent_requests_of_one_session,_each_a_request_or_a_logout_or_of_another_session,_session_valid,_expired_or_bad,_every_order_of_their_accesses race=1 preempt=1 tpreempt=2 replay=200 budget=100 tbudget=120
func Verif_C22_sessions() {
	w := New(config.NewConfig(), &zz22Cluster{}).(*WebStrategy)
	w.tokenUtil = zz22Judge{}
	c := zz22NewClient("c")
	// two sessions, made by logging in
	var cookies []string
	for i := 0; i < 2; i++ {
		resp, err := w.HandleAuthnZRequest(zzRequest("/", ""), zzAction(c, nil))
		state, cookie, _ := zzLogin(resp, err, c)
		r := zzRequest("/oidc/callback", zzPair(cookie))
		r.Instance.Request.Params.Code = "code" + strconv.Itoa(i)
		r.Instance.Request.Params.State = state
		_, set := zzRedirect(w.HandleAuthnZRequest(r, zzAction(c, nil)))
		cookies = append(cookies, zzPair(set))
	}
	kind := zz.Choose("session", 3)
	w.tokenCache.Range(func(k, v interface{}) bool {
		if t, ok := v.(*authserver.TokenResponse); ok && t.AccessToken == "g-a-code0" && kind > 0 {
			n := *t
			n.AccessToken = []string{"g", "x", "b"}[kind] + "-a-code0"
			w.tokenCache.Store(k, &n)
		}
		return true
	})
	old := "Bearer g-a-code0 g-i-code0"
	renewed := "Bearer g-a-r g-i-r"
	ops := make([]int, 2)
	resps := make([]*authnz.HandleAuthnZResponse, 2)
	errs := make([]error, 2)
	for i := range ops {
		ops[i] = zz.Choose("op"+strconv.Itoa(i), 3)
	}
	for i := range ops {
		i := i
		zz.Go(func() {
			r := zzRequest("/", cookies[0])
			if ops[i] == 1 {
				r = zzRequest("/oidc/logout", cookies[0])
			} else if ops[i] == 2 {
				r = zzRequest("/", cookies[1])
			}
			resps[i], errs[i] = w.HandleAuthnZRequest(r, zzAction(c, nil))
		})
	}
	zz.Join()
	out := false
	for i, op := range ops {
		zz.Assert(errs[i] == nil && resps[i] != nil && resps[i].Result != nil, "a concurrent request fails")
		switch op {
		case 0:
			if zzPassed(resps[i]) {
				a := resps[i].Output.Authorization
				zz.Assert(kind == 0 && a == old || kind == 1 && a == renewed, "a concurrent request is passed with other tokens")
				zz.Reach("passed")
			} else {
				zz.Assert(kind == 2 || ops[1-i] == 1, "a live session is not recognised during another request")
				zz.Reach("not passed")
			}
		case 1:
			zz.Assert(!zzPassed(resps[i]), "a logout is passed to the application")
			out = true
		case 2:
			zz.Assert(zzPassed(resps[i]) && resps[i].Output.Authorization == "Bearer g-a-code1 g-i-code1", "another session is affected")
		}
	}
	resp, err := w.HandleAuthnZRequest(zzRequest("/", cookies[0]), zzAction(c, nil))
	zz.Assert(err == nil && resp != nil, "a request after concurrent ones fails")
	if out {
		zz.Assert(!zzPassed(resp), "a session survives a logout")
		zz.Reach("logged out")
	} else {
		zz.Assert(zzPassed(resp) == (kind != 2), "a session is lost by concurrent requests")
	}
}
