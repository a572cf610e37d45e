package adapter

import (
	"encoding/base64"
	"errors"
	"io/ioutil"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	k8sv1 "k8s.io/api/core/v1"
	kerrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/kubernetes"
	corev1 "k8s.io/client-go/kubernetes/typed/core/v1"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/handler"
	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy/api"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy/web"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"

	policyv1beta1 "istio.io/api/policy/v1beta1"
)

// The whole adapter: real store, handlers, engine, strategies, validators,
// clients and providers' representations, between stubs of the cluster, the
// providers and a browser.

// ---- cluster ------------------------------------------------------------------------

type zzWholeCluster struct {
	kubernetes.Interface
	corev1.CoreV1Interface
	corev1.SecretInterface
	ns string
}

func (c *zzWholeCluster) CoreV1() corev1.CoreV1Interface { return c }
func (c *zzWholeCluster) Secrets(ns string) corev1.SecretInterface {
	return &zzWholeCluster{ns: ns}
}

func (c *zzWholeCluster) Get(name string, o metav1.GetOptions) (*k8sv1.Secret, error) {
	meta := metav1.ObjectMeta{Namespace: c.ns, Name: name}
	switch c.ns + "/" + name {
	case "istio-system/appidentityandaccessadapter-cookie-sig-enc-keys":
		return &k8sv1.Secret{ObjectMeta: meta, Data: map[string][]byte{"HASH_KEY": []byte("0123456789abcdef0123456789abcdef"), "BLOCK_KEY": []byte("fedcba9876543210")}}, nil
	case "ns/secret1":
		return &k8sv1.Secret{ObjectMeta: meta, Data: map[string][]byte{"key": []byte("~S1~")}}, nil
	}
	return nil, kerrors.NewNotFound(schema.GroupResource{Resource: "secrets"}, name)
}

// ---- providers ------------------------------------------------------------------------

// zzTokens are what a provider issues at once. All texts of a provider are
// marked with ~, which is in no cookie, state or escaped URL.
type zzTokens struct {
	access, id, refresh string
	opaque              bool
	expired             bool
	refused             bool // the provider does not confirm the access token any more
	used                bool // the refresh token
	broken              bool // the answer has a member of a type it must not have
}

// zzWholeIdp is the provider of one client.
type zzWholeIdp struct {
	n      int
	secret string
	codes  map[string]string // code -> redirect URI it was issued for
	issued []*zzTokens
	next   func(kind string) *zzTokens // tokens of an answer, nil: refused
	down   func(path string) bool      // requests that get no answer
	twist  func(path string, status int, doc *zz.J) (int, *zz.J)
	w      *zzWhole
}

func (p *zzWholeIdp) base() string { return "https://idp" + strconv.Itoa(p.n) }

// zzMarked makes a JWT that names its issue and its audience.
func zzMarked(name, aud string, expired bool) string {
	d := 3600
	if expired {
		d = -3600
	}
	return zz.Token(zz.Tok{
		Head:   zz.JO().With("alg", zz.JS("RS256")).With("kid", zz.JS("k")),
		Claims: zz.JO().With("sub", zz.JS(name)).With("aud", zz.JA(zz.JS("all"), zz.JS(aud))).With("exp", zz.JN(int(zz.Now().Unix())+d, false)),
		Sign:   "RS256",
	})
}

func (p *zzWholeIdp) issue(opaque, expired bool) *zzTokens {
	name := strconv.Itoa(p.n) + "." + strconv.Itoa(len(p.issued))
	aud := "client" + strconv.Itoa(p.n)
	t := &zzTokens{opaque: opaque, expired: expired, refresh: "~R" + name + "~", id: zzMarked("i"+name, aud, expired)}
	if opaque {
		t.access = "~A" + name + "~"
	} else {
		t.access = zzMarked("a"+name, aud, expired)
	}
	p.issued = append(p.issued, t)
	return t
}

// secrets of the provider that a request to the endpoint may hold.
func (p *zzWholeIdp) watch(what, text string, secret, tokens bool) {
	if p.w.blind {
		return
	}
	if !secret {
		zz.Assert(!strings.Contains(text, p.secret), "the client secret is in "+what)
		zz.Assert(!strings.Contains(text, base64.StdEncoding.EncodeToString([]byte("client"+strconv.Itoa(p.n)+":"+p.secret))), "the client secret is in "+what)
	}
	if tokens {
		return
	}
	for _, t := range p.issued {
		zz.Assert(!strings.Contains(text, t.access), "an access token is in "+what)
		zz.Assert(!strings.Contains(text, t.id), "an ID token is in "+what)
		zz.Assert(!strings.Contains(text, t.refresh), "a refresh token is in "+what)
	}
}

func (p *zzWholeIdp) RoundTrip(req *http.Request) (*http.Response, error) {
	var body []byte
	if req.Body != nil {
		body, _ = ioutil.ReadAll(req.Body)
	}
	path := req.URL.Path
	if p.down != nil && p.down(path) {
		return nil, errors.New("connection refused")
	}
	for _, o := range p.w.idps {
		o.watch("the URL of a request to a provider", req.URL.String(), false, false)
		if o != p || path == "/d" || path == "/k" {
			for _, vs := range req.Header {
				for _, v := range vs {
					o.watch("a request to another provider, or for a public document", v, false, false)
				}
			}
			o.watch("a request to another provider, or for a public document", string(body), false, false)
		}
	}
	for _, c := range p.w.given {
		zz.Assert(p.w.blind || !strings.Contains(req.URL.String(), c), "an authorization code is in the URL of a request to a provider")
	}
	reply := func(status int, doc *zz.J) *http.Response {
		if p.twist != nil {
			status, doc = p.twist(path, status, doc)
		}
		return zz.Response(req, status, zz.Body(doc))
	}
	switch path {
	case "/d":
		return reply(200, zz.JO().
			With("issuer", zz.JS(p.base())).
			With("authorization_endpoint", zz.JS(p.base()+"/a")).
			With("token_endpoint", zz.JS(p.base()+"/t")).
			With("jwks_uri", zz.JS(p.base()+"/k")).
			With("userinfo_endpoint", zz.JS(p.base()+"/u"))), nil
	case "/k":
		return reply(200, zz.JO().With("keys", zz.JA(
			zz.JO().With("kid", zz.JS("k")).With("kty", zz.JS("RSA")).With("n", zz.JS(zz.KeyN(0))).With("e", zz.JS(zz.KeyE))))), nil
	case "/u":
		zz.Assert(req.Method == "GET" && len(body) == 0, "a userinfo request has a body")
		auth := req.Header["Authorization"]
		zz.Assert(len(auth) == 1, "a userinfo request has one authorization")
		p.watch("a userinfo request", auth[0], false, true)
		for _, t := range p.issued {
			zz.Assert(p.w.blind || !strings.Contains(auth[0], t.refresh), "a refresh token is in a userinfo request")
			if auth[0] == "Bearer "+t.access {
				if t.expired || t.refused {
					break
				}
				return reply(200, zz.JO().With("sub", zz.JS("user"))), nil
			}
		}
		return reply(401, zz.JO().With("error", zz.JS("invalid_token"))), nil
	case "/t":
		zz.Assert(req.Method == "POST", "a token request is not a POST")
		f, err := url.ParseQuery(string(body))
		zz.Assert(err == nil, "a token request is not a form")
		for _, t := range p.issued {
			if p.w.blind {
				break
			}
			zz.Assert(!strings.Contains(string(body), t.access) && !strings.Contains(string(body), t.id), "an access or ID token is in a token request")
		}
		id, secret, basic := req.BasicAuth()
		if !basic {
			id, secret = f.Get("client_id"), f.Get("client_secret")
		}
		zz.Assert(id == "client"+strconv.Itoa(p.n) && secret == p.secret, "the client does not authenticate as itself")
		kind := f.Get("grant_type")
		var t *zzTokens
		switch kind {
		case "authorization_code":
			uri, ok := p.codes[f.Get("code")]
			if ok && uri == f.Get("redirect_uri") {
				delete(p.codes, f.Get("code"))
				t = p.next(kind)
			}
		case "refresh_token":
			for _, o := range p.issued {
				if f.Get("refresh_token") == o.refresh && !o.used {
					if t = p.next(kind); t != nil {
						o.used = true
					}
					break
				}
			}
		}
		if t == nil {
			return reply(400, zz.JO().With("error", zz.JS("invalid_grant")).With("error_description", zz.JS("no"))), nil
		}
		expiry := zz.JN(3600, false)
		if t.broken {
			expiry = zz.JA(zz.JS("soon"))
		}
		return reply(200, zz.JO().With("access_token", zz.JS(t.access)).With("id_token", zz.JS(t.id)).With("refresh_token", zz.JS(t.refresh)).With("expires_in", expiry)), nil
	}
	zz.Assert(false, "an unknown endpoint of a provider is asked")
	return nil, errors.New("not found")
}

// ---- adapter and browser -----------------------------------------------------------------

type zzWhole struct {
	a    *AppidAdapter
	idps []*zzWholeIdp
	jar  map[string]string
	// given are all codes of the providers.
	given []string
	h     handler.PolicyHandler
	// host answers requests to a host that is no provider.
	host func(*http.Request) (*http.Response, error)
	// blind leaves out looking for secrets and tokens.
	blind bool
}

// zzNewWhole configures two clients of two providers for /p0 and /p1 and a JWT
// policy with the first provider's keys for /api.
func zzNewWhole() *zzWhole { return zzNewWholeWith(nil) }

// zzNewWholeWith lets the caller see to the providers before they are asked.
func zzNewWholeWith(prepare func(*zzWhole)) *zzWhole {
	w := &zzWhole{jar: map[string]string{}}
	for i := 0; i < 2; i++ {
		w.idps = append(w.idps, &zzWholeIdp{n: i, secret: "~S" + strconv.Itoa(i) + "~", codes: map[string]string{}, w: w})
	}
	if prepare != nil {
		prepare(w)
	}
	zz.SetTransport(&zz.Transport{F: func(req *http.Request) (*http.Response, error) {
		for _, p := range w.idps {
			if req.URL.Scheme+"://"+req.URL.Host == p.base() {
				return p.RoundTrip(req)
			}
		}
		if w.host != nil {
			return w.host(req)
		}
		zz.Assert(false, "another host than a provider is asked")
		return nil, errors.New("no such host")
	}})
	store := storepolicy.New()
	h := handler.New(store, &zzWholeCluster{})
	w.h = h
	e, err := engine.New(store)
	zz.Assert(err == nil, "the engine is made")
	w.a = &AppidAdapter{apistrategy: apistrategy.New(), webstrategy: webstrategy.New(config.NewConfig(), &zzWholeCluster{}), engine: e}
	targets := []v1.TargetElement{{ServiceName: "svc"}}
	for i, p := range w.idps {
		spec := v1.OidcConfigSpec{ClientName: "oidc" + strconv.Itoa(i), ClientID: "client" + strconv.Itoa(i), DiscoveryURL: p.base() + "/d", AuthMethod: "client_secret_basic"}
		if i == 0 {
			spec.ClientSecret = p.secret
		} else {
			spec.AuthMethod = "client_secret_post"
			spec.ClientSecretRef = v1.ClientSecretRef{Name: "secret1", Key: "key"}
		}
		h.HandleAddUpdateEvent(&v1.OidcConfig{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "oidc" + strconv.Itoa(i)}, Spec: spec})
		targets[0].Paths = append(targets[0].Paths, v1.PathConfig{Prefix: "/p" + strconv.Itoa(i), Policies: []v1.PathPolicy{{PolicyType: "oidc", Config: "oidc" + strconv.Itoa(i)}}})
	}
	h.HandleAddUpdateEvent(&v1.JwtConfig{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "jwt"}, Spec: v1.JwtConfigSpec{JwksURL: w.idps[0].base() + "/k"}})
	targets[0].Paths = append(targets[0].Paths, v1.PathConfig{Prefix: "/api", Policies: []v1.PathPolicy{{PolicyType: "jwt", Config: "jwt"}}})
	h.HandleAddUpdateEvent(&v1.Policy{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "policy"}, Spec: v1.PolicySpec{Target: targets}})
	return w
}

// zzSeen is what the mesh makes of an answer.
type zzSeen struct {
	err           error
	code          int32
	passed        bool
	location      string
	authorization string
	challenge     string
}

// ask sends a request with the browser's cookies and takes the answer apart.
func (w *zzWhole) ask(path, auth string, params *authnz.QueryParamsMsg) *zzSeen {
	if params == nil {
		params = &authnz.QueryParamsMsg{}
	}
	cookies := ""
	for _, n := range []string{"oidc-cookie-client0", "oidc-cookie-client1"} {
		if v, ok := w.jar[n]; ok {
			if cookies != "" {
				cookies += "; "
			}
			cookies += n + "=" + v
		}
	}
	resp, err := w.a.HandleAuthnZ(nil, &authnz.HandleAuthnZRequest{Instance: &authnz.InstanceMsg{
		Target: &authnz.TargetMsg{Namespace: "ns", Service: "svc", Path: path, Method: "GET"},
		Request: &authnz.RequestMsg{
			Scheme: "https", Host: "app", Path: path,
			Headers: &authnz.HeadersMsg{Cookies: cookies, Authorization: auth},
			Params:  params,
		},
	}})
	s := &zzSeen{err: err}
	var browser []string // what the browser gets to see
	add := func(t string) { browser = append(browser, t) }
	set := func(h string) {
		c, _ := zz.SetCookie(h)
		zz.Assert(c != nil, "a cookie that is set cannot be read")
		zz.Assert(c.Path == "/", "a cookie is not for the whole application")
		w.jar[c.Name] = c.Value
		add(c.Name)
		add(c.Value)
	}
	if err != nil {
		add(err.Error())
	}
	if resp != nil && resp.Result != nil {
		s.code = resp.Result.Status.Code
		s.passed = s.code == 0 && err == nil
		add(resp.Result.Status.Message)
		for _, d := range resp.Result.Status.Details {
			var r *policyv1beta1.DirectHttpResponse = zz.UnpackDetail(d)
			zz.Assert(r != nil, "the direct response cannot be read")
			add(r.Body)
			for k, v := range r.Headers {
				switch strings.ToLower(k) {
				case "set-cookie":
					set(v)
					continue
				case "location":
					s.location = v
				case "www-authenticate":
					s.challenge = v
				}
				add(v)
			}
		}
	}
	if resp != nil && resp.Output != nil {
		s.authorization = resp.Output.Authorization
		zz.Assert(s.passed || s.authorization == "", "tokens are handed on with a refused request")
		if resp.Output.SessionCookie != "" {
			set(resp.Output.SessionCookie)
		}
		for _, p := range w.idps {
			p.watch("what the application gets", s.authorization, false, true)
			for _, t := range p.issued {
				zz.Assert(w.blind || !strings.Contains(s.authorization, t.refresh), "a refresh token is in what the application gets")
			}
		}
	}
	for _, p := range w.idps {
		for _, t := range browser {
			p.watch("what the browser gets", t, false, false)
		}
	}
	for _, c := range w.given {
		if w.blind {
			break
		}
		for _, t := range browser {
			zz.Assert(!strings.Contains(t, c), "an authorization code is in what the browser gets")
		}
		zz.Assert(!strings.Contains(s.authorization, c), "an authorization code is in what the application gets")
	}
	return s
}

// authorize is the provider's side of a login: it gives the state and a code
// for the redirect URI of the location.
func (w *zzWhole) authorize(location, code string) (idp int, redirect, state string) {
	u, err := url.Parse(location)
	zz.Assert(err == nil, "the login location is not a URL")
	q := u.Query()
	for i, p := range w.idps {
		if u.Scheme+"://"+u.Host+u.Path == p.base()+"/a" {
			zz.Assert(q.Get("client_id") == "client"+strconv.Itoa(i), "the login names another client")
			zz.Assert(q.Get("response_type") == "code", "the login does not ask for a code")
			p.codes[code] = q.Get("redirect_uri")
			w.given = append(w.given, code)
			return i, q.Get("redirect_uri"), q.Get("state")
		}
	}
	zz.Assert(false, "the login goes to no provider")
	return 0, "", ""
}
