package webstrategy

import (
	"errors"
	"net/url"
	"strings"
	"sync"

	k8sv1 "k8s.io/api/core/v1"
	kerrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/kubernetes"
	corev1 "k8s.io/client-go/kubernetes/typed/core/v1"

	policy "istio.io/api/policy/v1beta1"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	oerrors "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

const (
	zzSecretNS   = "istio-system"
	zzSecretName = "appidentityandaccessadapter-cookie-sig-enc-keys"
	zzHash       = "0123456789abcdef0123456789abcdef"
	zzBlock      = "fedcba9876543210"

	zzIDChars  = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~"
	zzSeg      = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~"
	zzPathish  = zzSeg + "/"
	zzCookieCh = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~=+/:@"
)

// ---- the cluster that holds the cookie keys --------------------------------------

// zzCluster answers reads and creations of the key secret as it is told.
type zzCluster struct {
	kubernetes.Interface
	corev1.CoreV1Interface
	corev1.SecretInterface

	mu      sync.Mutex
	secret  *k8sv1.Secret
	get     func(n int) error // n-th read; nil when it is answered
	create  func(n int) error
	gets    int
	creates int
	other   bool // some other object was asked for
	last    *k8sv1.Secret
}

func (c *zzCluster) CoreV1() corev1.CoreV1Interface { return c }
func (c *zzCluster) Secrets(ns string) corev1.SecretInterface {
	if ns != zzSecretNS {
		c.other = true
	}
	return c
}

func (c *zzCluster) Get(name string, o metav1.GetOptions) (*k8sv1.Secret, error) {
	zz.Yield()
	c.mu.Lock()
	defer c.mu.Unlock()
	if name != zzSecretName {
		c.other = true
	}
	c.gets++
	if c.get != nil {
		if err := c.get(c.gets); err != nil {
			return nil, err
		}
	}
	if c.secret == nil {
		return nil, kerrors.NewNotFound(schema.GroupResource{Resource: "secrets"}, name)
	}
	return c.secret.DeepCopy(), nil
}

func (c *zzCluster) Create(s *k8sv1.Secret) (*k8sv1.Secret, error) {
	zz.Yield()
	c.mu.Lock()
	defer c.mu.Unlock()
	if s.Name != zzSecretName || s.Namespace != zzSecretNS {
		c.other = true
	}
	c.creates++
	c.last = s.DeepCopy()
	if c.create != nil {
		if err := c.create(c.creates); err != nil {
			return nil, err
		}
	}
	if c.secret != nil {
		return nil, kerrors.NewAlreadyExists(schema.GroupResource{Resource: "secrets"}, s.Name)
	}
	c.secret = s.DeepCopy()
	return s, nil
}

func zzKeySecret(hash, block string) *k8sv1.Secret {
	return &k8sv1.Secret{
		ObjectMeta: metav1.ObjectMeta{Namespace: zzSecretNS, Name: zzSecretName},
		Data:       map[string][]byte{"HASH_KEY": []byte(hash), "BLOCK_KEY": []byte(block)},
	}
}

func zzWeb() *WebStrategy {
	return New(config.NewConfig(), &zzCluster{secret: zzKeySecret(zzHash, zzBlock)}).(*WebStrategy)
}

// ---- the provider ------------------------------------------------------------------

type zzServer struct {
	authserver.AuthorizationServerService
	auth, info string
	ks         keyset.KeySet
}

func (s *zzServer) AuthorizationEndpoint() string { return s.auth }
func (s *zzServer) UserInfoEndpoint() string      { return s.info }
func (s *zzServer) KeySet() keyset.KeySet         { return s.ks }

type zzNoKeys struct{ keyset.KeySet }

type zzCall struct{ kind, code, uri, token string }

// zzClient answers exchanges and refreshes as it is told and records them.
type zzClient struct {
	client.Client
	id     string
	scope  string
	server authserver.AuthorizationServerService
	calls  []zzCall
	answer func(c zzCall) (*authserver.TokenResponse, error)
}

func (c *zzClient) Name() string                                               { return "client" }
func (c *zzClient) ID() string                                                 { return c.id }
func (c *zzClient) Scope() string                                              { return c.scope }
func (c *zzClient) AuthorizationServer() authserver.AuthorizationServerService { return c.server }
func (c *zzClient) ExchangeGrantCode(code, uri string) (*authserver.TokenResponse, error) {
	return c.call(zzCall{kind: "exchange", code: code, uri: uri})
}
func (c *zzClient) RefreshToken(t string) (*authserver.TokenResponse, error) {
	return c.call(zzCall{kind: "refresh", token: t})
}
func (c *zzClient) call(k zzCall) (*authserver.TokenResponse, error) {
	c.calls = append(c.calls, k)
	if c.answer == nil {
		return nil, errors.New("no answer")
	}
	return c.answer(k)
}

func zzNewClient(id string) *zzClient {
	return &zzClient{id: id, scope: "openid profile email", server: &zzServer{auth: "https://idp/auth", info: "https://idp/info", ks: &zzNoKeys{}}}
}

// ---- the validator -----------------------------------------------------------------

const (
	zzOK = iota
	zzExpired
	zzInvalid
)

type zzAsked struct {
	token string
	kind  validator.Token
	ks    keyset.KeySet
	rules []v1.Rule
	info  string
}

type zzVerdict struct {
	token   string
	kind    validator.Token
	outcome int
}

// zzJudge finds the tokens it was told about as it was told and all others
// invalid.
type zzJudge struct {
	verdicts []*zzVerdict
	asked    []zzAsked
}

func (j *zzJudge) says(token string, kind validator.Token, outcome int) *zzVerdict {
	v := &zzVerdict{token, kind, outcome}
	j.verdicts = append(j.verdicts, v)
	return v
}

func (j *zzJudge) Validate(token string, kind validator.Token, ks keyset.KeySet, rules []v1.Rule, info string) *oerrors.OAuthError {
	j.asked = append(j.asked, zzAsked{token, kind, ks, rules, info})
	o := zzInvalid
	for _, v := range j.verdicts {
		if kind == v.kind && zz.Fork(token == v.token) {
			o = v.outcome
			break
		}
	}
	if zz.Fork(o == zzOK) {
		return nil
	}
	if zz.Fork(o == zzExpired) {
		return oerrors.UnauthorizedHTTPException("Token is expired", nil)
	}
	return oerrors.UnauthorizedHTTPException("crypto/rsa: verification error", nil)
}

// validated tells whether the token was found good for that use.
func (j *zzJudge) validated(token string, kind validator.Token, c *zzClient, rules []v1.Rule) bool {
	found := false
	s := c.server.(*zzServer)
	for _, a := range j.asked {
		if a.kind == kind && a.ks == s.ks {
			found = zz.Or(found, zz.And(a.token == token, a.info == s.info, zz.DeepEqual(a.rules, rules)))
		}
	}
	good := false
	for _, v := range j.verdicts {
		if v.kind == kind {
			good = zz.Or(good, zz.And(v.token == token, v.outcome == zzOK))
		}
	}
	return zz.And(found, good)
}

// ---- requests and answers ------------------------------------------------------------

func zzRequest(path, cookies string) *authnz.HandleAuthnZRequest {
	return &authnz.HandleAuthnZRequest{Instance: &authnz.InstanceMsg{
		Target: &authnz.TargetMsg{Namespace: "ns", Service: "svc", Path: path, Method: "GET"},
		Request: &authnz.RequestMsg{
			Scheme:  "https",
			Host:    "app.example.com",
			Path:    path,
			Headers: &authnz.HeadersMsg{Cookies: cookies},
			Params:  &authnz.QueryParamsMsg{},
		},
	}}
}

func zzAction(c client.Client, rules []v1.Rule) *engine.Action {
	a := &engine.Action{Client: c}
	a.Rules = rules
	return a
}

func zzPassed(resp *authnz.HandleAuthnZResponse) bool {
	return resp != nil && resp.Result != nil && resp.Result.Status.Code == 0
}

func zzHeader(d *policy.DirectHttpResponse, name string) string {
	for k, v := range d.Headers {
		if strings.ToLower(k) == name {
			return v
		}
	}
	return ""
}

// zzRedirect takes a redirect apart.
func zzRedirect(resp *authnz.HandleAuthnZResponse, err error) (location, cookie string) {
	zz.Assert(err == nil, "an error is returned instead of a redirect")
	zz.Assert(resp != nil && resp.Result != nil && resp.Result.Status.Code == 16, "a redirect is UNAUTHENTICATED")
	zz.Assert(len(resp.Result.Status.Details) == 1, "a redirect carries a direct response")
	d := zz.UnpackDetail(resp.Result.Status.Details[0])
	zz.Assert(d != nil, "a redirect carries a direct response that can be read")
	zz.Assert(d.Code == policy.Found, "a redirect has status 302")
	zz.Assert(d.Body == "", "a redirect has no body")
	return zzHeader(d, "location"), zzHeader(d, "set-cookie")
}

// zzLogin takes a redirect to the provider apart.
func zzLogin(resp *authnz.HandleAuthnZResponse, err error, c client.Client) (state, cookie string, q url.Values) {
	loc, cookie := zzRedirect(resp, err)
	u, e := url.Parse(loc)
	zz.Assert(e == nil, "the login location is not a URL")
	q = u.Query()
	u.RawQuery = ""
	zz.Assert(strings.HasPrefix(c.AuthorizationServer().AuthorizationEndpoint(), u.String()), "the login does not go to the provider's authorization endpoint")
	return q.Get("state"), cookie, q
}

// zzRefused tells whether a callback was refused for good: no redirect, no pass.
func zzRefused(resp *authnz.HandleAuthnZResponse, err error) bool {
	return err != nil || resp != nil && resp.Result != nil && resp.Result.Status.Code == 16 && len(resp.Result.Status.Details) == 0
}

func zzAuthorization(t *authserver.TokenResponse) string {
	return "Bearer " + t.AccessToken + " " + t.IdentityToken
}

// zzSessions counts the stored sessions.
func zzSessions(w *WebStrategy) int {
	n := 0
	w.tokenCache.Range(func(k, v interface{}) bool { n++; return true })
	return n
}

// zzPair is what stands in a Cookie header for a cookie that was set.
func zzPair(setCookie string) string {
	c, _ := zz.SetCookie(setCookie)
	zz.Assert(c != nil, "a cookie that is set cannot be read")
	return c.Name + "=" + c.Value
}

// zzOrdinary says that a path is neither a callback nor a logout.
func zzOrdinary(path string) bool {
	return !strings.HasSuffix(path, "/oidc/logout") && !strings.HasSuffix(path, "/oidc/callback")
}
